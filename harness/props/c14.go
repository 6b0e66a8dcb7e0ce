package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// site is a planner with what was compiled with it.
type site struct {
	g       *gen
	p       *velty.Planner
	defined int // variables of the world defined so far
	plans   []*plan
}

type plan struct {
	site     *site
	body     []Stmt
	tmpl     string
	vars     int // variables defined when it was compiled
	exec     *est.Execution
	newState func() *est.State
	states   []*heldState
}

type heldState struct {
	st   *est.State
	id   int
	last func() // checks that what it holds is still what the last execution left
	kept []kept
}

// kept is what a caller took from a state, later executions must not change it.
type kept struct {
	out, sameOut string
	errs         []error
	sameErrs     []string
}

func (h *heldState) later(t *engine.T) {
	if h.last != nil {
		h.last()
	}
	for _, k := range h.kept {
		if k.out != k.sameOut {
			t.Fail("an output of state %d taken before became %q, it was %q", h.id, k.out, k.sameOut)
		}
		for i, err := range k.errs {
			if err.Error() != k.sameErrs[i] {
				t.Fail("the errors of state %d taken before became %q, they were %q", h.id, k.errs, k.sameErrs)
			}
		}
	}
}

// define tells the planner the variables the generator made up meanwhile.
func (s *site) define(t *engine.T) {
	for _, v := range s.g.w.vars[s.defined:] {
		if err := s.p.DefineVariable(v.name, definition(v.name, s.defined, v.rType, v.value)); err != nil {
			t.Fail("DefineVariable(%q, %v): %v", v.name, v.rType, err)
		}
	}
	s.defined = len(s.g.w.vars)
}

func (s *site) compile(t *engine.T, k int) {
	g := s.g
	n := len(g.vars)
	g.budget = 8
	body := g.stmts(3)
	if len(body) == 0 {
		body = append(body, g.render())
	}
	g.vars = g.vars[:n]
	tmpl := printBody(&style{t}, body)
	s.define(t)
	t.Note("plan %d of planner %d: %q", len(s.plans), k, tmpl)
	exec, newState := compileOK(t, s.p, tmpl)
	s.plans = append(s.plans, &plan{site: s, body: body, tmpl: tmpl, exec: exec, newState: newState, vars: s.defined})
}

func newSite(t *engine.T, k int) *site {
	g := newGen(t)
	g.calls = t.Chance(1, 3)
	g.noIndex = t.Chance(3, 4)
	g.evalW = t.Int(0, 1)
	g.world(4)
	g.w.cache = t.Int(0, 2)
	if t.Chance(1, 3) { // also functions that fail
		g.calls, g.funcs = true, steadyFuncs
		g.w.setup = registerSteady
		g.w.withPersons()
		g.w.stop = t.Chance(1, 4)
	}
	s := &site{g: g, p: g.w.planner(t)}
	s.defined = len(g.w.vars)
	t.Note("planner %d: escapeHTML=%v bufferSize=%d cacheSize=%d\n%s", k, g.w.escape, g.w.bufSize, g.w.cache, show(g.w))
	return s
}

// child is a planner made of another one.
func (s *site) child() *site {
	g := *s.g
	w := *g.w
	g.w = &w
	w.vars = append([]*Var{}, w.vars...)
	g.vars = append([]*genVar{}, g.vars...)
	for i, v := range w.vars {
		c := *v
		w.vars[i] = &c
	}
	g.fresh += 1000
	return &site{g: &g, p: s.p.New(), defined: s.defined}
}

func (p *plan) run(t *engine.T, hs *heldState, again bool) {
	w := *p.site.g.w
	w.vars = w.vars[:p.vars]
	e := modelEnv(&World{escape: w.escape, stop: w.stop, fuel: w.fuel}, nil)
	// what the caller supplies is shared with the variables by pointers only
	supplied, expected := newCloner(), newCloner()
	var ours, theirs []reflect.Value
	for _, v := range w.vars {
		s := reflect.New(v.rType).Elem()
		if !v.unset {
			y := expected.clone(v.value)
			s.Set(y)
			theirs = append(theirs, y)
		}
		e.define(v, s)
	}
	declareAll(e, p.body)
	want := runModel(e, p.body)
	if want.discarded != "" {
		t.Class("discarded: " + want.discarded)
		return
	}
	isVar := map[string]bool{}
	for _, v := range w.vars {
		isVar[v.name] = true
		for _, a := range v.also {
			isVar[a] = true
		}
		x := supplied.clone(v.value)
		switch {
		case v.unset && again:
			x = reflect.Zero(v.rType)
		case v.unset:
			continue
		default:
			ours = append(ours, x)
		}
		var err error
		if v.embed {
			err = hs.st.EmbedValue(x.Interface())
		} else {
			err = hs.st.SetValue(v.name, x.Interface())
		}
		if err != nil {
			t.Fail("setting %v: %v", v.name, err)
		}
	}
	if again {
		for name, v := range e.vars {
			if !isVar[name] {
				if err := hs.st.SetValue(name, reflect.Zero(v.Type()).Interface()); err != nil {
					t.Fail("setting %v: %v", name, err)
				}
			}
		}
	}
	checkRun(t, &w, e, want, hs.st, p.exec)
	if !want.panicked {
		if got := fmt.Sprintf("%q", hs.st.Errors); got != fmt.Sprintf("%q", e.errs) {
			t.Fail("errors on the state: %s\nwant: %q", got, e.errs)
		}
	}
	out := hs.st.Buffer.String()
	hs.kept = append(hs.kept, kept{out, strings.Clone(out), hs.st.Errors, append([]string{}, e.errs...)})
	hs.last = func() {
		compareState(t, e, hs.st)
		if got := hs.st.Buffer.String(); got != want.out {
			t.Fail("state %d holds the output %q later, it was %q", hs.id, got, want.out)
		}
	}
	for i := range ours {
		if got, want := dump(ours[i]), dump(theirs[i]); got != want {
			t.Fail("a value given to SetValue became\n%s\nwant %s", got, want)
		}
	}
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C14",
		Rule: "histories of up to 14 operations on up to 3 planners (one may be made of another one by New): compile a generated program (also one that is invalid), create a state, execute a plan on a fresh state or on a reset one with all variables set again, with the same or other values, also after executions that panicked; " +
			"each execution's output and variables and the values supplied by the caller are compared with a model that knows nothing of the history; non-trivial: at least 3 executions of which one repeats a plan",
		Quick: 30000, Thorough: 2000000,
		Run: func(t *engine.T) {
			sites := []*site{newSite(t, 0)}
			sites[0].compile(t, 0)
			runs, repeated, ids := 0, 0, 0
			done := map[*plan]int{}
			more := 2
			if t.Chance(1, 60) {
				more = size(t, 5, 8)
				t.Class("long history")
			}
			for n := 0; n < more || t.More(n, 14, 7); n++ {
				k := t.Int(0, len(sites)-1)
				s := sites[k]
				switch t.Weighted(6, 2, 1, 1, 1) {
				case 1:
					if len(s.plans) < 10 {
						s.compile(t, k)
					}
					continue
				case 2:
					if len(sites) < 3 {
						k = len(sites)
						if t.Chance(1, 3) {
							t.Note("planner %d is planner 0's New()", k)
							sites = append(sites, sites[0].child())
							t.Class("planner of a planner")
						} else {
							sites = append(sites, newSite(t, k))
						}
						sites[k].compile(t, k)
					}
					continue
				case 3:
					bad := engine.Pick(t, invalidTemplates...)
					if compileAny(t, s.p, bad).err != "" {
						t.Note("planner %d rejected %q", k, bad)
						t.Class("invalid template")
					}
					continue
				case 4:
					for _, v := range s.g.w.vars {
						if v.name != "ix" && v.name != "whom" && v.rType != tString && t.Bool() {
							v.value = genValue(t, v.rType, 4)
						}
					}
					t.Note("values of planner %d:\n%s", k, show(s.g.w))
					continue
				}
				if len(s.plans) == 0 {
					s.compile(t, k)
				}
				i := t.Int(0, len(s.plans)-1)
				p := s.plans[i]
				var hs *heldState
				again := false
				if len(p.states) > 0 && t.Chance(2, 3) {
					hs = p.states[t.Uint(uint64(len(p.states)))]
					again = true
					hs.later(t)
					hs.st.Reset()
					hs.last = nil
					if hs.st.Buffer.String() != "" || !hs.st.IsValid() {
						t.Fail("a reset state holds output or errors")
					}
					t.Class("state reset")
				} else {
					hs = &heldState{st: p.newState(), id: ids}
					ids++
					p.states = append(p.states, hs)
				}
				t.Note("execute plan %d of planner %d on state %d", i, k, hs.id)
				p.run(t, hs, again)
				runs++
				done[p]++
				if done[p] > 1 {
					repeated++
				}
			}
			for _, s := range sites {
				s.g.classes()
				for _, p := range s.plans {
					for _, hs := range p.states {
						hs.later(t)
					}
				}
			}
			t.Class(fmt.Sprintf("%d planners", len(sites)))
			if runs >= 3 && repeated > 0 {
				key := ""
				for _, s := range sites {
					key += show(s.g.w)
					for _, p := range s.plans {
						key += p.tmpl
					}
				}
				t.NonTrivial(key)
			}
		},
	})
}
