package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// observed is what one execution of a template shows.
type observed struct {
	out   string
	err   string
	panic bool
	vars  map[string]string
	st    *est.State
}

func (o *observed) String() string {
	var names []string
	for k := range o.vars {
		names = append(names, k)
	}
	sort.Strings(names)
	s := fmt.Sprintf("output %q error %q panic %v", o.out, o.err, o.panic)
	for _, k := range names {
		s += "\n  " + k + " = " + o.vars[k]
	}
	return s
}

func isTransient(name string) bool {
	return strings.HasPrefix(name, "_velty_") || strings.HasPrefix(name, "Velty_")
}

// observe compiles and executes a template.
func observe(t *engine.T, w *World, tmpl string, c *cloner) *observed {
	p := w.planner(t)
	exec, newState := compileOK(t, p, tmpl)
	st := newState()
	setVars(t, st, w.vars, c)
	o := &observed{vars: map[string]string{}, st: st}
	var err error
	r, _ := engine.Protect(func() { err = exec.Exec(st) })
	o.panic = r != nil
	o.out = st.Buffer.String()
	if err != nil {
		o.err = err.Error()
	}
	for _, f := range st.StateType.ValueAccessors() {
		if !isTransient(f.Name) {
			o.vars[f.Name] = dump(reflect.NewAt(f.Type, f.Pointer(st.MemPtr)).Elem())
		}
	}
	return o
}

func closed(body []Stmt) bool {
	switch body[len(body)-1].(type) {
	case *Set, *If, *Foreach, *For, *Raw, *Evaluate:
		return true
	}
	return false
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C18",
		Rule: "random programs over random variables: half of the cases print one syntax tree in the plainest spelling and in up to 4 random spellings (reference forms, #{else} and #{end}, blanks, tabs, line feeds and redundant parentheses) and compare outputs, errors and all variables; " +
			"the others concatenate two templates, and compare with the second one executed with the variables the first one left; non-trivial: the spellings differ, or both templates render something, at least 2 features",
		Quick: 30000, Thorough: 3000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls = t.Bool()
			g.ptrs = t.Chance(1, 4)
			g.evalW = t.Int(0, 1)
			g.world(5)
			g.w.cache = t.Int(0, 1)
			g.noIndex = t.Chance(3, 4)
			body := g.stmts(4)
			if len(body) == 0 {
				body = append(body, g.render())
			}
			if t.Bool() {
				plainest := printBody(nil, body)
				noteWorld(t, g.w, plainest)
				if o := runModel(modelEnv(g.w, body), body); o.discarded != "" { // may go on for ever
					t.Class("discarded: " + o.discarded)
					return
				}
				want := observe(t, g.w, plainest, newCloner())
				differ := false
				for n := 0; n == 0 || t.More(n, 4, 1); n++ {
					other := printBody(&style{t}, body)
					t.Note("other spelling: %q", other)
					differ = differ || other != plainest
					got := observe(t, g.w, other, newCloner())
					if got.String() != want.String() {
						t.Fail("the other spelling gives %s\nthe first %s", got, want)
					}
				}
				g.classes()
				if want.panic {
					t.Class("panic")
				}
				t.Class("spellings")
				if differ && len(g.features) >= 2 {
					t.NonTrivial(plainest + show(g.w))
				}
				return
			}
			first := body
			g.budget = 10
			second := g.stmts(4)
			if len(second) == 0 {
				second = append(second, g.render())
			}
			if !closed(first) || t.Chance(1, 3) {
				first = append(first, &Text{engine.Pick(t, "|", "\n", " ", "; ")})
			}
			a, b := printBody(&style{t}, first), printBody(&style{t}, second)
			if b != "" && strings.ContainsRune("{([.", rune(b[0])) || strings.HasSuffix(a, "#else") || strings.HasSuffix(a, "#end") && b != "" && isIdentByte(b[0]) {
				t.Class("discarded: joined text means something else")
				return
			}
			noteWorld(t, g.w, a+b)
			t.Note("first: %q", a)
			t.Note("second: %q", b)
			all := append(append([]Stmt{}, first...), second...)
			if o := runModel(modelEnv(g.w, all), all); o.discarded != "" || o.panicked {
				t.Class("discarded: " + o.discarded + o.panicWhy)
				return
			}
			whole := observe(t, g.w, a+b, newCloner())
			if whole.panic {
				t.Fail("the execution panics")
			}
			one := observe(t, g.w, a, newCloner())
			if one.panic {
				t.Fail("the first template alone panics, the concatenation doesn't")
			}
			// the second one starts with the variables the first one left
			w := *g.w
			w.vars = nil
			have := map[string]bool{}
			for _, v := range g.w.vars {
				c := *v
				c.unset = false
				c.value, _ = stateVar(one.st, v.name)
				w.vars = append(w.vars, &c)
				have[v.name] = true
			}
			for _, f := range one.st.StateType.ValueAccessors() {
				if isTransient(f.Name) || have[f.Name] {
					continue
				}
				w.vars = append(w.vars, &Var{name: f.Name, rType: f.Type, value: reflect.NewAt(f.Type, f.Pointer(one.st.MemPtr)).Elem()})
			}
			two := observe(t, &w, b, newCloner())
			if two.panic {
				t.Fail("the second template alone panics, the concatenation doesn't")
			}
			if whole.out != one.out+two.out {
				t.Fail("the concatenation renders %q\nthe templates render %q\n               and %q", whole.out, one.out, two.out)
			}
			for name, v := range whole.vars {
				if two.vars[name] != v {
					t.Fail("variable %s is %s after the concatenation\n%s after the second template", name, v, two.vars[name])
				}
			}
			t.Class("concatenation")
			g.classes()
			if one.out != "" && two.out != "" && len(g.features) >= 2 {
				t.NonTrivial(a + b + show(g.w))
			}
		},
	})
}
