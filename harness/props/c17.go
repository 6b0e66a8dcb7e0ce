package props

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// pooled is one pool of the states of a plan.
type pooled struct {
	pool *velty.Pool
	held []*est.State
	made int
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C17",
		Rule: "histories of up to 40 operations on 1 or 2 pools of sizes 0 to 6 over the states of one generated program: take (also more than the size), set some variables, execute, execute again, add errors, write to the output, reset, put back, collect garbage; a third of the cases also lets up to 6 goroutines take, execute and put back at once; " +
			"a state taken must be held by nobody, have no output and no errors and hold what a new state holds, and each execution is compared with a model that knows nothing of the history; non-trivial: at least 3 executions and 2 put back",
		Quick: 20000, Thorough: 2000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls = t.Chance(1, 3)
			g.noIndex = true
			g.evalW = t.Int(0, 1)
			g.world(5)
			g.w.cache = t.Int(0, 2)
			g.budget = 6
			body := g.stmts(3)
			if len(body) == 0 {
				body = append(body, g.render())
			}
			// every variable is shown, so that what is left of a previous holder is seen
			for _, v := range g.vars {
				if t.Chance(1, 3) && !v.embedded && isBasic(v.rType) {
					body = append(body, &Render{&Ref{root: v.name, rType: v.rType}}, &Text{","})
				}
			}
			tmpl := printBody(&style{t}, body)
			noteWorld(t, g.w, tmpl)
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			var pools []*pooled
			for n := 0; n == 0 || t.Chance(1, 5) && n < 2; n++ {
				p := &pooled{}
				var mux sync.Mutex
				size := t.Int(0, 6)
				if t.Chance(1, 40) {
					size = t.Int(0, 300)
				}
				t.Note("pool %d has size %d", n, size)
				p.pool = velty.NewPool(size, func() *est.State {
					mux.Lock()
					defer mux.Unlock()
					p.made++
					return newState()
				})
				pools = append(pools, p)
			}
			// checkTaken says what is wrong with a state somebody just got.
			checkTaken := func(st *est.State) string {
				switch {
				case st == nil:
					return "no state"
				case st.Buffer.String() != "":
					return fmt.Sprintf("the state has the output %q", st.Buffer.String())
				case len(st.Errors) != 0 || !st.IsValid():
					return fmt.Sprintf("the state has errors: %v", st.Errors)
				case st.PanicOnError != g.w.stop:
					return fmt.Sprintf("PanicOnError of the state is %v", st.PanicOnError)
				}
				return ""
			}
			owner := map[*est.State]bool{}
			runs, puts, most := 0, 0, 0
			// draw makes the values for one execution, and says what has to come out.
			draw := func() (*World, *env, outcome) {
				w := *g.w
				w.vars = nil
				for _, v := range g.w.vars {
					c := *v
					if v.name != "ix" && v.rType != tString && t.Chance(1, 2) {
						c.value = genValue(t, v.rType, 3)
					}
					c.unset = v.rType != tString && v.name != "ix" && t.Chance(1, 3)
					w.vars = append(w.vars, &c)
				}
				e := modelEnv(&w, body)
				return &w, e, runModel(e, body)
			}
			envs := map[*est.State]*env{} // what the states hold
			execute := func(st *est.State) {
				w, e, want := draw()
				if want.discarded != "" || want.panicked {
					t.Class("discarded: " + want.discarded + want.panicWhy)
					return
				}
				t.Note("execute with\n%s", show(w))
				setVars(t, st, w.vars, newCloner())
				envs[st] = e
				checkRun(t, w, e, want, st, exec)
				runs++
			}
			// holds tells if the execution with what the state holds already ends soon, and without growing much.
			holds := func(st *est.State, w *World, e *env) bool {
				was := envs[st]
				if was == nil {
					envs[st] = e
					return true
				}
				next := modelEnv(w, nil)
				for _, v := range w.vars {
					if !v.unset {
						was.define(v, next.vars[v.name])
					}
				}
				was.fuel, was.errs, was.calls = next.fuel, nil, nil
				was.out.Reset()
				return runModel(was, body).discarded == ""
			}
			used := map[*est.State]bool{}
			take := func(p *pooled) *est.State {
				st := p.pool.State()
				if why := checkTaken(st); why != "" {
					t.Fail("a state was taken: %s", why)
				}
				if owner[st] {
					t.Fail("the pool handed out a state that is held already")
				}
				owner[st] = true
				if used[st] {
					t.Class("state handed out again")
				}
				used[st] = true
				p.held = append(p.held, st)
				if len(p.held) > most {
					most = len(p.held)
				}
				return st
			}
			put := func(p *pooled, i int) {
				st := p.held[i]
				p.held = append(p.held[:i:i], p.held[i+1:]...)
				delete(owner, st)
				p.pool.Put(st)
				puts++
			}
			fresh := map[*est.State]bool{} // taken and not touched since
			more := 3
			if t.Chance(1, 60) {
				more = size(t, 6, 9)
				t.Class("long history")
			}
			for n := 0; n < more || t.More(n, 40, 14); n++ {
				p := pools[t.Int(0, len(pools)-1)]
				op := t.Weighted(6, 5, 6, 1, 1, 1, 1)
				if len(p.held) == 0 {
					op = 0
				}
				var st *est.State
				i := 0
				if op > 0 {
					i = t.Int(0, len(p.held)-1)
					st = p.held[i]
				}
				switch op {
				case 0:
					t.Note("take a state")
					fresh[take(p)] = true
				case 1:
					if !fresh[st] {
						t.Note("state %d: execute again", i)
						w, e, want := draw()
						if want.discarded == "" && !want.panicked && holds(st, w, e) {
							setVars(t, st, w.vars, newCloner())
							// what it renders now depends on what it holds
							engine.Protect(func() { _ = exec.Exec(st) })
						}
						break
					}
					delete(fresh, st)
					t.Note("state %d: execute", i)
					execute(st)
				case 2:
					t.Note("state %d: put back", i)
					delete(fresh, st)
					put(p, i)
				case 3:
					t.Note("state %d: add an error", i)
					delete(fresh, st)
					engine.Protect(func() { st.AddError(errors.New("of some holder")) }) // panics with PanicOnError
				case 4:
					t.Note("state %d: write to the output", i)
					delete(fresh, st)
					st.Buffer.AppendString(strings.Repeat("leftover", t.Int(1, 40)))
				case 5:
					t.Note("state %d: reset", i)
					delete(fresh, st)
					st.Reset()
				case 6:
					t.Note("collect garbage")
					if t.Chance(1, 4) {
						runtime.GC()
					}
				}
			}
			if t.Chance(1, 3) {
				concurrently(t, g, body, exec, pools[0], checkTaken, draw)
				t.Class("concurrent")
			}
			g.classes()
			t.Class(fmt.Sprintf("%d pools", len(pools)))
			if most > 6 {
				t.Class("many holders")
			}
			if runs >= 2 && puts >= 2 {
				t.NonTrivial(tmpl + strings.Join(t.Notes(), "\n"))
			}
		},
	})
}

// concurrently lets goroutines use the pool at the same time.
func concurrently(t *engine.T, g *gen, body []Stmt, exec *est.Execution, p *pooled, checkTaken func(st *est.State) string, draw func() (*World, *env, outcome)) {
	type work struct {
		w    *World
		e    *env
		want outcome
	}
	var all [][]work
	for n := 0; n < 2 || t.More(n, 6, 3); n++ {
		var mine []work
		for k := 0; k < 2 || t.More(k, 6, 2); k++ {
			w, e, want := draw()
			if want.discarded == "" && !want.panicked {
				c := newCloner()
				for _, v := range w.vars {
					v.value = c.clone(v.value)
				}
				mine = append(mine, work{w, e, want})
			}
		}
		all = append(all, mine)
	}
	var mux sync.Mutex
	owner := map[*est.State]bool{}
	for _, st := range p.held {
		owner[st] = true
	}
	problems := make([]string, len(all))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range all {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					problems[i] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			for _, j := range all[i] {
				st := p.pool.State()
				mux.Lock()
				if owner[st] {
					problems[i] = "the pool handed out a state that is held already"
				}
				owner[st] = true
				mux.Unlock()
				if why := checkTaken(st); why != "" {
					problems[i] = "a state was taken: " + why
				}
				for _, v := range j.w.vars {
					if v.unset {
						continue
					}
					var err error
					if v.embed {
						err = st.EmbedValue(v.value.Interface())
					} else {
						err = st.SetValue(v.name, v.value.Interface())
					}
					if err != nil {
						problems[i] = err.Error()
					}
				}
				if err := exec.Exec(st); err != nil && len(j.e.errs) == 0 {
					problems[i] = "Exec: " + err.Error()
				}
				if got := st.Buffer.String(); got != j.want.out {
					problems[i] = fmt.Sprintf("rendered %q\n    want %q", got, j.want.out)
				}
				mux.Lock()
				delete(owner, st)
				mux.Unlock()
				p.pool.Put(st)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for i, problem := range problems {
		if problem != "" {
			t.Fail("goroutine %d: %s", i, problem)
		}
	}
}
