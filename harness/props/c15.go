package props

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// job is what one goroutine does: executions of a plan with values it set on a state.
type job struct {
	plan    int
	turns   []*turn
	compile func() (*est.Execution, func() *est.State) // a plan of its own
}

type turn struct {
	vars []*Var
	out  string
	env  *env
	from int // which way the state is got
}

// steadyFuncs are functions usable by many goroutines.
var steadyFuncs = func() []*pureFunc {
	words := reflect.TypeOf([]string{})
	return append([]*pureFunc{
		{ns: "strings", name: "ToUpper", fn: strings.ToUpper, params: []reflect.Type{tString}, rType: tString},
		{ns: "strings", name: "HasPrefix", fn: strings.HasPrefix, params: []reflect.Type{tString, tString}, rType: tBool},
		{ns: "strings", name: "Fields", fn: strings.Fields, params: []reflect.Type{tString}, rType: words},
		{ns: "slices", name: "ReverseStrings", fn: func(s []string) []string { return reverse(s) }, params: []reflect.Type{words}, rType: words},
		{ns: "errors", name: "AssertWithMessage", fn: func(ok bool, msg string) (bool, error) {
			if !ok {
				return false, &failure{msg}
			}
			return true, nil
		}, params: []reflect.Type{tBool, tString}, rType: tBool},
		{name: "ws", fn: func(s string) []string { return []string{s, "."} }, params: []reflect.Type{tString}, rType: words},
		{name: "many", fn: func(xs ...int) int { return len(xs) }, params: []reflect.Type{tInt, tInt}, rType: tInt},
		{recv: "who", name: "Hello", fn: person.Hello, params: []reflect.Type{tString}, rType: tString},
		{recv: "whom", name: "Age", fn: (*person).Age, params: []reflect.Type{tInt}, rType: tInt},
	}, pureFuncs...)
}()

type person struct{ Name string }

func (p person) Hello(s string) string { return p.Name + s }
func (p *person) Age(n int) int        { return len(p.Name) + n }

func registerSteady(p *velty.Planner) {
	registerIdentities(p)
	if err := p.RegisterFunction("ws", func(s string) []string { return []string{s, "."} }); err != nil {
		panic(err)
	}
	if err := p.RegisterFunction("many", func(xs ...int) int { return len(xs) }); err != nil {
		panic(err)
	}
}

func (w *World) withPersons() {
	w.vars = append(w.vars, &Var{name: "who", rType: reflect.TypeOf(person{}), value: reflect.ValueOf(person{"p"})},
		&Var{name: "whom", rType: reflect.TypeOf(&person{}), value: reflect.ValueOf(&person{"qq"})})
}

// perform runs in a goroutine of its own; nothing of the engine may be used here.
func (j *job) perform(exec *est.Execution, newState func() *est.State, pool *velty.Pool) (problem string) {
	defer func() {
		if r := recover(); r != nil {
			problem = fmt.Sprintf("panic: %v\n%s", r, clipStack(string(debug.Stack())))
		}
	}()
	if j.compile != nil {
		exec, newState = j.compile()
	}
	var last *est.State
	for n, tn := range j.turns {
		var st *est.State
		switch {
		case tn.from == 1 && last != nil:
			last.Reset()
			st = last
			for name, v := range tn.env.vars { // as on a new state
				if err := st.SetValue(name, reflect.Zero(v.Type()).Interface()); err != nil && !tn.isEmbedded(name) && !tn.env.also[name] {
					return err.Error()
				}
			}
			for _, v := range tn.vars {
				if v.embed {
					if err := st.EmbedValue(reflect.Zero(v.rType).Interface()); err != nil {
						return err.Error()
					}
				}
			}
		case tn.from == 2 && j.compile == nil:
			st = pool.State()
		default:
			st = newState()
		}
		for _, v := range tn.vars {
			var err error
			switch {
			case v.unset:
			case v.embed:
				err = st.EmbedValue(v.value.Interface())
			default:
				err = st.SetValue(v.name, v.value.Interface())
			}
			if err != nil {
				return err.Error()
			}
		}
		err := exec.Exec(st)
		if got := st.Buffer.String(); got != tn.out {
			return fmt.Sprintf("execution %d rendered %q\n want %q", n, got, tn.out)
		}
		if (err != nil) != (len(tn.env.errs) > 0) || len(st.Errors) != len(tn.env.errs) {
			return fmt.Sprintf("execution %d: errors %q (Exec: %v)\n want %q", n, st.Errors, err, tn.env.errs)
		}
		for i, err := range st.Errors {
			if err.Error() != tn.env.errs[i] {
				return fmt.Sprintf("execution %d: errors %q\n want %q", n, st.Errors, tn.env.errs)
			}
		}
		for name, v := range tn.env.vars {
			if tn.env.also[name] {
				continue
			}
			got, ok := stateVar(st, name)
			if !ok {
				return "no variable " + name
			}
			if g, want := dump(got), dump(v); g != want {
				return fmt.Sprintf("execution %d: variable %q holds %s\n want %s", n, name, g, want)
			}
		}
		if tn.from == 2 && j.compile == nil {
			pool.Put(st)
		} else {
			last = st
		}
	}
	return ""
}

func (tn *turn) isEmbedded(name string) bool {
	for _, v := range tn.vars {
		if v.embed && v.name == name {
			return true
		}
	}
	return false
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C15",
		Rule: "generated programs (half of them evaluating templates at run time, with cache sizes 0 to 5; calls of functions, methods and namespaces) compiled once, then executed by 2 to 8 goroutines, each 1 to 4 times with values of its own on states it creates, resets or gets from a shared pool, next to a second plan of the same planner and plans compiled by the goroutines themselves; " +
			"run under the race detector, with each output and the variables compared with what the model renders alone; non-trivial: at least 4 executions of a program with references",
		Quick: 10000, Thorough: 600000, Chunk: 60,
		Run: func(t *engine.T) {
			var progs []*evalProgram
			if t.Bool() {
				prog := newEvalProgram(t)
				if prog == nil {
					return
				}
				progs = append(progs, prog)
			} else {
				g := newGen(t)
				g.calls, g.funcs, g.noIndex = true, steadyFuncs, true
				g.world(5)
				g.w.withPersons()
				for n := t.Int(1, 2); n > 0; n-- {
					k := len(g.vars)
					g.budget = 8
					prog := &evalProgram{g: g, body: g.stmts(3)}
					g.vars = g.vars[:k]
					prog.redraw = func() {
						for _, v := range g.w.vars {
							if v.name != "ix" && t.Bool() {
								v.value = genValue(t, v.rType, 4)
							}
							if v.rType == reflect.TypeOf(&person{}) && v.value.IsNil() {
								v.value = reflect.ValueOf(&person{"r"})
							}
						}
					}
					progs = append(progs, prog)
				}
			}
			g := progs[0].g
			g.w.setup = registerSteady
			tmpls := make([]string, len(progs))
			for i, prog := range progs {
				tmpls[i] = printBody(&style{t}, prog.body)
			}
			noteWorld(t, g.w, strings.Join(tmpls, "\n---\n"))
			p := g.w.planner(t)
			execs := make([]*est.Execution, len(progs))
			news := make([]func() *est.State, len(progs))
			pools := make([]*velty.Pool, len(progs))
			size := t.Int(0, 4)
			for i := range progs {
				execs[i], news[i] = compileOK(t, p, tmpls[i])
			}
			for i := range progs {
				pools[i] = velty.NewPool(size, news[i])
			}
			// what each goroutine does is drawn before
			var jobs []*job
			executions := 0
			for n := 0; n < 2 || t.More(n, 8, 5); n++ {
				j := &job{plan: t.Int(0, len(progs)-1)}
				if t.Chance(1, 6) {
					t.Class("plan of its own")
					t.Note("goroutine %d compiles plan %d itself", n, j.plan)
					tmpl := tmpls[j.plan]
					j.compile = func() (*est.Execution, func() *est.State) { return compileOK(t, g.w.planner(t), tmpl) }
				}
				for k := 0; k == 0 || t.More(k, 4, 1); k++ {
					if n+k > 0 {
						progs[j.plan].redraw()
					}
					e := modelEnv(g.w, progs[j.plan].body)
					want := runModel(e, progs[j.plan].body)
					if want.discarded != "" || want.panicked {
						t.Class("discarded: " + want.discarded + want.panicWhy)
						continue
					}
					tn := &turn{out: want.out, env: e, from: t.Int(0, 2)}
					c := newCloner()
					for _, v := range g.w.vars {
						cv := *v
						cv.value = c.clone(v.value)
						tn.vars = append(tn.vars, &cv)
					}
					j.turns = append(j.turns, tn)
					executions++
					t.Note("goroutine %d executes plan %d (state from %s) with\n%s", n, j.plan, []string{"provider", "its last one", "pool"}[tn.from], show(g.w))
				}
				jobs = append(jobs, j)
			}
			start := make(chan struct{})
			problems := make([]string, len(jobs))
			var wg sync.WaitGroup
			for i, j := range jobs {
				wg.Add(1)
				go func(i int, j *job) {
					defer wg.Done()
					<-start
					problems[i] = j.perform(execs[j.plan], news[j.plan], pools[j.plan])
				}(i, j)
			}
			close(start)
			wg.Wait()
			for i, problem := range problems {
				if problem != "" {
					t.Fail("goroutine %d: %s", i, problem)
				}
			}
			g.classes()
			t.Class(fmt.Sprintf("%d goroutines", len(jobs)))
			if executions >= 4 && len(g.features) > 1 {
				t.NonTrivial(strings.Join(tmpls, "\n") + show(g.w))
			}
		},
	})
}
