package props

import (
	"reflect"
	"runtime"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// collector collects garbage at some of the calls of functions; what it frees is overwritten (GODEBUG=clobberfree).
var collector gcClock

type gcClock struct {
	every int // 0: never
	n     int
}

func (c *gcClock) tick() {
	if c.every == 0 {
		return
	}
	if c.n++; c.n%c.every == 0 && c.n <= 12*c.every {
		runtime.GC()
	}
}

// collecting wraps a function: garbage is collected before it and after it, its results are new.
func collecting(fn interface{}) interface{} {
	v := reflect.ValueOf(fn)
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		collector.tick()
		out := v.Call(args)
		if out[0].Kind() == reflect.String {
			out[0] = reflect.ValueOf(strings.Clone(out[0].String())).Convert(out[0].Type())
		}
		collector.tick()
		return out
	}).Interface()
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C24",
		Rule: "the programs of C04 and C11 and evaluated templates, with garbage collected before and after compiling, after creating the state, after setting the variables, in the called functions at a generated rate, and after the execution, when only the plan and the state are kept; freed memory is overwritten (GODEBUG=clobberfree=1); " +
			"outputs, calls with their arguments and variables are compared with a model, after the plan was executed on one or several states; non-trivial: garbage was collected during an execution",
		Quick: 5000, Thorough: 400000, Chunk: 200, Env: []string{"GODEBUG=clobberfree=1", "GOMAXPROCS=2"},
		Run: func(t *engine.T) {
			c := newCaller(t)
			c.calls, c.evalW = true, t.Int(0, 2)
			setup := c.w.setup
			c.w.setup = func(p *velty.Planner) {
				setup(p)
				for _, f := range pureFuncs {
					if err := p.RegisterFunction(f.name, collecting(f.fn)); err != nil {
						panic(err)
					}
				}
			}
			if t.Chance(1, 4) {
				c.w.cache = t.Int(1, 3)
			}
			body := c.program()
			c.budget = 8
			body = append(body, c.stmts(3)...)
			if t.Chance(1, 3) {
				body = append(body, c.program()...)
			}
			tmpl := printBody(&style{t}, body)
			noteWorld(t, c.w, tmpl)
			every := engine.Pick(t, 1, 1, 2, 3, 7)
			t.Note("garbage collected at every %d. call", every)
			gc := func() {
				if t.Chance(1, 3) {
					runtime.GC()
				}
			}
			collector = gcClock{}
			calls = nil
			e := modelEnv(c.w, body)
			want := runModel(e, body)
			wantCalls := calls
			if strings.Contains(want.out, "0xc0") {
				want.discarded = "the address of an interface's pointer"
			}
			if want.discarded != "" || want.panicked {
				t.Class("discarded: " + want.discarded + want.panicWhy)
				return
			}
			exec, newState := func() (*est.Execution, func() *est.State) {
				p := c.w.planner(t)
				gc()
				return compileOK(t, p, string(append([]byte{}, tmpl...)))
			}()
			gc()
			for n := t.Weighted(3, 1, 1) + 1; n > 0; n-- {
				st := newState()
				gc()
				setVars(t, st, c.w.vars, newCloner())
				gc()
				calls = nil
				collector = gcClock{every: every}
				r, stack := engine.Protect(func() { _ = exec.Exec(st) })
				during := collector.n / every
				collector = gcClock{}
				gc()
				if r != nil {
					t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
				}
				if got, want := strings.Join(calls, "\n"), strings.Join(wantCalls, "\n"); got != want {
					t.Fail("calls:\n%s\nwant:\n%s", got, want)
				}
				if got := st.Buffer.String(); got != want.out {
					t.Fail("rendered %q\n    want %q", got, want.out)
				}
				compareState(t, e, st)
				if during > 0 {
					t.NonTrivial(tmpl + show(c.w))
				}
			}
			c.classes()
		},
	})
}
