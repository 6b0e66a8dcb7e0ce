package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est/op"
	"velty.verif/harness/engine"
)

// faults decides which calls fail; cases run one after another.
var faults struct {
	plan     []bool
	messages []string
	next     int
	produced []error
}

type failure struct{ msg string }

func (f *failure) Error() string { return f.msg }

func fault(call string) error {
	calls = append(calls, call)
	i := faults.next
	faults.next++
	if len(faults.plan) == 0 || !faults.plan[i%len(faults.plan)] {
		return nil
	}
	msg := faults.messages[i%len(faults.messages)]
	var err error = &failure{msg}
	switch i % 3 {
	case 1:
		err = errors.New(msg)
	case 2:
		err = fmt.Errorf("%v: %w", msg, errors.New("cause"))
	}
	faults.produced = append(faults.produced, err)
	return err
}

// Faulty has methods that fail.
type Faulty struct{ N int }

func (f *Faulty) Try(n int) (int, error)        { return n + f.N, fault(fmt.Sprint("Try", n)) }
func (f *Faulty) Word(s string) (string, error) { return "w" + s, fault("Word" + s) }
func (f Faulty) Ok(b bool) (bool, error)        { return b, fault(fmt.Sprint("Ok", b)) }
func (f Faulty) Concrete(s string) (string, *failure) {
	if err := fault("Concrete" + s); err != nil {
		failed := &failure{err.Error()}
		faults.produced[len(faults.produced)-1] = failed
		return s, failed
	}
	return s, nil
}

// FaultyLib is a namespace, some of whose functions are called without reflection.
type FaultyLib struct{}

func (FaultyLib) Num(f float64) (float64, error) { return f, fault(fmt.Sprint("Num", f)) }
func (FaultyLib) Sum(xs ...int) (int, error)     { return len(xs), fault(fmt.Sprint("Sum", xs)) }
func (FaultyLib) Fast(s string) (string, error)  { return s + "!", fault("Fast" + s) }
func (FaultyLib) List(n int) ([]int, error)      { return []int{n, 2}, fault(fmt.Sprint("List", n)) }
func (FaultyLib) Words(s string) ([]string, error) {
	return []string{"p", s}, fault("Words" + s)
}

func (FaultyLib) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{}) (interface{}, error), reflect.Type, bool) {
	if actual, ok := aFunc.(func(FaultyLib, string) (string, error)); ok {
		return func(args ...interface{}) (interface{}, error) { return actual(FaultyLib{}, args[0].(string)) }, tString, true
	}
	if actual, ok := aFunc.(func(string) (string, error)); ok {
		return func(args ...interface{}) (interface{}, error) { return actual(args[0].(string)) }, tString, true
	}
	return nil, nil, false
}

func raise(message string) (string, error) { return "", produced(errors.New(message)) }

func produced(err error) error {
	faults.produced = append(faults.produced, nil) // some error with the message
	return err
}

func assertType(want reflect.Type) func(i interface{}) (bool, error) {
	return func(i interface{}) (bool, error) {
		if reflect.TypeOf(i) != want {
			return false, produced(errors.New(anyMessage))
		}
		return true, nil
	}
}

const anyMessage = "\x00any message"

var faultyFuncs = func() []*pureFunc {
	list := []*pureFunc{
		{name: "ei", fn: func(n int) (int, error) { return n, fault(fmt.Sprint("ei", n)) }},
		{name: "es", fn: func(s string) (string, error) { return s, fault("es" + s) }},
		{name: "ef", fn: func(f float64) (float64, error) { return f, fault(fmt.Sprint("ef", f)) }},
		{name: "eb", fn: func(b bool) (bool, error) { return !b, fault(fmt.Sprint("eb", b)) }},
		{name: "el", fn: func(n int) ([]int, error) { return []int{n, 1}, fault(fmt.Sprint("el", n)) }},
		{name: "ejoin", fn: func(a, b string) (string, error) { return a + "," + b, fault("ejoin" + a + b) }},
		{name: "emany", fn: func(i int, f float64, s ...string) (string, error) {
			return fmt.Sprint(i, f, s), fault(fmt.Sprint("emany", i, f, s))
		}, params: []reflect.Type{tInt, tFloat, tString, tString}},
		{name: "ealone", fn: func(i int, b bool) (int, error) { return i, fault(fmt.Sprint("ealone", i, b)) }},
		{name: "etyped", recv: "tf", self: true, fn: func(s Small, n int) (string, error) {
			return fmt.Sprint(s.I, n), fault(fmt.Sprint("etyped", s, n))
		}},
		{name: "ekind", recv: "kf", self: true, fn: func(x interface{}, n int) (int, error) { return n, fault(fmt.Sprint("ekind", x, n)) }},
		{name: "Try", recv: "faulty", self: true, fn: (*Faulty).Try},
		{name: "Word", recv: "faulty", self: true, fn: (*Faulty).Word},
		{name: "Ok", recv: "faultyv", self: true, fn: Faulty.Ok},
		{name: "Concrete", recv: "faultyv", self: true, fn: func(f Faulty, s string) (string, error) {
			if r, err := f.Concrete(s); err != nil {
				return r, err
			}
			return s, nil
		}},
		{ns: "fail", name: "Num", fn: FaultyLib{}.Num},
		{ns: "fail", name: "Sum", fn: FaultyLib{}.Sum, params: []reflect.Type{tInt, tInt}},
		{ns: "fail", name: "Fast", fn: FaultyLib{}.Fast},
		{ns: "fail", name: "List", fn: FaultyLib{}.List},
		{ns: "fail", name: "Words", fn: FaultyLib{}.Words},
		{ns: "errors", name: "Raise", fn: raise},
		{ns: "errors", name: "RegisterError", fn: raise},
		{ns: "errors", name: "AssertFloat", fn: assertType(tFloat)},
		{ns: "errors", name: "AssertInt", fn: assertType(tInt)},
		{ns: "errors", name: "AssertString", fn: assertType(tString)},
		{ns: "errors", name: "AssertBool", fn: assertType(tBool)},
		{ns: "errors", name: "AssertWithMessage", fn: func(ok bool, msg string) (bool, error) {
			if !ok {
				return false, produced(errors.New(msg))
			}
			return true, nil
		}},
	}
	for _, f := range list {
		ft := reflect.TypeOf(f.fn)
		f.rType = ft.Out(0)
		if f.params == nil {
			for i := 0; i < ft.NumIn(); i++ {
				if i > 0 || !f.self {
					f.params = append(f.params, ft.In(i))
				}
			}
		}
	}
	return append(list, pureFuncs...)
}()

func registerFaulty(p *velty.Planner) {
	registerPure(p)
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	for _, f := range faultyFuncs {
		switch {
		case f.name == "etyped":
			must(p.RegisterTypeFunc(tSmall, &op.TypeFunc{Name: f.name, Handler: f.fn, ResultType: f.rType}))
		case f.name == "ekind":
			must(p.RegisterFunctionKind(f.name, &kindFunction{reflect.Slice, f.fn}))
		case f.name == "ealone":
			fn := &op.Function{Handler: f.fn, ResultTyper: func(*expr.Call) (reflect.Type, error) { return tInt, nil }}
			must(p.RegisterStandaloneFunction(f.name, fn))
		case f.name == "ejoin":
			must(p.RegisterStandaloneFunction(f.name, &op.Function{Handler: f.fn}))
		case strings.HasPrefix(f.name, "e") && f.ns == "":
			must(p.RegisterFunction(f.name, f.fn))
		}
	}
	must(p.RegisterFuncNs("fail", FaultyLib{}))
}

// anyValued lists the functions with an interface parameter.
func (g *gen) failing() Stmt {
	t := g.t
	rt := engine.Pick(t, tInt, tString, tFloat, tBool, tString, tBool)
	c, ok := g.call(rt, 3).(*Call)
	if !ok {
		return nil
	}
	switch t.Weighted(3, 2, 2, 1, 1) {
	case 0:
		return &Render{c}
	case 1:
		v := &genVar{name: g.freshName(), rType: rt}
		g.vars = append(g.vars, v)
		return &Set{&Ref{root: v.name, rType: rt}, c}
	case 2:
		if rt == tBool {
			return &If{branches: []Branch{{c, g.stmts(1)}}, hasElse: true, els: g.stmts(1)}
		}
	case 3:
		n := t.Int(0, 3)
		if t.Chance(1, 30) {
			n = size(t, 3, 8)
			g.w.fuel += n
			g.feature("many errors")
		}
		return &Foreach{item: g.freshName(), a: 0, b: n, body: []Stmt{&Render{c}}}
	case 4:
		if g.evalW > 0 {
			body := []Stmt{&Render{c}, g.textStmt()}
			return &Evaluate{g.textVar(printBody(&style{t}, body)), body}
		}
	}
	return &Render{c}
}

func errorMessage(t *engine.T) string {
	switch t.Uint(4) {
	case 0:
		return engine.Pick(t, "", "%", "100%", "%d %s %v", "%!", "a\nb", "é%w", "\"quoted\"", "<b>&", "error", "%%", "nil")
	}
	return genString(t)
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C12",
		Rule: "random programs calling functions that fail according to a generated fault plan with generated messages (plain, standalone, type, kind, method, namespace, concretely typed errors, variadic, and the errors namespace) in text, conditions, assignments, loop headers and sources, indexes, arguments of other calls and evaluated templates, with and without PanicOnError; " +
			"the errors on the state (identity, order and message), its validity, the returned error, the trace of calls, the output and the variables are compared with a model; non-trivial: an error occurred",
		Quick: 100000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.funcs, g.calls, g.noIndex = faultyFuncs, true, t.Chance(1, 2)
			g.world(4)
			g.w.stop = t.Chance(1, 3)
			g.w.setup = registerFaulty
			g.w.vars = append(g.w.vars,
				&Var{name: "faulty", rType: reflect.TypeOf(&Faulty{}), value: reflect.ValueOf(&Faulty{t.Int(0, 3)})},
				&Var{name: "faultyv", rType: reflect.TypeOf(Faulty{}), value: reflect.ValueOf(Faulty{})},
				&Var{name: "tf", rType: tSmall, value: reflect.ValueOf(Small{I: 3})},
				&Var{name: "kf", rType: reflect.TypeOf([]string{}), value: reflect.ValueOf([]string{"k"})})
			g.evalW = t.Int(0, 2)
			if t.Bool() {
				g.w.cache = t.Int(1, 3)
			}
			faults.plan, faults.messages = nil, nil
			kind := t.Weighted(1, 3, 2, 1) // none, some, one, all
			for n := 0; n == 0 || t.More(n, 30, 8); n++ {
				faults.plan = append(faults.plan, kind == 1 && t.Chance(1, 3) || kind == 3)
			}
			if kind == 2 {
				faults.plan = append(faults.plan, make([]bool, 1000)...)
				faults.plan[t.Int(0, 6)] = true
			}
			for n := 0; n == 0 || t.More(n, 5, 2); n++ {
				faults.messages = append(faults.messages, errorMessage(t))
			}
			var body []Stmt
			for n := 0; n == 0 || t.More(n, 5, 2); n++ {
				g.budget = 5
				if s := g.failing(); s != nil {
					body = append(body, s)
				}
				body = append(body, g.stmts(3)...)
			}
			tmpl := printBody(&style{t}, body)
			noteWorld(t, g.w, tmpl)
			t.Note("PanicOnError=%v, messages %q", g.w.stop, faults.messages)
			run := func() { calls, faults.next, faults.produced = nil, 0, nil }
			run()
			e := modelEnv(g.w, body)
			want := runModel(e, body)
			wantCalls := calls
			if want.discarded != "" || want.panicked {
				t.Class("discarded: " + want.discarded + want.panicWhy)
				return
			}
			stop := g.w.stop
			if t.Chance(1, 4) { // it is set on the state and the execution
				g.w.stop = !stop
				t.Note("PanicOnError is set on the state and the execution")
			}
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			st := newState()
			if st.PanicOnError != g.w.stop {
				t.Fail("PanicOnError of the state is %v", st.PanicOnError)
			}
			st.PanicOnError = stop
			exec.PanicOnError = exec.PanicOnError || stop // recovers what the state raises
			setVars(t, st, g.w.vars, newCloner())
			run()
			if !st.IsValid() {
				t.Fail("a new state isn't valid")
			}
			var err error
			r, stack := engine.Protect(func() { err = exec.Exec(st) })
			if r != nil {
				t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
			}
			if got, want := strings.Join(calls, "\n"), strings.Join(wantCalls, "\n"); got != want {
				t.Fail("calls:\n%s\nwant:\n%s", got, want)
			}
			if len(st.Errors) != len(e.errs) {
				t.Fail("errors on the state: %q\nwant: %q", st.Errors, e.errs)
			}
			k := 0
			for i, got := range st.Errors {
				if e.errs[i] != anyMessage && got.Error() != e.errs[i] {
					t.Fail("error %d is %q, want %q", i, got, e.errs[i])
				}
				for _, p := range faults.produced {
					if p == got {
						k++
						break
					}
				}
			}
			own := 0
			for _, p := range faults.produced {
				if p != nil {
					own++
				}
			}
			if k != own {
				t.Fail("the state holds %d of %d error values the functions returned: %q", k, own, st.Errors)
			}
			if st.IsValid() != (len(e.errs) == 0) {
				t.Fail("IsValid() is %v with errors %q", st.IsValid(), e.errs)
			}
			switch {
			case len(e.errs) == 0:
				if err != nil {
					t.Fail("Exec returned %v though no function failed", err)
				}
			case err == nil:
				t.Fail("Exec returned no error, functions failed with %q", e.errs)
			case !errors.Is(err, st.Errors[0]):
				t.Fail("Exec returned %q, the first error is %q", err, e.errs[0])
			}
			if stop && len(e.errs) > 0 && e.errs[0] != anyMessage && err.Error() != e.errs[0] {
				t.Fail("Exec returned %q, the error is %q", err, e.errs[0])
			}
			if got := st.Buffer.String(); got != want.out {
				t.Fail("rendered %q\n    want %q", got, want.out)
			}
			compareState(t, e, st)
			st.Reset()
			if !st.IsValid() {
				t.Fail("the state isn't valid after Reset")
			}
			g.classes()
			if want.stopped {
				t.Class("stopped")
			}
			if len(e.errs) > 0 {
				t.Class(fmt.Sprintf("%d errors", min(len(e.errs), 5)))
				t.NonTrivial(tmpl + show(g.w) + fmt.Sprint(e.errs))
			}
		},
	})
}
