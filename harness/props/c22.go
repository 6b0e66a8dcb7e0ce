package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"velty.verif/harness/engine"
)

func parameter(ft reflect.Type, i int) reflect.Type {
	if last := ft.NumIn() - 1; ft.IsVariadic() && i >= last {
		return ft.In(last).Elem()
	}
	return ft.In(i)
}

// fits tells if a value of the type can be passed for the parameter.
func fits(value, param reflect.Type) bool {
	if value.AssignableTo(param) {
		return true
	}
	return (value.Kind() == param.Kind() || number(value) && number(param)) && value.ConvertibleTo(param)
}

// misfitting picks a type that can't be passed for the parameter, or nil.
func (c *caller) misfitting(param reflect.Type) reflect.Type {
	var all []reflect.Type
	for _, rt := range append(paramTypes, reflect.TypeOf(Flag(true)), tAcc, reflect.TypeOf(&[]int{}), reflect.TypeOf(map[string]interface{}{})) {
		if rt.Kind() != reflect.Interface && !fits(rt, param) {
			all = append(all, rt)
		}
	}
	if len(all) == 0 {
		return nil
	}
	return all[c.t.Uint(uint64(len(all)))]
}

func refuse(rt reflect.Type) func([]reflect.Value) (reflect.Value, error) {
	return func([]reflect.Value) (reflect.Value, error) { return reflect.Zero(rt), errors.New(anyMessage) }
}

// misfit changes the arguments of a call so that they don't fit the function.
func (c *caller) misfit(x *Call, ft reflect.Type, skip int) {
	t := c.t
	required := ft.NumIn() - skip
	if ft.IsVariadic() {
		required--
	}
	spoiled := func(what string) {
		c.feature("misfit: " + what)
		x.fn, x.refused = refuse(x.rType), true
	}
	switch t.Weighted(2, 2, 5) {
	case 0:
		if required > 0 {
			n := t.Int(0, required-1)
			x.args, x.param = x.args[:n], x.param[:n]
			spoiled("too few arguments")
			return
		}
	case 1:
		if !ft.IsVariadic() {
			for n := t.Int(1, 3); n > 0; n-- {
				p := paramTypes[t.Uint(uint64(len(paramTypes)))]
				if len(x.param) > 0 && t.Bool() {
					p = x.param[len(x.param)-1]
				}
				x.args = append(x.args, c.arg(p, 0))
				x.param = append(x.param, p)
			}
			spoiled("too many arguments")
			return
		}
	}
	if len(x.args) == 0 {
		return
	}
	i := t.Int(0, len(x.args)-1)
	if rt := c.misfitting(x.param[i]); rt != nil {
		x.args[i], x.param[i] = c.arg(rt, 0), rt
		spoiled("argument type")
	}
}

// spoilReceiver calls a function with a receiver of another type than its first parameter.
func (c *caller) spoilReceiver(x *Call, first, ft reflect.Type) bool {
	rt := c.misfitting(first)
	if rt == nil {
		return false
	}
	x.recv = c.newVar(c.value(rt))
	x.args, x.param = c.args(ft, 1, 0)
	x.fn, x.refused = refuse(x.rType), true
	c.feature("misfit: receiver type")
	return true
}

// misused are the builtin functions that refuse some values of interface parameters.
var misused = []struct {
	ns, name string
	rType    reflect.Type
	accepts  reflect.Type // or a map if nil
	param    reflect.Type // the second one
}{
	{"slices", "StringAt", tString, reflect.TypeOf([]string{}), tInt},
	{"slices", "IntAt", tInt, reflect.TypeOf([]int{}), tInt},
	{"slices", "BoolAt", tBool, reflect.TypeOf([]bool{}), tInt},
	{"slices", "FloatAt", tFloat, reflect.TypeOf([]float64{}), tInt},
	{"slices", "ReverseStrings", reflect.TypeOf([]string{}), reflect.TypeOf([]string{}), nil},
	{"slices", "ReverseInts", reflect.TypeOf([]int{}), reflect.TypeOf([]int{}), nil},
	{"slices", "ReverseFloats", reflect.TypeOf([]float64{}), reflect.TypeOf([]float64{}), nil},
	{"maps", "Has", tBool, nil, tString},
	{"maps", "GetInt", tInt, nil, tString},
	{"maps", "GetString", tString, nil, tString},
	{"maps", "GetFloat", tFloat, nil, tString},
	{"maps", "GetBool", tBool, nil, tString},
	{"errors", "AssertInt", tBool, tInt, nil},
	{"errors", "AssertString", tBool, tString, nil},
	{"errors", "AssertFloat", tBool, tFloat, nil},
	{"errors", "AssertBool", tBool, tBool, nil},
}

// misuse calls a builtin function with a value it refuses.
func (c *caller) misuse(fits func(rt reflect.Type) bool) *Call {
	t := c.t
	f := misused[t.Uint(uint64(len(misused)))]
	if !fits(f.rType) {
		return nil
	}
	var rt reflect.Type
	for i := 0; rt == nil && i < 5; i++ {
		rt = paramTypes[t.Uint(uint64(len(paramTypes)))]
		if rt == f.accepts || f.accepts == nil && rt.Kind() == reflect.Map || rt.Kind() == reflect.Interface {
			rt = nil
		}
	}
	if rt == nil {
		return nil
	}
	x := &Call{ns: f.ns, name: f.name, rType: f.rType, args: []Expr{c.newVar(c.value(rt))}, param: []reflect.Type{rt}, fn: refuse(f.rType), refused: true}
	if f.rType.Kind() == reflect.Slice {
		x.fn = func([]reflect.Value) (reflect.Value, error) {
			return reflect.MakeSlice(f.rType, 0, 0), errors.New(anyMessage)
		}
	}
	if f.param != nil {
		x.args, x.param = append(x.args, c.arg(f.param, 0)), append(x.param, f.param)
	}
	c.feature("misuse: " + f.ns)
	return x
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C22",
		Rule: "the generated functions, methods, namespaces and programs of C11, with calls of too few or too many arguments, or with an argument or receiver of a type that can't be converted to the one of the parameter, rendered, assigned, as operands, conditions, arguments and receivers of other calls and in loops, with and without PanicOnError; " +
			"the calls that happened with all arguments, the number of errors on the state, the returned error, the output and all variables are compared with a model; non-trivial: an ill-fitting call was reached",
		Quick: 80000, Thorough: 4000000,
		Run: func(t *engine.T) {
			c := newCaller(t)
			c.spoil = true
			c.w.stop = t.Chance(1, 4)
			body := c.program()
			tmpl := printBody(&style{t}, body)
			noteWorld(t, c.w, tmpl)
			t.Note("PanicOnError=%v", c.w.stop)
			e := modelEnv(c.w, body)
			calls = nil
			want := runModel(e, body)
			wantCalls := calls
			if want.discarded != "" || want.panicked {
				t.Class("discarded: " + want.discarded + want.panicWhy)
				return
			}
			calls = nil
			exec, newState := compileOK(t, c.w.planner(t), tmpl)
			st := newState()
			setVars(t, st, c.w.vars, newCloner())
			var err error
			r, stack := engine.Protect(func() { err = exec.Exec(st) })
			if r != nil {
				t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
			}
			if got, want := strings.Join(calls, "\n"), strings.Join(wantCalls, "\n"); got != want {
				t.Fail("calls:\n%s\nwant:\n%s", got, want)
			}
			if len(st.Errors) != len(e.errs) {
				t.Fail("%d errors on the state, want %d: %q", len(st.Errors), len(e.errs), st.Errors)
			}
			if (err != nil) != (len(e.errs) > 0) {
				t.Fail("Exec returned %v, with %d ill-fitting calls", err, len(e.errs))
			}
			if err != nil && !errors.Is(err, st.Errors[0]) {
				t.Fail("Exec returned %q, the first error is %q", err, st.Errors[0])
			}
			if got := st.Buffer.String(); got != want.out {
				t.Fail("rendered %q\n    want %q", got, want.out)
			}
			compareState(t, e, st)
			c.classes()
			if want.stopped {
				t.Class("stopped")
			}
			if len(e.errs) > 0 {
				t.Class(fmt.Sprintf("%d errors", min(len(e.errs), 5)))
				t.NonTrivial(tmpl + show(c.w))
			}
		},
	})
}
