package props

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est"
	"github.com/viant/velty/est/op"
	"velty.verif/harness/engine"
)

// Meth has methods, whose names functions also have.
type Meth struct{ S string }

func (m Meth) Ma(s string) string  { return "<Meth.Ma " + m.S + " " + s + ">" }
func (m *Meth) Mb(s string) string { return "<Meth.Mb " + m.S + " " + s + ">" }

// NsA and NsB are namespaces.
type NsA struct{ Tag string }

func (n NsA) Ma(s string) string { return "<NsA.Ma " + n.Tag + " " + s + ">" }
func (n NsA) Mc(i int) int       { return i*10 + len(n.Tag) }

type NsB struct{ Tag string }

func (n *NsB) Mb(s string) Meth     { return Meth{n.Tag + s} }
func (n NsB) Md(a, b string) string { return "<NsB.Md " + n.Tag + " " + a + " " + b + ">" }

// twins returns values of two types which print alike.
func twins() [2]interface{} {
	type Twin struct{ TwinA }
	first := Twin{TwinA{"one"}}
	return [2]interface{}{first, func() interface{} {
		type Twin struct{ TwinB }
		return Twin{TwinB{1, 2}}
	}()}
}

// TwinA and TwinB have the methods of the twins.
type TwinA struct{ S string }

func (a TwinA) Ma(s string) string { return "<TwinA.Ma " + a.S + " " + s + ">" }
func (a TwinA) Mc(i int) int       { return i*100 + len(a.S) }

type TwinB struct{ X, Y int }

func (b TwinB) Ma(s string) string { return fmt.Sprintf("<TwinB.Ma %d %d %s>", b.X, b.Y, s) }
func (b TwinB) Mb(s string) Meth   { return Meth{fmt.Sprint(b.X, b.Y, s)} }

// rfunc is a registered function, or a method.
type rfunc struct {
	what string
	ft   reflect.Type
	fn   reflect.Value
}

// catalog models what is registered.
type catalog struct {
	fns        *op.Functions
	plain      map[string]*rfunc
	standalone map[string]*rfunc
	types      map[reflect.Type]map[string]*rfunc
	kinds      map[reflect.Kind]map[string]*rfunc
	ns         map[string]interface{}
}

func newCatalog(builtin bool) *catalog {
	c := &catalog{plain: map[string]*rfunc{}, standalone: map[string]*rfunc{}, types: map[reflect.Type]map[string]*rfunc{}, kinds: map[reflect.Kind]map[string]*rfunc{}, ns: map[string]interface{}{}}
	if builtin {
		for _, ns := range []string{"strings", "math", "strconv", "slices", "types", "errors", "time", "maps", "json"} {
			c.ns[ns] = nil
		}
		c.kinds[reflect.Map] = map[string]*rfunc{"HasKey": builtinFunc("HasKey", func(m interface{}, key interface{}) bool {
			return reflect.ValueOf(m).MapIndex(reflect.ValueOf(key)).IsValid()
		})}
	}
	return c
}

func builtinFunc(name string, fn interface{}) *rfunc {
	return &rfunc{what: name, ft: reflect.TypeOf(fn), fn: reflect.ValueOf(fn)}
}

// find returns what a call on a receiver of the type reaches (nil: without receiver).
func (c *catalog) find(rt reflect.Type, name string) *rfunc {
	if rt == nil {
		if f := c.plain[name]; f != nil {
			return f
		}
		return c.standalone[name]
	}
	if m, ok := rt.MethodByName(name); ok {
		return &rfunc{what: "method", ft: m.Func.Type(), fn: m.Func}
	}
	if f := c.kinds[rt.Kind()][name]; f != nil {
		return f
	}
	if f := c.plain[name]; f != nil {
		return f
	}
	return c.types[rt][name]
}

// accepted tells whether the value can be passed, and what is passed then.
func accepted(v reflect.Value, p reflect.Type) (reflect.Value, bool) {
	if v.Type().AssignableTo(p) {
		return v, true
	}
	numeric := func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr }
	if (v.Kind() == p.Kind() || numeric(v.Kind()) && numeric(p.Kind())) && v.Type().ConvertibleTo(p) {
		return v.Convert(p), true
	}
	return v, false
}

var (
	registryTypes = []reflect.Type{tString, tInt, tFloat, reflect.TypeOf(Meth{}), reflect.TypeOf(&Meth{}), reflect.TypeOf(Word("")), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), tBool, reflect.TypeOf(int8(0)), reflect.TypeOf(twins()[0]), reflect.TypeOf(twins()[1])}
	registryNames = []string{"Ma", "Mb", "Mc", "Md", "HasKey"}
	registryNs    = []string{"n1", "n2", "strings", "math"}
)

type registryVar struct {
	name  string
	value reflect.Value
}

type registryCase struct {
	t    *engine.T
	n    int
	vars []registryVar
}

// handler makes a function, of the receiver first if it isn't nil; bad ones are not usable as functions.
func (r *registryCase) handler(recv reflect.Type, bad bool) (interface{}, *rfunc) {
	t := r.t
	r.n++
	if bad {
		switch t.Uint(7) {
		case 5:
			return func(s string) (string, code) { return s, 0 }, nil
		case 6:
			return func(s string) (int, *code) { return 0, nil }, nil
		case 0:
			return func(s string) {}, nil
		case 1:
			return func(s string) (string, string, error) { return s, s, nil }, nil
		case 2:
			return func(s string) (string, string) { return s, s }, nil
		case 3:
			return fmt.Sprint("not a function ", r.n), nil
		default:
			return r.n, nil
		}
	}
	var in []reflect.Type
	if recv != nil {
		in = append(in, recv)
	}
	for n := 0; t.More(n, 3, 1); n++ {
		in = append(in, engine.Pick(t, tString, tInt, tString))
	}
	out := []reflect.Type{engine.Pick(t, tString, tString, reflect.TypeOf(Word("")), tInt, reflect.TypeOf(Meth{}))}
	if t.Chance(1, 4) {
		out = append(out, engine.Pick(t, reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*failure)(nil))))
	}
	ft := reflect.FuncOf(in, out, false)
	what := fmt.Sprintf("#%d", r.n)
	id := r.n
	fn := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		res := reflect.New(out[0]).Elem()
		text := what
		for _, a := range args {
			if a.Kind() == reflect.Interface {
				a = a.Elem()
			}
			if a.Kind() == reflect.Ptr {
				a = a.Elem()
			}
			text += fmt.Sprintf(" %v", a.Interface())
		}
		switch out[0].Kind() {
		case reflect.String:
			res.SetString("<" + text + ">")
		case reflect.Int:
			res.SetInt(int64(id*1000 + len(text)))
		default:
			res.Set(reflect.ValueOf(Meth{text}))
		}
		if len(out) == 2 {
			return []reflect.Value{res, reflect.Zero(out[1])}
		}
		return []reflect.Value{res}
	})
	return fn.Interface(), &rfunc{what: what, ft: ft, fn: fn}
}

// code has a method of the name, but is no error.
type code int

func (c code) Error() int { return int(c) }

// typedKind is a kind function that tells its result type.
type typedKind struct {
	kindsFunction
	result reflect.Type
}

func (k *typedKind) ResultType(reflect.Type, *expr.Call) (reflect.Type, error) { return k.result, nil }

type kindsFunction struct {
	kinds []reflect.Kind
	fn    interface{}
}

func (k *kindsFunction) Kind() []reflect.Kind { return k.kinds }
func (k *kindsFunction) Handler() interface{} { return k.fn }

// register registers something, and checks that it is accepted or refused.
func (r *registryCase) register(c *catalog) {
	t := r.t
	name := engine.Pick(t, registryNames...)
	rt := registryTypes[t.Uint(uint64(len(registryTypes)))]
	recv := rt
	switch t.Weighted(4, 2, 1) {
	case 1:
		recv = tAny
	case 2:
		recv = registryTypes[t.Uint(uint64(len(registryTypes)))]
	}
	bad := t.Chance(1, 8)
	var err error
	var what string
	want := !bad
	switch t.Uint(6) {
	case 0, 1:
		if t.Chance(1, 4) {
			recv = nil
		}
		h, f := r.handler(recv, bad)
		what = fmt.Sprintf("RegisterFunction(%q, %T)", name, h)
		if err = c.fns.RegisterFunction(name, h); want {
			c.plain[name] = f
		}
	case 2:
		if t.Bool() {
			recv = nil
		}
		h, f := r.handler(recv, bad)
		what = fmt.Sprintf("RegisterStandaloneFunction(%q, %T)", name, h)
		want = want && c.standalone[name] == nil
		fn := &op.Function{Handler: h}
		if f != nil && t.Bool() {
			out := f.ft.Out(0)
			fn.ResultTyper = func(*expr.Call) (reflect.Type, error) { return out, nil }
		}
		if err = c.fns.RegisterStandaloneFunction(name, fn); want {
			c.standalone[name] = f
		}
	case 3:
		for hasMethod(rt, name) { // not specified which one is reached
			name = "Md"
		}
		h, f := r.handler(recv, bad)
		what = fmt.Sprintf("RegisterTypeFunc(%v, %q, %T)", rt, name, h)
		want = want && c.types[rt][name] == nil
		fn := &op.TypeFunc{Name: name, Handler: h}
		if f != nil && t.Bool() {
			fn.ResultType = f.ft.Out(0)
		}
		if err = c.fns.RegisterTypeFunc(rt, fn); want {
			if c.types[rt] == nil {
				c.types[rt] = map[string]*rfunc{}
			}
			c.types[rt][name] = f
		}
	case 4:
		h, f := r.handler(recv, bad)
		if bad && t.Chance(1, 3) { // without a ResultTyper
			h = engine.Pick(t, interface{}(func(s string) interface{} { return s }), interface{}(func(s string) (fmt.Stringer, error) { return nil, nil }))
		}
		kf := kindsFunction{[]reflect.Kind{rt.Kind()}, h}
		for t.More(len(kf.kinds), 3, 1) {
			kf.kinds = append(kf.kinds, registryTypes[t.Uint(uint64(len(registryTypes)))].Kind())
		}
		what = fmt.Sprintf("RegisterFunctionKind(%q, %v %T)", name, kf.kinds, h)
		var k op.KindFunction = &kf
		if f != nil && t.Bool() {
			k = &typedKind{kf, f.ft.Out(0)}
		}
		if err = c.fns.RegisterFunctionKind(name, k); want {
			for _, kind := range kf.kinds {
				if c.kinds[kind] == nil {
					c.kinds[kind] = map[string]*rfunc{}
				}
				c.kinds[kind][name] = f
			}
		}
	default:
		name = engine.Pick(t, registryNs...)
		r.n++
		tag := fmt.Sprint("ns", r.n)
		v := engine.Pick(t, interface{}(NsA{tag}), interface{}(&NsB{tag}), interface{}(&NsA{tag}), interface{}(NsB{tag}), interface{}(Word(tag)))
		what = fmt.Sprintf("RegisterFuncNs(%q, %T)", name, v)
		if c.fns.IsFuncNs(name) != has(c.ns, name) {
			t.Fail("IsFuncNs(%q) is %v", name, !has(c.ns, name))
		}
		want = !has(c.ns, name)
		if err = c.fns.RegisterFuncNs(name, v); want {
			c.ns[name] = v
		}
	}
	t.Note("%s: %v", what, err)
	if (err == nil) != want {
		t.Fail("%s: error %v, want accepted %v", what, err, want)
	}
	if !want {
		t.Class("refused registration")
	}
}

func has(m map[string]interface{}, name string) bool { _, ok := m[name]; return ok }

func hasMethod(rt reflect.Type, name string) bool { _, ok := rt.MethodByName(name); return ok }

// call makes a call, and tells what it gives (nil: it has to be rejected), and whether it is refused at run time.
func (r *registryCase) call(c *catalog) (text string, result *reflect.Value, refused bool) {
	t := r.t
	var name string
	var f *rfunc
	var operands []reflect.Value
	tries := 8
	if t.Chance(1, 8) {
		tries = 1
	}
	for ; f == nil && tries > 0; tries-- {
		name = engine.Pick(t, registryNames...)
		operands = nil
		switch t.Weighted(6, 2, 3) {
		case 0:
			v := r.vars[t.Uint(uint64(len(r.vars)))]
			text = "$" + v.name + "." + name
			f = c.find(v.value.Type(), name)
			operands = append(operands, v.value)
		case 1:
			ns := engine.Pick(t, registryNs...)
			if has(c.ns, ns) && c.ns[ns] == nil {
				return fmt.Sprintf("$%s.%s", ns, map[string]string{"strings": `ToUpper("mno")`, "math": "Floor(2.5)"}[ns]), map[string]*reflect.Value{"strings": valuePtr("MNO"), "math": valuePtr(2.0)}[ns], false
			}
			text = "$" + ns + "." + name
			if has(c.ns, ns) {
				f = c.find(reflect.TypeOf(c.ns[ns]), name)
				operands = append(operands, reflect.ValueOf(c.ns[ns]))
			}
		default:
			text = "$" + name
			f = c.find(nil, name)
		}
	}
	for depth := 0; ; depth++ {
		var args []string
		for i := len(operands); f == nil && i < 2 || f != nil && i < f.ft.NumIn(); i++ {
			at := tString
			if f != nil {
				at = f.ft.In(i)
			}
			switch {
			case at == tInt:
				n := t.Int(0, 9)
				args = append(args, fmt.Sprint(n))
				operands = append(operands, reflect.ValueOf(n))
			case at == tString || at == tAny:
				s := engine.Pick(t, "k1", "k2", "x")
				args = append(args, `"`+s+`"`)
				operands = append(operands, reflect.ValueOf(s))
			default: // the receiver of a function called without one
				var of []registryVar
				for _, v := range r.vars {
					if v.value.Type() == at {
						of = append(of, v)
					}
				}
				if len(of) == 0 {
					return "", nil, false
				}
				v := of[t.Uint(uint64(len(of)))]
				args = append(args, "$"+v.name)
				operands = append(operands, v.value)
			}
		}
		text += "(" + strings.Join(args, ", ") + ")"
		if f == nil {
			return text, nil, false
		}
		in := make([]reflect.Value, len(operands))
		if len(operands) != f.ft.NumIn() { // the receiver of a function without parameters
			return text, valuePtr(reflect.Zero(f.ft.Out(0)).Interface()), true
		}
		for i, v := range operands {
			var ok bool
			if in[i], ok = accepted(v, f.ft.In(i)); !ok {
				return text, valuePtr(reflect.Zero(f.ft.Out(0)).Interface()), true
			}
		}
		res := f.fn.Call(in)[0]
		if depth == 3 || !t.Chance(1, 3) {
			return text, &res, false
		}
		name = engine.Pick(t, registryNames...)
		next := c.find(res.Type(), name)
		if next == nil {
			return text, &res, false
		}
		t.Class("chained")
		text += "." + name
		f, operands = next, []reflect.Value{res}
	}
}

func valuePtr(v interface{}) *reflect.Value { r := reflect.ValueOf(v); return &r }

type registryPlan struct {
	tmpl     string
	want     string
	errors   int
	exec     *est.Execution
	newState func() *est.State
}

func (r *registryCase) run(p *registryPlan) {
	st := p.newState()
	for _, v := range r.vars {
		if err := st.SetValue(v.name, v.value.Interface()); err != nil {
			r.t.Fail("SetValue(%q): %v", v.name, err)
		}
	}
	err := p.exec.Exec(st)
	if got := st.Buffer.String(); got != p.want || len(st.Errors) != p.errors || (err != nil) != (p.errors > 0) {
		r.t.Fail("%q rendered %q with errors %v\n    want %q with %d errors", p.tmpl, got, st.Errors, p.want, p.errors)
	}
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C25",
		Rule: "histories of up to 24 registrations (plain, standalone, type and kind functions of generated signatures, namespaces; under 5 names and 4 namespaces, so that they meet each other, methods and builtins; one in 8 isn't usable) on up to 2 registries, shared by up to 4 planners made with New, New(functions) and Planner.New; " +
			"in between, calls with and without receivers of 12 types, of namespaces and chained, are compiled and executed, and all plans are executed again at the end; each registration must be accepted or refused, each call rejected or reach the function a model of the registry says; non-trivial: at least 3 functions were reached",
		Quick: 100000, Thorough: 5000000,
		Run: func(t *engine.T) {
			r := &registryCase{t: t}
			for i, rt := range registryTypes {
				var v reflect.Value
				kind := rt.Kind()
				if rt.Name() == "Twin" {
					kind = reflect.Invalid
				}
				switch kind {
				case reflect.Invalid:
					if v = reflect.ValueOf(twins()[0]); v.Type() != rt {
						v = reflect.ValueOf(twins()[1])
					}
				case reflect.Ptr:
					v = reflect.ValueOf(&Meth{"p"})
				case reflect.Map:
					v = reflect.ValueOf(map[string]int{"k1": 1})
				case reflect.Slice:
					v = reflect.ValueOf([]string{"e"})
				case reflect.Struct:
					v = reflect.ValueOf(Meth{"v"})
				case reflect.String:
					v = reflect.ValueOf("s").Convert(rt)
				case reflect.Bool:
					v = reflect.ValueOf(true)
				default:
					v = reflect.ValueOf(7).Convert(rt)
				}
				r.vars = append(r.vars, registryVar{fmt.Sprintf("v%d", i), v})
			}
			type site struct {
				p *velty.Planner
				c *catalog
			}
			var sites []*site
			add := func(p *velty.Planner, c *catalog) {
				sites = append(sites, &site{p, c})
			}
			define := func(p *velty.Planner) *velty.Planner {
				for _, v := range r.vars {
					if err := p.DefineVariable(v.name, definition(v.name, len(sites), v.value.Type(), v.value)); err != nil {
						t.Fail("DefineVariable: %v", err)
					}
				}
				return p
			}
			newSite := func() {
				switch t.Weighted(4, 1, 1) {
				case 0:
					c := newCatalog(true)
					p := define(velty.New())
					c.fns = p.Functions
					add(p, c)
				case 1:
					c := newCatalog(true)
					c.fns = op.NewFunctions()
					add(define(velty.New(c.fns, velty.BufferSize(10))), c)
				default:
					c := newCatalog(false)
					c.fns = op.EmptyFunctions()
					add(define(velty.New(velty.CacheSize(2), c.fns)), c)
				}
			}
			newSite()
			var plans []*registryPlan
			reached := 0
			for n := 0; n == 0 || t.More(n, 32, 10); n++ {
				s := sites[t.Uint(uint64(len(sites)))]
				switch t.Weighted(10, 8, 1) {
				case 0:
					r.register(s.c)
				case 1:
					plan := &registryPlan{}
					for k := t.Int(1, 4); k > 0; k-- {
						text, result, refused := r.call(s.c)
						if text == "" {
							continue
						}
						name := fmt.Sprintf("r%d", r.n)
						r.n++
						field := ""
						if result != nil && result.Type() == reflect.TypeOf(Meth{}) {
							field = ".S"
						}
						tmpl := fmt.Sprintf("#set($%s = %s)$%s%s;", name, text, name, field)
						if result == nil {
							t.Note("rejected: %s", tmpl)
							t.Class("rejected call")
							p := s.p.New()
							if pan, stack := engine.Protect(func() { _, _, err := p.Compile([]byte(tmpl)); tmpl = fmt.Sprint(err) }); pan != nil {
								t.Fail("Compile panicked: %v\n%s", pan, clipStack(stack))
							}
							if tmpl == "<nil>" {
								t.Fail("Compile accepted the call")
							}
							continue
						}
						plan.tmpl += tmpl
						switch {
						case refused:
							t.Class("refused call")
							plan.errors++
							plan.want += resultText(result) + ";"
						default:
							plan.want += resultText(result) + ";"
							reached++
						}
					}
					if plan.tmpl == "" {
						continue
					}
					t.Note("template: %q", plan.tmpl)
					plan.exec, plan.newState = compileOK(t, s.p.New(), plan.tmpl)
					r.run(plan)
					plans = append(plans, plan)
				default:
					if len(sites) == 4 {
						continue
					}
					switch t.Uint(3) {
					case 0:
						newSite()
					case 1:
						t.Note("New")
						add(s.p.New(), s.c)
					default:
						t.Note("New(functions)")
						add(define(velty.New(s.c.fns)), s.c)
					}
				}
			}
			for _, p := range plans {
				r.run(p)
			}
			if reached >= 3 {
				t.NonTrivial(strings.Join(t.Notes(), "\n"))
			}
		},
	})
}

func resultText(v *reflect.Value) string {
	if m, ok := v.Interface().(Meth); ok {
		return m.S
	}
	return fmt.Sprint(v.Interface())
}
