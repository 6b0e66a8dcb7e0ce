package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/functions"
	"velty.verif/harness/engine"
)

// builtinNs and builtinKinds are the functions of every planner.
var (
	builtinNs = map[string]interface{}{"strings": functions.Strings{}, "math": functions.Math{}, "strconv": functions.Strconv{}, "slices": functions.Slices{}, "types": functions.Types{},
		"errors": functions.Errors{}, "time": functions.Time{}, "maps": functions.Maps{}, "json": functions.NewJSON(nil)}
	builtinKinds = map[string]op.KindFunction{"HasKey": functions.HasKeyFunc, "IndexBy": functions.SliceIndexByFunc}
)

type builtinMethod struct {
	ns     string
	method reflect.Method
}

// builtinMethods lists the functions of all namespaces.
var builtinMethods = func() (out []builtinMethod) {
	for ns, v := range builtinNs {
		rt := reflect.TypeOf(v)
		for i := 0; i < rt.NumMethod(); i++ {
			m := rt.Method(i)
			switch m.Name {
			case "Now", "Discover", "DiscoverInterfaces", "MethodResultType":
				continue
			}
			out = append(out, builtinMethod{ns, m})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].ns+"."+out[i].method.Name < out[j].ns+"."+out[j].method.Name
	})
	return out
}()

type registryModel struct {
	real    *functions.Registry
	entries map[string]functions.Entry
	copied  bool
	broken  bool // its builtins are not what they were
}

func sameEntry(a, b functions.Entry) bool {
	return a.Metadata == b.Metadata && sameHandler(a.Handler, b.Handler)
}

func sameHandler(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Type() != vb.Type() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Kind() == reflect.Func || va.Kind() == reflect.Ptr {
		return va.Pointer() == vb.Pointer()
	}
	return a == b
}

func (r *registryModel) check(t *engine.T, n int) {
	for name, want := range r.entries {
		got := r.real.Entries[name]
		if got == nil {
			t.Fail("registry %d lost %q", n, name)
		}
		if !sameEntry(*got, want) {
			t.Fail("registry %d: entry %q is %v, want %v", n, name, *got, want)
		}
		if !r.real.IsDefined(name) {
			t.Fail("registry %d: IsDefined(%q) is false", n, name)
		}
	}
	for name := range r.real.Entries {
		if _, ok := r.entries[name]; !ok {
			t.Fail("registry %d got an entry %q", n, name)
		}
	}
}

// describes checks that a copy nobody changed describes all builtin functions.
func (r *registryModel) describes(t *engine.T) {
	if len(r.entries) != len(builtinNs)+len(builtinKinds) {
		t.Fail("a copy has %d entries, there are %d functions", len(r.entries), len(builtinNs)+len(builtinKinds))
	}
	for name, v := range builtinNs {
		e := r.entries[name]
		meta, ok := e.Metadata.(*functions.FunctionNamespaceMetadata)
		if !ok {
			t.Fail("metadata of namespace %q is %T", name, e.Metadata)
		}
		if meta.Type() != reflect.TypeOf(e.Handler) {
			t.Fail("namespace %q has type %v, its handler %T", name, meta.Type(), e.Handler)
		}
		if deref(meta.Type()) != deref(reflect.TypeOf(v)) {
			t.Fail("namespace %q has type %v, want %T", name, meta.Type(), v)
		}
	}
	for name, v := range builtinKinds {
		e := r.entries[name]
		meta, ok := e.Metadata.(*functions.FunctionKindMetadata)
		if !ok {
			t.Fail("metadata of function %q is %T", name, e.Metadata)
		}
		kinds := meta.Kinds()
		if !reflect.DeepEqual(kinds, v.Kind()) {
			t.Fail("function %q has kinds %v, want %v", name, kinds, v.Kind())
		}
		if reflect.TypeOf(e.Handler) != reflect.TypeOf(v.Handler()) {
			t.Fail("the handler of %q is a %T", name, e.Handler)
		}
		for i := range kinds { // belongs to the caller
			kinds[i] = reflect.Chan
		}
		if reflect.DeepEqual(kinds, meta.Kinds()) {
			t.Fail("function %q got kinds %v through the slice it returned", name, kinds)
		}
	}
}

// kindEntry makes a kind function of an entry.
type kindEntry struct {
	name  string
	kinds []reflect.Kind
	fn    interface{}
}

func (k *kindEntry) Kind() []reflect.Kind { return k.kinds }
func (k *kindEntry) Handler() interface{} { return k.fn }
func (k *kindEntry) ResultType(receiver reflect.Type, call *expr.Call) (reflect.Type, error) {
	if typer, ok := builtinKinds[k.name].(op.ResultTyper); ok {
		return typer.ResultType(receiver, call)
	}
	return reflect.TypeOf(k.fn).Out(0), nil
}

// functionsOf registers all entries, in the given order.
func functionsOf(t *engine.T, r *registryModel, names []string) *op.Functions {
	fns := op.EmptyFunctions()
	for _, name := range names {
		e := r.real.Entries[name]
		var err error
		switch meta := e.Metadata.(type) {
		case *functions.FunctionNamespaceMetadata:
			err = fns.RegisterFuncNs(name, e.Handler)
		case *functions.FunctionKindMetadata:
			err = fns.RegisterFunctionKind(name, &kindEntry{name, meta.Kinds(), e.Handler})
		}
		if err != nil {
			t.Fail("registering entry %q: %v", name, err)
		}
	}
	return fns
}

var argTypes = []reflect.Type{tString, tInt, tFloat, tBool, reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]Small{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[int]string{}), tSmall, reflect.PtrTo(tSmall), reflect.TypeOf(map[string]interface{}{})}

// builtinCalls makes a template of calls of builtin functions.
func builtinCalls(t *engine.T) (tmpl string, vars []*Var) {
	variable := func(rt reflect.Type) string {
		v := &Var{name: fmt.Sprintf("a%d", len(vars)), rType: rt, value: genValue(t, rt, 2)}
		vars = append(vars, v)
		return "$" + v.name
	}
	arg := func(p reflect.Type) string {
		if p.Kind() == reflect.Interface {
			p = engine.Pick(t, argTypes...)
		}
		if t.Chance(1, 16) { // it may not fit
			p = engine.Pick(t, argTypes...)
		}
		if t.Chance(1, 3) {
			switch p {
			case tString:
				return engine.Pick(t, `"a"`, `""`, `"12"`, `"true"`, `"2.5"`, `"A b"`, `"S"`, `"I"`)
			case tInt:
				return engine.Pick(t, "0", "1", "-1", "7")
			case tFloat:
				return engine.Pick(t, "2.5", "0.0", "-1.5")
			case tBool:
				return engine.Pick(t, "true", "false")
			}
		}
		return variable(p)
	}
	for n := 0; n == 0 || t.More(n, 6, 2); n++ {
		call := ""
		switch t.Weighted(24, 2, 2, 1) {
		case 3:
			tmpl += fmt.Sprintf("#set($now%d = $time.Now());", n)
			continue
		case 0:
			m := builtinMethods[t.Uint(uint64(len(builtinMethods)))]
			t.Class("function " + m.ns + "." + m.method.Name)
			ft := m.method.Type
			var args []string
			for i := 1; i < ft.NumIn(); i++ {
				args = append(args, arg(ft.In(i)))
			}
			if m.method.Name == "UnmarshalInto" {
				args[1] = engine.Pick(t, `"int"`, `"string"`, `"[]int"`, `"bool"`, `"map[string]int"`, `"Nope"`)
			}
			if t.Chance(1, 20) && len(args) > 0 {
				args = args[1:]
			}
			call = "$" + m.ns + "." + m.method.Name + "(" + strings.Join(args, ", ") + ")"
		case 1:
			t.Class("function HasKey")
			call = variable(engine.Pick(t, argTypes[len(argTypes)-t.Int(1, 5)], argTypes[9], argTypes[10])) + ".HasKey(" + arg(tAny) + ")"
		case 2:
			t.Class("function IndexBy")
			call = variable(engine.Pick(t, reflect.TypeOf([]Small{}), reflect.TypeOf([]*Small{}), reflect.TypeOf([]Leaf{}), argTypes[t.Uint(uint64(len(argTypes)))])) + ".IndexBy(" + engine.Pick(t, `"I"`, `"S"`, `"Nope"`) + ")"
		}
		switch t.Uint(3) {
		case 0:
			tmpl += fmt.Sprintf("#set($r%d = %s)$r%d;", n, call, n)
		case 1:
			tmpl += "#if(true)" + call + "#end;"
		default:
			tmpl += call + ";"
		}
	}
	return tmpl, vars
}

// runWith describes what a template does with these functions.
func runWith(t *engine.T, tmpl string, vars []*Var, options ...velty.Option) (string, bool) {
	var out string
	pan, _ := engine.Protect(func() {
		p := velty.New(options...)
		for _, v := range vars {
			if err := p.DefineVariable(v.name, v.rType); err != nil {
				t.Fail("DefineVariable(%q, %v): %v", v.name, v.rType, err)
			}
		}
		exec, newState, err := p.Compile([]byte(tmpl))
		if err != nil {
			out = "rejected"
			return
		}
		st := newState()
		setVars(t, st, vars, newCloner())
		pan, _ := engine.Protect(func() { err = exec.Exec(st) })
		out = fmt.Sprintf("%q, error %v, errors %v, panic %v", st.Buffer.String(), err, st.Errors, pan)
	})
	if pan != nil {
		t.Fail("panic: %v", pan)
	}
	return out, out != "rejected"
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C26",
		Rule: "histories of up to 16 operations on registries (copies and new ones): definitions under names written in 4 ways, changes of entries, deletions, with all registries compared with map models after each; " +
			"in between, untouched copies are registered, in any order, with empty functions, and templates of up to 6 calls of any builtin function with arguments that mostly fit do the same with them as with the functions of a new planner; " +
			"non-trivial: a template was accepted, and compared",
		Quick: 60000, Thorough: 3000000,
		Run: func(t *engine.T) {
			var all []*registryModel
			create := func(copied bool) {
				r := &registryModel{real: functions.NewRegistry(), entries: map[string]functions.Entry{}, copied: copied}
				if copied {
					r.real = functions.CopyInstance()
					for name, e := range r.real.Entries {
						r.entries[name] = *e
					}
					r.describes(t)
				}
				t.Note("registry %d, a copy: %v", len(all), copied)
				all = append(all, r)
			}
			create(true)
			compared := ""
			for n := 0; n == 0 || t.More(n, 16, 5); n++ {
				at := int(t.Uint(uint64(len(all))))
				r := all[at]
				switch t.Weighted(9, 4, 1, 2, 2) {
				case 0: // what copies describe works
					if !r.copied || r.broken {
						continue
					}
					var names []string
					for name := range r.entries {
						if builtinNs[name] != nil || builtinKinds[name] != nil {
							names = append(names, name)
						}
					}
					sort.Strings(names)
					for i := len(names) - 1; i > 0; i-- {
						j := t.Uint(uint64(i + 1))
						names[i], names[j] = names[j], names[i]
					}
					tmpl, vars := builtinCalls(t)
					t.Note("with registry %d: %q\n%s", at, tmpl, show(&World{vars: vars, bufSize: -1}))
					want, ok := runWith(t, tmpl, vars)
					got, _ := runWith(t, tmpl, vars, functionsOf(t, r, names))
					if got != want {
						t.Fail("with the functions of a copy %s\n    with those of a planner %s", got, want)
					}
					if ok {
						compared += tmpl + show(&World{vars: vars, bufSize: -1})
					} else {
						t.Class("rejected template")
					}
				case 1:
					name := engine.Pick(t, "n1", "n2", "strings", "HasKey", "n1", "Fn", "$", "{}")
					text := name
					if k := t.Uint(4); name[0] != '$' && name[0] != '{' {
						text = []string{name, "$" + name, "${" + name + "}", "{" + name + "}"}[k]
					} else {
						name = ""
					}
					e := functions.NewEntry(engine.Pick(t, interface{}(&NsB{text}), interface{}(NsA{text}), interface{}(n)), functions.NewFunctionNamespace(reflect.TypeOf(NsA{})))
					if t.Chance(1, 3) {
						e = functions.NewEntry(func(s string) string { return s }, functions.NewFunctionKind([]reflect.Kind{reflect.Map, reflect.Slice}))
					}
					t.Note("registry %d: DefineNs(%q)", at, text)
					if got := r.real.DefineNs(text, e); got != text {
						t.Fail("DefineNs(%q) returned %q", text, got)
					}
					r.entries[name] = *e
					r.broken = r.broken || builtinNs[name] != nil || builtinKinds[name] != nil
				case 2: // an entry of one registry is changed
					if len(r.entries) == 0 {
						continue
					}
					var names []string
					for name := range r.entries {
						names = append(names, name)
					}
					sort.Strings(names)
					name := names[t.Uint(uint64(len(names)))]
					t.Class("changed entry")
					r.broken = true
					if t.Bool() {
						t.Note("registry %d: entry %q is deleted", at, name)
						delete(r.real.Entries, name)
						delete(r.entries, name)
						if r.real.IsDefined(name) {
							t.Fail("registry %d: IsDefined(%q) is true", at, name)
						}
						break
					}
					t.Note("registry %d: entry %q is changed", at, name)
					e := functions.Entry{Handler: NsA{fmt.Sprint(n)}, Metadata: functions.NewFunctionNamespace(reflect.TypeOf(NsA{}))}
					*r.real.Entries[name] = e
					r.entries[name] = e
				case 3:
					if len(all) < 5 {
						create(t.Chance(2, 3))
					}
				default:
					name := engine.Pick(t, "n3", "${n1}", "$strings", "string", "hasKey", " strings", "nope")
					if r.real.IsDefined(name) {
						t.Fail("registry %d: IsDefined(%q) is true", at, name)
					}
				}
				for i, r := range all {
					r.check(t, i)
				}
			}
			if compared != "" {
				t.NonTrivial(compared)
			}
		},
	})
}
