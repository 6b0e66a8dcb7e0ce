package props

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/ast/expr"
	"github.com/viant/velty/est/op"
	"github.com/viant/velty/functions"
	"velty.verif/harness/engine"
)

// calls is the trace of the calls of registered functions; cases run one after another.
var calls []string

func record(name string, args ...interface{}) string {
	var b strings.Builder
	b.WriteString(name)
	b.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			b.WriteString(", ")
		}
		if v, ok := a.(reflect.Value); ok {
			b.WriteString(dump(v))
		} else {
			b.WriteString(dump(reflect.ValueOf(a)))
		}
	}
	b.WriteByte(')')
	s := b.String()
	calls = append(calls, s)
	collector.tick()
	return s
}

// retained are the values a function got in interfaces, with what they were.
type retainedValue struct {
	v    interface{}
	what string
}

var retained []retainedValue

func retain(v reflect.Value) {
	if v.Kind() == reflect.Slice && v.Type().Elem() == tAny {
		for i := 0; i < v.Len(); i++ {
			retain(v.Index(i))
		}
		return
	}
	if v.Kind() == reflect.Interface && !v.IsNil() && (basicKind(v.Elem().Type()) || v.Elem().Type() == tSmall) {
		retained = append(retained, retainedValue{v.Elem().Interface(), dump(v.Elem())})
	}
}

// ---- types with methods ----

type Acc struct {
	Pad  bool
	Name string
	N    int
	Next *Acc
	Tags []string
	W    Word
}

type Word string
type Num int
type Words []string
type Dict map[string]int
type Flag bool

type Namer interface {
	Label(prefix string) string
	Size() int
}

func (a Acc) Val(s string) string { record("Acc.Val", a, s); return a.Name + "." + s }
func (a *Acc) Inc(n int) int      { record("Acc.Inc", a, n); mutations++; a.N += n; return a.N }
func (a *Acc) Child() *Acc        { record("Acc.Child", a); return a.Next }
func (a Acc) Copy() Acc           { record("Acc.Copy", a); a.N++; return a }
func (a Acc) Join(sep string, parts ...string) string {
	record("Acc.Join", a, sep, parts)
	return strings.Join(append([]string{a.Name}, parts...), sep)
}
func (a *Acc) Mix(f float64, b bool, i8 int8, s string) string {
	return record("Acc.Mix", a, f, b, i8, s)[:7] + fmt.Sprint(f, b, i8, s)
}
func (a *Acc) Set(name string, other *Acc) *Acc {
	record("Acc.Set", a, name, other)
	mutations++
	a.Name = name
	if other == nil {
		return a
	}
	return other
}
func (a Acc) Is(any interface{}) bool { record("Acc.Is", a, any); return any != nil }
func (a Acc) List(n int) []string {
	record("Acc.List", a, n)
	return append([]string{a.Name}, a.Tags...)
}
func (a Acc) Ratio() float64              { record("Acc.Ratio", a); return float64(a.N) / 4 }
func (a Acc) Word() Word                  { record("Acc.Word", a); return a.W }
func (a *Acc) Label(prefix string) string { record("Acc.Label", a, prefix); return prefix + a.Name }
func (a *Acc) Size() int                  { record("Acc.Size", a); return a.N }
func (a *Acc) Self() Namer                { record("Acc.Self", a); return a }

func (w Word) Twice() Word { record("Word.Twice", w); return w + w }
func (w Word) With(s string, n int) string {
	record("Word.With", w, s, n)
	return string(w) + s + fmt.Sprint(n)
}
func (w Word) Label(prefix string) string { record("Word.Label", w, prefix); return prefix + string(w) }
func (w Word) Size() int                  { record("Word.Size", w); return len(w) }

func (n Num) Plus(i int) Num       { record("Num.Plus", n, i); return n + Num(i) }
func (n Num) Int() int             { record("Num.Int", n); return int(n) }
func (w Words) First() string      { record("Words.First", w); return strings.Join(w, "/") }
func (w Words) Tail(n int) Words   { record("Words.Tail", w, n); return w[len(w)/2:] }
func (w Words) Len() int           { record("Words.Len", w); return len(w) }
func (d Dict) Sum(k string) int    { record("Dict.Sum", d, k); return d[k] + len(d) }
func (f Flag) Not() bool           { record("Flag.Not", f); return !bool(f) }
func (n *Num) Ptr(s string) string { record("Num.Ptr", n, s); return fmt.Sprint(int(*n), s) }

// Box holds receivers of all kinds.
type Box struct {
	Small int8
	A     Acc
	P     *Acc
	W     Word
	N     Num
	F     Flag
	Ws    Words
	D     Dict
	I     Namer
	As    []Acc
	Ps    []*Acc
	M     map[string]*Acc
	MW    map[string]Word
	PN    *Num
}

var (
	tBox      = reflect.TypeOf(Box{})
	tAcc      = reflect.TypeOf(Acc{})
	tNamer    = reflect.TypeOf((*Namer)(nil)).Elem()
	methodful = []reflect.Type{tAcc, reflect.PtrTo(tAcc), reflect.TypeOf(Word("")), reflect.TypeOf(Num(0)), reflect.PtrTo(reflect.TypeOf(Num(0))), reflect.TypeOf(Words{}), reflect.TypeOf(Dict{}), reflect.TypeOf(Flag(false)), tNamer}
)

func hasMethods(rt reflect.Type) bool {
	for _, m := range methodful {
		if rt == m {
			return true
		}
	}
	return false
}

// Lib and PLib are namespaces.
type Lib struct{ Prefix string }

func (l Lib) Up(s string) string      { record("Lib.Up", s); return strings.ToUpper(s) + l.Prefix }
func (l Lib) Pair(a, b string) string { record("Lib.Pair", a, b); return a + "/" + b + l.Prefix }
func (l Lib) Sum(xs ...int) int {
	record("Lib.Sum", xs)
	s := 0
	for _, x := range xs {
		s = s*3 + x
	}
	return s
}
func (l Lib) Half(f float64) float64 { record("Lib.Half", f); return f / 2 }
func (l Lib) Make(n string, i int) *Acc {
	record("Lib.Make", n, i)
	return &Acc{Name: n, N: i, Next: &Acc{Name: l.Prefix}}
}
func (l Lib) Kind(i interface{}) string    { record("Lib.Kind", i); return fmt.Sprintf("%T", i) }
func (l Lib) Pick(ss []string, i int) bool { record("Lib.Pick", ss, i); return len(ss) > i }

type PLib struct{ Prefix string }

func (l *PLib) Up(s string) string { record("PLib.Up", s); return strings.ToLower(s) + l.Prefix }
func (l *PLib) Pair(a, b int) int  { record("PLib.Pair", a, b); return a*10 + b }
func (l *PLib) Many(a int8, b uint16, c float32, d bool, e string) string {
	record("PLib.Many", a, b, c, d, e)
	return fmt.Sprint(a, b, c, d, e)
}
func (l *PLib) When() time.Time { record("PLib.When"); return fixedNow }

// ---- generated functions ----

var optimisedTypes = func() []reflect.Type {
	var out []reflect.Type
	for _, f := range []interface{}{
		(func(a, b string) bool)(nil), (func(a, b string) string)(nil), (func(a string) string)(nil), (func(a, b string) int)(nil), (func(a string) int)(nil), (func(a string) bool)(nil),
		(func(a, b string, c int) int)(nil), (func(a, b, c string) bool)(nil), (func(a, b string) []string)(nil), (func(a, b string, c int) bool)(nil), (func(a string, c int) string)(nil), (func(a string, b, c int) string)(nil),
		(func(a []int, b int) bool)(nil), (func(a []bool, b bool) bool)(nil), (func(a []float64, b float64) bool)(nil), (func(a []uint8, b uint8) bool)(nil), (func(a []string, b string) bool)(nil),
		(func(a, b []int) bool)(nil), (func(a, b []bool) bool)(nil), (func(a, b []float64) bool)(nil), (func(a, b []uint8) bool)(nil), (func(a, b []string) bool)(nil),
		(func(a []int, b int) int)(nil), (func(a []bool, b int) bool)(nil), (func(a []float64, b int) float64)(nil), (func(a []uint8, b int) uint8)(nil), (func(a []string, b int) string)(nil),
		(func(a []int) bool)(nil), (func(a []bool) bool)(nil), (func(a []float64) bool)(nil), (func(a []uint8) bool)(nil), (func(a []string) bool)(nil),
		(func(a []int) int)(nil), (func(a []bool) int)(nil), (func(a []float64) int)(nil), (func(a []string) int)(nil),
		(func(a int) string)(nil), (func(a bool) string)(nil), (func(a float64) string)(nil),
	} {
		out = append(out, reflect.TypeOf(f))
	}
	return out
}()

var paramTypes = []reflect.Type{tInt, tString, tFloat, tBool, tInt, tString, reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]uint8{}),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), tAny, tSmall, reflect.PtrTo(tSmall), tAcc, reflect.PtrTo(tAcc), ptrTo(0), ptrTo(""), tTime, reflect.TypeOf(map[string]int{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]*Small{}), reflect.TypeOf([]Small{}),
	reflect.TypeOf(Word("")), reflect.TypeOf(Num(0)), tNamer, reflect.TypeOf(struct{ P *int }{}), reflect.TypeOf([2]string{}), reflect.TypeOf(Words{}), reflect.TypeOf([]*Acc{}), reflect.TypeOf([]Acc{})}

func signature(t *engine.T) reflect.Type {
	if t.Chance(2, 5) {
		return optimisedTypes[t.Uint(uint64(len(optimisedTypes)))]
	}
	var in []reflect.Type
	more := 0
	if t.Chance(1, 40) {
		more = t.Int(6, 24)
	}
	for len(in) < more || t.More(len(in), 5, 2) {
		in = append(in, paramTypes[t.Uint(uint64(len(paramTypes)))])
	}
	variadic := false
	if t.Chance(1, 6) {
		variadic = true
		in = append(in, reflect.SliceOf(paramTypes[t.Uint(uint64(len(paramTypes)))]))
	}
	out := []reflect.Type{paramTypes[t.Uint(uint64(len(paramTypes)))]}
	if t.Chance(1, 5) {
		out = append(out, reflect.TypeOf((*error)(nil)).Elem())
	}
	return reflect.FuncOf(in, out, variadic)
}

// derive makes a value out of a number.
func derive(rt reflect.Type, h uint64) reflect.Value {
	v := reflect.New(rt).Elem()
	switch rt.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("r%d", h%1000))
	case reflect.Bool:
		v.SetBool(h%2 == 1)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(int(h%800)-400) / 4)
	case reflect.Slice:
		n := int(h % 4)
		if n == 3 {
			break // nil
		}
		v.Set(reflect.MakeSlice(rt, n, n))
		for i := 0; i < n; i++ {
			v.Index(i).Set(derive(rt.Elem(), h/4+uint64(i)))
		}
	case reflect.Array:
		for i := 0; i < rt.Len(); i++ {
			v.Index(i).Set(derive(rt.Elem(), h/2+uint64(i)))
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(rt))
		v.SetMapIndex(derive(rt.Key(), h/3), derive(rt.Elem(), h/5))
	case reflect.Ptr:
		if h%8 != 0 || hasMethods(rt) {
			v.Set(reflect.New(rt.Elem()))
			v.Elem().Set(derive(rt.Elem(), h/8))
		}
	case reflect.Struct:
		if rt == tTime {
			return reflect.ValueOf(time.Unix(int64(h%1000000), 0).UTC())
		}
		for i := 0; i < rt.NumField(); i++ {
			if rt.Field(i).Type != reflect.PtrTo(rt) {
				v.Field(i).Set(derive(rt.Field(i).Type, h>>uint(i)))
			}
		}
	case reflect.Interface:
		if rt == tNamer {
			v.Set(engine2(h, reflect.ValueOf(Word("w")), reflect.ValueOf(&Acc{Name: "d", N: int(h % 10)})))
			break
		}
		if h%6 == 5 {
			break // nil
		}
		v.Set(derive([]reflect.Type{tInt, tString, tBool, reflect.TypeOf(int8(0)), tSmall}[h%6], h/6))
	default:
		if v.CanInt() {
			v.SetInt(int64(h%200) - 100)
		} else {
			v.SetUint(h % 200)
		}
	}
	return v
}

func engine2(h uint64, a, b reflect.Value) reflect.Value {
	if h%2 == 0 {
		return a
	}
	return b
}

// tracedFunc makes a function of the type, which records its calls; its result depends on all arguments.
func tracedFunc(name string, ft reflect.Type) reflect.Value {
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		var list []interface{}
		for _, a := range args {
			list = append(list, a)
			retain(a)
		}
		h := fnv.New64a()
		h.Write([]byte(record(name, list...)))
		out := []reflect.Value{derive(ft.Out(0), h.Sum64()>>8)}
		if ft.NumOut() == 2 {
			out = append(out, reflect.Zero(ft.Out(1)))
		}
		return out
	})
}

const (
	regPlain = iota
	regStandalone
	regType
	regKind
)

type registered struct {
	name string
	fn   reflect.Value
	ft   reflect.Type
	how  int
	kind reflect.Kind
}

type kindFunction struct {
	kind reflect.Kind
	fn   interface{}
}

func (k *kindFunction) Kind() []reflect.Kind { return []reflect.Kind{k.kind} }
func (k *kindFunction) Handler() interface{} { return k.fn }

type caller struct {
	*gen
	funcs []*registered
	count int
	spoil bool // some calls have arguments that don't fit
}

func (c *caller) register(p *velty.Planner) {
	for _, f := range c.funcs {
		var err error
		switch f.how {
		case regPlain:
			err = p.RegisterFunction(f.name, f.fn.Interface())
		case regStandalone:
			fn := &op.Function{Handler: f.fn.Interface()}
			if len(f.name)%2 == 0 {
				out := f.ft.Out(0)
				fn.ResultTyper = func(*expr.Call) (reflect.Type, error) { return out, nil }
			}
			err = p.RegisterStandaloneFunction(f.name, fn)
		case regType:
			err = p.RegisterTypeFunc(f.ft.In(0), &op.TypeFunc{Name: f.name, Handler: f.fn.Interface(), ResultType: f.ft.Out(0)})
		case regKind:
			err = p.RegisterFunctionKind(f.name, &kindFunction{f.kind, f.fn.Interface()})
		}
		if err != nil {
			panic(fmt.Sprintf("registering %v %v: %v", f.name, f.ft, err))
		}
	}
	if err := p.RegisterFuncNs("lib", Lib{"!"}); err != nil {
		panic(err)
	}
	if err := p.RegisterFuncNs("plib", &PLib{"?"}); err != nil {
		panic(err)
	}
}

func (c *caller) value(rt reflect.Type) reflect.Value {
	t := c.t
	v := genValue(t, rt, 3)
	c.fillNil(v, 3)
	if rt == tNamer && !v.Elem().IsValid() {
		return c.namer()
	}
	if rt == tBox {
		v.FieldByName("I").Set(c.namer())
	}
	if rt == reflect.PtrTo(tBox) && !v.IsNil() {
		v.Elem().FieldByName("I").Set(c.namer())
	}
	return v
}

// fillNil makes most of the pointers to receivers point to something.
func (c *caller) fillNil(v reflect.Value, depth int) {
	switch {
	case v.Kind() == reflect.Ptr && hasMethods(v.Type()) && depth > 0:
		if v.IsNil() && v.CanSet() && !c.t.Chance(1, 6) {
			v.Set(reflect.New(v.Type().Elem()))
		}
		if !v.IsNil() {
			c.fillNil(v.Elem(), depth-1)
		}
	case v.Kind() == reflect.Ptr && !v.IsNil() && v.Type() == reflect.PtrTo(tBox):
		c.fillNil(v.Elem(), depth)
	case v.Kind() == reflect.Struct && (v.Type() == tBox || v.Type() == tAcc):
		for i := 0; i < v.NumField(); i++ {
			c.fillNil(v.Field(i), depth)
		}
	}
}

func (c *caller) namer() reflect.Value {
	v := reflect.New(tNamer).Elem()
	if c.t.Bool() {
		v.Set(reflect.ValueOf(&Acc{Name: genString(c.t), N: c.t.Int(0, 9)}))
	} else {
		v.Set(reflect.ValueOf(Word(genString(c.t))))
	}
	return v
}

// arg makes an argument for a parameter of the type.
func (c *caller) arg(p reflect.Type, depth int) Expr {
	t := c.t
	if depth > 0 && t.Chance(1, 4) {
		if x := c.callOf(p, depth-1); x != nil {
			c.feature("nested call")
			return x
		}
	}
	if t.Chance(1, 4) {
		if r := c.ref(3, func(_ *genVar, s shape) bool { return s.rType == p && !s.indexed() }); r != nil {
			c.feature("argument path")
			return r
		}
	}
	v := c.value(p)
	if isIntKind(p.Kind()) && number(p) && p != tInt && basicName(p) && t.Chance(1, 3) {
		if n := intOf(v); n.IsInt64() && n.Int64() < 1<<31 && n.Int64() > -1<<31 {
			c.feature("literal")
			return intLit(n.Int64())
		}
	}
	if p.Kind() == reflect.Interface && !v.IsNil() && t.Bool() {
		return c.spell(v.Elem(), p)
	}
	if p == tAny || p == tNamer || !basicName(p) {
		if v.Kind() == reflect.Interface && v.IsNil() {
			return c.newVar(reflect.New(p).Elem())
		}
	}
	return c.spell(v, p)
}

func basicName(rt reflect.Type) bool { return rt.PkgPath() == "" }

func (c *caller) args(ft reflect.Type, skip, depth int) (args []Expr, params []reflect.Type) {
	n := ft.NumIn()
	for i := skip; i < n; i++ {
		p := ft.In(i)
		if ft.IsVariadic() && i == n-1 {
			k := c.t.Int(0, 3)
			if c.t.Chance(1, 40) {
				k = c.t.Int(4, 40)
			}
			for ; k > 0; k-- {
				params = append(params, p.Elem())
				args = append(args, c.arg(p.Elem(), depth))
			}
			c.feature("variadic")
			break
		}
		params = append(params, p)
		args = append(args, c.arg(p, depth))
	}
	return args, params
}

// receiver makes a path to call something on.
func (c *caller) receiver(ok func(rt reflect.Type) bool, depth int) *Ref {
	t := c.t
	if depth > 0 && t.Chance(1, 3) {
		if x := c.anyCall(depth-1, ok); x != nil && !x.refused {
			c.feature("chained call")
			return &Ref{base: x, rType: x.rType}
		}
	}
	return c.ref(3, func(_ *genVar, s shape) bool { return ok(s.rType) && !s.indexed() })
}

func (c *caller) callOf(rt reflect.Type, depth int) *Call {
	x := c.anyCall(depth, func(o reflect.Type) bool { return o == rt })
	return x
}

// anyCall makes a call with a result of a fitting type, or returns nil.
func (c *caller) anyCall(depth int, fits func(rt reflect.Type) bool) *Call {
	t := c.t
	c.count++
	if c.count > 60 {
		return nil
	}
	if c.spoil && t.Chance(1, 8) {
		if x := c.misuse(fits); x != nil {
			return x
		}
	}
	switch t.Weighted(5, 4, 2) {
	case 1:
		if x := c.methodCall(depth, fits); x != nil {
			return x
		}
	case 2:
		if x := c.nsCall(depth, fits); x != nil {
			return x
		}
	}
	var fit []*registered
	for _, f := range c.funcs {
		if fits(f.ft.Out(0)) {
			fit = append(fit, f)
		}
	}
	if len(fit) == 0 {
		return nil
	}
	f := fit[t.Uint(uint64(len(fit)))]
	x := &Call{name: f.name, rType: f.ft.Out(0), fn: reflectCall(f.fn.Interface())}
	spoil := c.spoil && t.Chance(1, 2)
	if spoil {
		depth = 0
	}
	if spoil && f.how == regPlain && f.ft.NumIn() > 0 && t.Chance(1, 4) {
		if first := parameter(f.ft, 0); c.spoilReceiver(x, first, f.ft) {
			return x
		}
	}
	self := f.how == regType || f.how == regKind || f.how == regPlain && f.ft.NumIn() > 0 && !(f.ft.IsVariadic() && f.ft.NumIn() == 1) && t.Bool()
	if self {
		want := func(rt reflect.Type) bool {
			switch {
			case f.how == regKind:
				return rt.Kind() == f.kind && !hasMethods(rt)
			case f.how == regType:
				return rt == f.ft.In(0)
			}
			return rt == f.ft.In(0)
		}
		x.recv = c.receiver(want, depth)
		if x.recv == nil {
			if f.how != regPlain {
				v := c.value(f.ft.In(0))
				if f.how == regKind {
					v = c.value(map[reflect.Kind]reflect.Type{reflect.Slice: reflect.TypeOf([]int{}), reflect.Map: reflect.TypeOf(map[string]int{}), reflect.String: tString, reflect.Int: tInt, reflect.Struct: tSmall}[f.kind])
				}
				x.recv = c.newVar(v)
			} else {
				self = false
			}
		} else {
			x.self = f.ft.In(0)
		}
		if f.how == regKind {
			x.self = f.ft.In(0)
		}
	}
	skip := 0
	if self {
		skip = 1
		c.feature([]string{"function with receiver", "", "type function", "kind function"}[f.how])
	} else {
		c.feature([]string{"function", "standalone function"}[f.how])
	}
	x.args, x.param = c.args(f.ft, skip, depth)
	if spoil {
		c.misfit(x, f.ft, skip)
	}
	return x
}

func (c *caller) methodCall(depth int, fits func(rt reflect.Type) bool) *Call {
	t := c.t
	var methods []reflect.Method
	var owners []reflect.Type
	for _, rt := range methodful {
		for i := 0; i < rt.NumMethod(); i++ {
			if m := rt.Method(i); fits(m.Type.Out(0)) {
				methods = append(methods, m)
				owners = append(owners, rt)
			}
		}
	}
	if len(methods) == 0 {
		return nil
	}
	k := t.Uint(uint64(len(methods)))
	m, owner := methods[k], owners[k]
	spoil := c.spoil && t.Chance(1, 2)
	if spoil {
		depth = 0
	}
	recv := c.receiver(func(rt reflect.Type) bool { return rt == owner }, depth)
	if recv == nil {
		return nil
	}
	x := &Call{recv: recv, name: m.Name, rType: m.Type.Out(0)}
	skip := 1
	if owner.Kind() == reflect.Interface {
		skip = 0
		c.feature("interface method")
	} else {
		c.feature("method of " + owner.String())
	}
	x.args, x.param = c.args(m.Type, skip, depth)
	x.fn = func(args []reflect.Value) (reflect.Value, error) {
		self := args[0]
		if (self.Kind() == reflect.Ptr || self.Kind() == reflect.Interface) && self.IsNil() {
			panic(discard{"nil receiver"})
		}
		return self.MethodByName(m.Name).Call(args[1:])[0], nil
	}
	if spoil {
		if owner == tNamer && t.Bool() {
			x.recv = c.newVar(reflect.New(tNamer).Elem())
			x.fn, x.refused = refuse(x.rType), true
			c.feature("misfit: nil interface")
			return x
		}
		c.misfit(x, m.Type, skip)
	}
	return x
}

func (c *caller) nsCall(depth int, fits func(rt reflect.Type) bool) *Call {
	var xs []*Call
	var types []reflect.Type
	for _, n := range []struct {
		ns  string
		lib reflect.Value
	}{{"lib", reflect.ValueOf(Lib{"!"})}, {"plib", reflect.ValueOf(&PLib{"?"})}, {"strings", reflect.ValueOf(functions.Strings{})}, {"math", reflect.ValueOf(functions.Math{})}, {"strconv", reflect.ValueOf(functions.Strconv{})}} {
		builtin := n.lib.Type().PkgPath() == reflect.TypeOf(functions.Math{}).PkgPath()
		if builtin && !c.spoil {
			continue // C10
		}
		for i := 0; i < n.lib.NumMethod(); i++ {
			m := n.lib.Method(i)
			if builtin && (n.lib.Type().Method(i).Name == "DiscoverInterfaces" || m.Type().Out(0).Kind() == reflect.Interface) {
				continue
			}
			if fits(m.Type().Out(0)) {
				xs = append(xs, &Call{ns: n.ns, name: n.lib.Type().Method(i).Name, rType: m.Type().Out(0), fn: reflectCall(m.Interface())})
				types = append(types, m.Type())
			}
		}
	}
	if len(xs) == 0 {
		return nil
	}
	k := c.t.Uint(uint64(len(xs)))
	x := xs[k]
	c.feature("namespace function")
	if c.spoil && c.t.Chance(1, 2) {
		x.args, x.param = c.args(types[k], 0, 0)
		c.misfit(x, types[k], 0)
		return x
	}
	x.args, x.param = c.args(types[k], 0, depth)
	return x
}

// use makes statements using the result of a call.
func (c *caller) use(x *Call) []Stmt {
	t := c.t
	name := c.freshName()
	rt := x.rType
	target := &Ref{root: name, rType: rt}
	how := t.Weighted(4, 3, 2, 2, 1, 1)
	if rt.Kind() == reflect.Slice && t.Bool() {
		how = 4
	}
	if rt == tNamer {
		how = 1 // pointers are rendered as addresses
	}
	switch how {
	case 0:
		return []Stmt{&Render{x}, &Text{"|"}}
	case 2:
		if rt == tBool {
			var els []Branch
			if y := c.callOf(tBool, 1); y != nil {
				els = []Branch{{y, []Stmt{&Text{"else"}}}}
			}
			c.feature("condition")
			return []Stmt{&If{branches: append([]Branch{{x, []Stmt{&Text{"yes"}}}}, els...), hasElse: true, els: []Stmt{&Text{"no"}}}}
		}
	case 3:
		if isBasic(rt) && rt != tBool {
			var y Expr = c.callOf(rt, 1)
			if y == Expr((*Call)(nil)) {
				y = c.literal(rt)
			}
			c.feature("operands")
			return []Stmt{&Set{target, &Bin{op: "+", x: x, y: y, rType: rt}}, &Render{target}}
		}
		if rt == tBool {
			if y := c.callOf(tBool, 1); y != nil {
				c.feature("operands")
				return []Stmt{&Set{target, &Bin{op: engine.Pick(t, "&&", "||"), x: x, y: y, rType: rt}}, &Render{target}}
			}
		}
	case 4:
		if rt.Kind() == reflect.Slice && rt.Elem().Kind() != reflect.Interface {
			return c.overResult(x)
		}
		r := &Render{x}
		item := c.freshName()
		c.feature("in loop")
		return []Stmt{&Foreach{item: item, a: 1, b: t.Int(1, 4), body: []Stmt{r, &Text{","}}}}
	case 5: // a field of the result
		var fit []shape
		for _, s := range shapesOf(rt, 2) {
			if !s.indexed() && len(s.steps) > 0 && !hasKey(s) {
				fit = append(fit, s)
			}
		}
		if len(fit) > 0 {
			r := c.instantiate(&genVar{rType: rt}, fit[t.Uint(uint64(len(fit)))])
			r.root = name
			c.feature("field of result")
			if isBasic(r.rType) {
				return []Stmt{&Set{target, x}, &Render{r}}
			}
			return []Stmt{&Set{target, x}, &Set{&Ref{root: c.freshName(), rType: r.rType}, r}}
		}
	}
	return []Stmt{&Set{target, x}, &Text{"."}}
}

// overResult loops over the slice a function returns.
func (c *caller) overResult(x *Call) []Stmt {
	t := c.t
	c.feature("loop over result")
	item := &genVar{name: c.freshName(), rType: x.rType.Elem()}
	loop := &Foreach{item: item.name, src: &Ref{base: x, rType: x.rType}}
	ref := &Ref{root: item.name, rType: item.rType}
	var fields []shape
	for _, s := range shapesOf(item.rType, 2) {
		if !s.indexed() && len(s.steps) > 0 && !hasKey(s) && isBasic(s.rType) {
			fields = append(fields, s)
		}
	}
	c.vars = append(c.vars, item)
	item.loop = true
	var last Stmt
	for n := t.Int(1, 3); n > 0; n-- {
		switch t.Uint(4) {
		case 0, 1:
			if isBasic(item.rType) {
				loop.body = append(loop.body, &Render{ref})
			} else if len(fields) > 0 {
				loop.body = append(loop.body, &Render{c.instantiate(item, fields[t.Uint(uint64(len(fields)))])})
			}
		case 2:
			loop.body = append(loop.body, &Set{&Ref{root: c.freshName(), rType: item.rType}, ref})
			if isBasic(item.rType) {
				last = &Render{&Ref{root: loop.body[len(loop.body)-1].(*Set).target.root, rType: item.rType}}
			}
		default:
			if y := c.anyCall(1, func(reflect.Type) bool { return true }); y != nil {
				loop.body = append(loop.body, &Set{&Ref{root: c.freshName(), rType: y.rType}, y})
			}
		}
	}
	item.loop = false
	if last != nil {
		return []Stmt{loop, last}
	}
	return []Stmt{loop}
}

func hasKey(s shape) bool {
	for _, st := range s.steps {
		if st.key {
			return true
		}
	}
	return false
}

// newCaller generates functions and variables.
func newCaller(t *engine.T) *caller {
	c := &caller{gen: newGen(t)}
	c.w.setup = func(p *velty.Planner) {
		registerIdentities(p)
		c.register(p)
	}
	for n := 0; n == 0 || t.More(n, 6, 3); n++ {
		f := &registered{name: fmt.Sprintf("f%s%d", engine.Pick(t, "", "un", "x"), n), ft: signature(t), how: t.Weighted(5, 2, 2, 1)}
		switch f.how {
		case regType:
			if f.ft.NumIn() == 0 || f.ft.IsVariadic() && f.ft.NumIn() == 1 {
				f.how = regPlain
			}
		case regKind:
			f.kind = engine.Pick(t, reflect.Slice, reflect.Map, reflect.String, reflect.Int, reflect.Struct)
			in := []reflect.Type{tAny}
			for t.More(len(in), 4, 1) {
				in = append(in, paramTypes[t.Uint(uint64(len(paramTypes)))])
			}
			f.ft = reflect.FuncOf(in, []reflect.Type{engine.Pick(t, tInt, tString, tBool, reflect.TypeOf([]string{}), tSmall)}, false)
		}
		f.fn = tracedFunc(f.name, f.ft)
		t.Note("%s %v %s", f.name, f.ft, []string{"(plain)", "(standalone)", "(type)", "(kind " + f.kind.String() + ")"}[f.how])
		c.funcs = append(c.funcs, f)
	}
	ix := &Var{name: "ix", rType: tInt, value: reflect.ValueOf(t.Weighted(6, 2, 1))}
	c.w.vars = append(c.w.vars, ix)
	c.vars = append(c.vars, &genVar{name: "ix", rType: tInt, reserved: true})
	c.noIndex = true
	types := []reflect.Type{tBox, reflect.PtrTo(tBox), tAcc, reflect.PtrTo(tAcc), reflect.TypeOf(Word("")), reflect.TypeOf(Num(0)), tNamer, tString, tInt, tFloat, tBool, reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), tSmall, reflect.TypeOf(map[string]int{})}
	for n := 0; n == 0 || t.More(n, 6, 3); n++ {
		rt := types[t.Uint(uint64(len(types)))]
		v := &Var{name: varNames[n], rType: rt, value: c.value(rt)}
		if rt == tNamer {
			v.value = c.namer()
		}
		c.w.vars = append(c.w.vars, v)
		c.vars = append(c.vars, &genVar{name: v.name, rType: rt})
	}
	return c
}

// program makes statements calling the functions.
func (c *caller) program() []Stmt {
	t := c.t
	var body []Stmt
	for n := 0; n == 0 || t.More(n, 6, 2); n++ {
		c.count = 0
		if x := c.anyCall(3, func(reflect.Type) bool { return true }); x != nil {
			body = append(body, c.use(x)...)
		}
		if t.Chance(1, 3) {
			if x := c.set(); x != nil {
				body = append(body, x)
			}
		}
	}
	return body
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C11",
		Rule: "1 to 6 generated functions (the 39 optimised signatures, and random ones of up to 6 parameters and a result of 35 types, variadic, with an error result), registered as plain, standalone, type or kind functions, called with or without receiver; two namespaces; methods on values, pointers, named types and interfaces; " +
			"arguments and receivers are literals, variables, fields, elements, interface values, numbers of other types, nested and chained calls; results are rendered, assigned, used as operands, conditions, in loops and through their fields; " +
			"the trace of all calls with all arguments, the output and all variables are compared with a model; non-trivial: at least 2 calls happened",
		Quick: 100000, Thorough: 4000000,
		Run: func(t *engine.T) {
			c := newCaller(t)
			body := c.program()
			tmpl := printBody(&style{t}, body)
			noteWorld(t, c.w, tmpl)
			e := modelEnv(c.w, body)
			calls = nil
			want := runModel(e, body)
			wantCalls := calls
			if want.discarded != "" || want.panicked {
				t.Class("discarded: " + want.discarded + want.panicWhy)
				return
			}
			calls, retained = nil, nil
			exec, newState := compileOK(t, c.w.planner(t), tmpl)
			if len(calls) != 0 {
				t.Fail("Compile called %v", calls)
			}
			st := newState()
			setVars(t, st, c.w.vars, newCloner())
			checkCalls := func() {
				got, want := strings.Join(calls, "\n"), strings.Join(wantCalls, "\n")
				if got != want {
					t.Fail("calls:\n%s\nwant:\n%s", got, want)
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						checkCalls()
						panic(r)
					}
				}()
				checkRun(t, c.w, e, want, st, exec)
			}()
			checkCalls()
			for _, r := range retained {
				if got := dump(reflect.ValueOf(r.v)); got != r.what {
					t.Fail("a function was called with %s, which turned into %s later", r.what, got)
				}
			}
			c.classes()
			if len(wantCalls) >= 2 {
				t.NonTrivial(tmpl + show(c.w))
			}
		},
	})
}
