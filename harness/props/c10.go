package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty"
	"github.com/viant/velty/functions"
	"velty.verif/harness/engine"
)

// builtin is a function of a namespace with its counterpart.
type builtin struct {
	ns, name string
	fn       interface{} // the counterpart
	args     func(t *engine.T) []interface{}
	rType    reflect.Type
	params   []reflect.Type
}

var fixedNow = time.Date(2024, 2, 29, 23, 59, 58, 987654321, time.FixedZone("", -(5*60+30)*60))

func stringArg(t *engine.T) string {
	switch t.Uint(4) {
	case 0:
		return engine.Pick(t, "", " ", "a", "ab", "aba", "a,b,,c", " a  b\tc\n", "ÀÉß", "İıſ", "ABC abc", "日本語", "xx", "\xff\xfe", "a\u00a0b", "\u2003z\u2003")
	case 1:
		return strings.Repeat(engine.Pick(t, "a", "ab", ",", " ", "é", "A"), t.Int(0, 5)) + engine.Pick(t, "", "b", "ab", ",")
	case 2:
		if t.Chance(1, 20) {
			return strings.Repeat(engine.Pick(t, "a", "ab", ",", " ", "é", "A", "a,", "xB "), size(t, 3, 11)) + engine.Pick(t, "", "b", "ab", ",")
		}
	}
	return genString(t)
}

// part draws a string that is often a part of the other one.
func part(t *engine.T, s string) string {
	switch {
	case t.Chance(1, 5):
		return stringArg(t)
	case len(s) == 0 || t.Chance(1, 8):
		return ""
	}
	switch t.Uint(4) {
	case 0:
		return s[:t.Int(0, len(s))]
	case 1:
		return s[t.Int(0, len(s)):]
	}
	a := t.Int(0, len(s)-1)
	return s[a : a+t.Int(0, min(len(s)-a, 4))]
}

func floatArg(t *engine.T) float64 {
	switch t.Uint(5) {
	case 0:
		return float64(t.Int(-20, 20)) / 4
	case 1:
		return engine.Pick(t, 0.5, 1.5, 2.5, -0.5, -1.5, -2.5, 0.49999999999999994, 1e300, -1e300, 4503599627370497.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1))
	}
	return genFloat(t)
}

func oneString(t *engine.T) []interface{} { return []interface{}{stringArg(t)} }
func twoStrings(t *engine.T) []interface{} {
	s := stringArg(t)
	return []interface{}{s, part(t, s)}
}
func oneFloat(t *engine.T) []interface{}  { return []interface{}{floatArg(t)} }
func twoFloats(t *engine.T) []interface{} { return []interface{}{floatArg(t), floatArg(t)} }
func anyArg(t *engine.T) []interface{}    { return []interface{}{ifaceValue(t)} }

func sliceOf(t *engine.T, elem reflect.Type, least int) reflect.Value {
	n := t.Int(least, 6)
	if t.Chance(1, 6) {
		n = t.Int(7, 24)
	}
	if t.Chance(1, 40) {
		n = size(t, 3, 8)
	}
	v := reflect.MakeSlice(reflect.SliceOf(elem), n, n+engine.Pick(t, 0, 0, 1, n, n+3))
	for i := 0; i < n; i++ {
		v.Index(i).Set(genValue(t, elem, 2))
		if i > 0 && t.Chance(1, 6) {
			v.Index(i).Set(v.Index(t.Int(0, i-1)))
		}
	}
	if n > 2 && t.Chance(1, 3) { // in order, maybe only the first ones
		first := v.Slice(0, engine.Pick(t, n, n, n/2, n-1))
		sort.SliceStable(first.Interface(), func(i, j int) bool { return before(first.Index(i), first.Index(j)) })
	}
	return fillSpare(t, v)
}

func before(x, y reflect.Value) bool {
	switch {
	case x.Kind() == reflect.String:
		return x.String() < y.String()
	case isIntKind(x.Kind()) && x.CanInt():
		return x.Int() < y.Int()
	case isFloatKind(x.Kind()):
		return x.Float() < y.Float()
	}
	return false
}

func elementArgs(elem reflect.Type) func(t *engine.T) []interface{} {
	return func(t *engine.T) []interface{} {
		v := sliceOf(t, elem, 1)
		return []interface{}{v.Interface(), t.Int(0, v.Len()-1)}
	}
}

func sliceArgs(elem reflect.Type) func(t *engine.T) []interface{} {
	return func(t *engine.T) []interface{} { return []interface{}{sliceOf(t, elem, 0).Interface()} }
}

func numeric(kind string) func(t *engine.T) []interface{} {
	return func(t *engine.T) []interface{} {
		if t.Chance(1, 8) {
			return []interface{}{engine.Pick(t, "", "x", "1x", " 1", "99999999999999999999", "-1", "1.5", "0x10", "1e400", "yes", "é")}
		}
		switch kind {
		case "int":
			return []interface{}{engine.Pick(t, "", "+", "0", "-") + strconv.FormatUint(uint64(genInt(t))>>1, 10)}
		case "uint":
			return []interface{}{strconv.FormatUint(uint64(genInt(t)), 10)}
		case "bool":
			return []interface{}{engine.Pick(t, "true", "false", "1", "0", "T", "F", "t", "f", "TRUE", "FALSE", "True", "False", "tRUE")}
		}
		if t.Bool() {
			return []interface{}{engine.Pick(t, "1.5", "-2", ".5", "1e10", "inf", "NaN", "0x1p-2", "1_000", "007", "1e-400", "+3.25")}
		}
		return []interface{}{strconv.FormatFloat(floatArg(t), "efg"[t.Uint(3)], -1, 64)}
	}
}

func reverse[E any](in []E) []E {
	out := make([]E, 0, len(in))
	for i := len(in) - 1; i >= 0; i-- {
		out = append(out, in[i])
	}
	return out
}

func typeTest(kind reflect.Type) func(interface{}) bool {
	return func(i interface{}) bool { return reflect.TypeOf(i) == kind }
}

var builtins = func() []*builtin {
	out := []*builtin{
		{ns: "strings", name: "ToLower", fn: strings.ToLower, args: oneString},
		{ns: "strings", name: "ToUpper", fn: strings.ToUpper, args: oneString},
		{ns: "strings", name: "TrimSpace", fn: strings.TrimSpace, args: oneString},
		{ns: "strings", name: "Fields", fn: strings.Fields, args: oneString},
		{ns: "strings", name: "Length", fn: func(s string) int { return len(s) }, args: oneString},
		{ns: "strings", name: "HasSuffix", fn: strings.HasSuffix, args: twoStrings},
		{ns: "strings", name: "HasPrefix", fn: strings.HasPrefix, args: twoStrings},
		{ns: "strings", name: "Index", fn: strings.Index, args: twoStrings},
		{ns: "strings", name: "LastIndex", fn: strings.LastIndex, args: twoStrings},
		{ns: "strings", name: "Split", fn: strings.Split, args: twoStrings},
		{ns: "strings", name: "Trim", fn: strings.Trim, args: twoStrings},
		{ns: "strings", name: "ReplaceAll", fn: strings.ReplaceAll, args: func(t *engine.T) []interface{} {
			s := stringArg(t)
			return []interface{}{s, part(t, s), stringArg(t)}
		}},
		{ns: "strings", name: "In", fn: func(set []string, s string) bool {
			found := false
			for _, e := range set {
				found = found || e == s
			}
			return found
		},
			args: func(t *engine.T) []interface{} {
				set := sliceOf(t, tString, 0).Interface().([]string)
				s := stringArg(t)
				if len(set) > 0 && t.Bool() {
					s = set[t.Int(0, len(set)-1)]
				}
				return []interface{}{set, s}
			}},
		{ns: "math", name: "Round", fn: math.Round, args: oneFloat},
		{ns: "math", name: "Ceil", fn: math.Ceil, args: oneFloat},
		{ns: "math", name: "Abs", fn: math.Abs, args: oneFloat},
		{ns: "math", name: "Floor", fn: math.Floor, args: oneFloat},
		{ns: "math", name: "Sqrt", fn: math.Sqrt, args: oneFloat},
		{ns: "math", name: "Pow", fn: math.Pow, args: twoFloats},
		{ns: "math", name: "Min", fn: math.Min, args: twoFloats},
		{ns: "math", name: "Max", fn: math.Max, args: twoFloats},
		{ns: "strconv", name: "Itoa", fn: strconv.Itoa, args: func(t *engine.T) []interface{} { return []interface{}{int(genInt(t))} }},
		{ns: "strconv", name: "Atoi", fn: strconv.Atoi, args: numeric("int")},
		{ns: "strconv", name: "ParseFloat", fn: func(s string) (float64, error) { return strconv.ParseFloat(s, 64) }, args: numeric("float")},
		{ns: "strconv", name: "ParseBool", fn: strconv.ParseBool, args: numeric("bool")},
		{ns: "strconv", name: "ParseUint", fn: func(s string) (uint64, error) { return strconv.ParseUint(s, 10, 64) }, args: numeric("uint")},
		{ns: "strconv", name: "AsFloat", fn: func(i interface{}) (float64, error) {
			switch v := reflect.ValueOf(i); {
			case i == nil:
				return 0, nil
			case v.Type() == tString:
				return strconv.ParseFloat(v.String(), 64)
			case v.Type() == tInt:
				return float64(v.Int()), nil
			case v.Type() == tFloat:
				return v.Float(), nil
			}
			return 0, fmt.Errorf("no float")
		}, args: func(t *engine.T) []interface{} {
			if t.Chance(1, 4) {
				return anyArg(t)
			}
			return []interface{}{engine.Pick[interface{}](t, int(genInt(t)), floatArg(t), numeric("float")(t)[0], strconv.Itoa(t.Int(-9, 9)))}
		}},
		{ns: "types", name: "IsInt", fn: typeTest(tInt), args: anyArg},
		{ns: "types", name: "IsFloat64", fn: typeTest(tFloat), args: anyArg},
		{ns: "types", name: "IsString", fn: typeTest(tString), args: anyArg},
		{ns: "types", name: "IsBool", fn: typeTest(tBool), args: anyArg},
		{ns: "slices", name: "StringAt", fn: func(s interface{}, i int) string { return s.([]string)[i] }, args: elementArgs(tString)},
		{ns: "slices", name: "IntAt", fn: func(s interface{}, i int) int { return s.([]int)[i] }, args: elementArgs(tInt)},
		{ns: "slices", name: "BoolAt", fn: func(s interface{}, i int) bool { return s.([]bool)[i] }, args: elementArgs(tBool)},
		{ns: "slices", name: "FloatAt", fn: func(s interface{}, i int) float64 { return s.([]float64)[i] }, args: elementArgs(tFloat)},
		{ns: "slices", name: "ReverseStrings", fn: func(s interface{}) []string { return reverse(s.([]string)) }, args: sliceArgs(tString)},
		{ns: "slices", name: "ReverseFloats", fn: func(s interface{}) []float64 { return reverse(s.([]float64)) }, args: sliceArgs(tFloat)},
		{ns: "slices", name: "ReverseInts", fn: func(s interface{}) []int { return reverse(s.([]int)) }, args: sliceArgs(tInt)},
		{ns: "slices", name: "Length", fn: func(s interface{}) int { return reflect.ValueOf(s).Len() }, args: func(t *engine.T) []interface{} {
			return sliceArgs(engine.Pick(t, tInt, tString, tFloat, tBool, tSmall, reflect.PtrTo(tSmall), tAny, reflect.TypeOf(uint8(0)), tTime, reflect.TypeOf([]int{})))(t)
		}},
		{ns: "time", name: "Now", fn: func() time.Time { return fixedNow }, args: func(*engine.T) []interface{} { return nil }},
	}
	for _, b := range out {
		ft := reflect.TypeOf(b.fn)
		b.rType = ft.Out(0)
		for i := 0; i < ft.NumIn(); i++ {
			b.params = append(b.params, ft.In(i))
		}
	}
	return out
}()

var identities = map[reflect.Type]*pureFunc{}

func init() {
	for _, fn := range []interface{}{func(s string) string { return s }, func(i int) int { return i }, func(f float64) float64 { return f }, func(b bool) bool { return b },
		func(s []string) []string { return s }, func(s []int) []int { return s }, func(s []float64) []float64 { return s }, func(s []bool) []bool { return s }, func(i interface{}) interface{} { return i }} {
		rt := reflect.TypeOf(fn).In(0)
		name := "same" + strings.NewReplacer("[]", "s", " ", "", "{", "", "}", "").Replace(rt.String())
		identities[rt] = &pureFunc{name: name, fn: fn, params: []reflect.Type{rt}, rType: rt}
	}
}

func registerIdentities(p *velty.Planner) {
	registerPure(p)
	for _, f := range identities {
		if err := p.RegisterFunction(f.name, f.fn); err != nil {
			panic(err)
		}
	}
}

// spell makes an expression of the value, to be used as an argument of the parameter type.
func (g *gen) spell(v reflect.Value, param reflect.Type) Expr {
	t := g.t
	if !v.IsValid() { // nil
		return g.newVar(reflect.New(tAny).Elem())
	}
	switch t.Weighted(5, 5, 2, 2, 2, 2, 2, 2, 2) {
	case 0: // a literal
		switch v.Type() {
		case tInt:
			if v.Int() != math.MinInt64 {
				g.feature("literal")
				return intLit(v.Int())
			}
		case tFloat:
			if f := v.Float(); !math.IsNaN(f) && !math.IsInf(f, 0) && !(f == 0 && math.Signbit(f)) && math.Abs(f) < 1e18 {
				if l := floatLit(f); l != nil && l.v.Kind() == reflect.Float64 && l.v.Float() == f {
					g.feature("literal")
					return l
				}
			}
		case tString:
			if s := v.String(); !strings.ContainsAny(s, "\"\\") && !strings.HasPrefix(s, "$") {
				g.feature("literal")
				return strLit(s)
			}
		case tBool:
			g.feature("literal")
			return boolLit(v.Bool())
		}
	case 2: // a field
		fields := []reflect.StructField{{Name: "Pad", Type: engine.Pick(t, tBool, tString, reflect.TypeOf(int8(0)))}, {Name: "Val", Type: v.Type()}, {Name: "End", Type: tBool}}
		s := reflect.New(reflect.StructOf(fields))
		s.Elem().Field(1).Set(v)
		if t.Bool() {
			s = s.Elem()
		}
		g.feature("field")
		r := g.newVar(s)
		r.steps, r.rType = []step{{field: "Val", at: []int{1}}}, v.Type()
		return r
	case 3: // an element
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 3, 3)
		i := t.Int(0, 2)
		s.Index(i).Set(v)
		g.feature("element")
		r := g.newVar(s)
		r.steps, r.rType = []step{{index: intLit(int64(i))}}, v.Type()
		return r
	case 4: // in an interface
		i := reflect.New(tAny).Elem()
		i.Set(v)
		g.feature("interface")
		return g.newVar(i)
	case 5: // an expression
		switch v.Type() {
		case tString:
			s := v.String()
			k := t.Int(0, len(s))
			g.feature("expression")
			return &Bin{op: "+", x: g.newVar(reflect.ValueOf(s[:k])), y: g.newVar(reflect.ValueOf(s[k:])), rType: tString}
		case tInt:
			k := t.Int(-9, 9)
			g.feature("expression")
			return &Bin{op: "-", x: g.newVar(reflect.ValueOf(int(v.Int()) + k)), y: g.newVar(reflect.ValueOf(k)), rType: tInt}
		case tBool:
			g.feature("expression")
			return &Not{g.newVar(reflect.ValueOf(!v.Bool()))}
		}
	case 6: // a call
		if f := identities[v.Type()]; f != nil {
			g.feature("nested call")
			return &Call{name: f.name, fn: reflectCall(f.fn), param: f.params, rType: f.rType, args: []Expr{g.spell(v, f.rType)}}
		}
	case 7: // a number of another type
		if number(v.Type()) && number(param) {
			rt := intTypes[t.Uint(12)]
			if param == tFloat && t.Bool() {
				rt = reflect.TypeOf(float32(0))
			}
			if f := v.Convert(tFloat).Float(); math.IsNaN(f) || math.Abs(f) > 1<<62 || f != math.Trunc(f) && isIntKind(rt.Kind()) {
				break
			}
			if c := v.Convert(rt); c.Convert(v.Type()).Equal(v) {
				if v.Type() == tFloat && v.Float() == 0 && math.Signbit(v.Float()) {
					break
				}
				g.feature("other number type")
				return g.newVar(c)
			}
		}
	}
	return g.newVar(v)
}

// builtinCall calls the function with random arguments.
func (g *gen) builtinCall(b *builtin, depth int) *Call {
	t := g.t
	c := &Call{ns: b.ns, name: b.name, fn: reflectCall(b.fn), param: b.params, rType: b.rType}
	for i, a := range b.args(t) {
		if depth > 0 && t.Chance(1, 5) && b.ns != "slices" {
			var fit []*builtin
			for _, n := range builtins {
				if n.rType == b.params[i] {
					fit = append(fit, n)
				}
			}
			if len(fit) > 0 {
				g.feature("nested builtin")
				c.args = append(c.args, g.builtinCall(fit[t.Uint(uint64(len(fit)))], depth-1))
				continue
			}
		}
		c.args = append(c.args, g.spell(reflect.ValueOf(a), b.params[i]))
	}
	g.feature(b.ns + "." + b.name)
	return c
}

func init() {
	functions.Now = func() time.Time { return fixedNow }
	engine.Register(&engine.Prop{
		ID: "C10",
		Rule: "1 to 6 calls of the 40 functions of the strings, math, strconv, slices, types and time namespaces with values made to matter (substrings of each other, numbers as text, halves, infinities, mixed types), " +
			"spelled as literals, variables, fields, elements, interface values, expressions, numbers of another type, nested calls; rendered, assigned, looped over, in conditions and expressions; output and variables are compared with the Go standard library's results; non-trivial: every case with a call",
		Quick: 120000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.w.setup = registerIdentities
			var body []Stmt
			for n := 0; n == 0 || t.More(n, 6, 2); n++ {
				b := builtins[t.Uint(uint64(len(builtins)))]
				c := g.builtinCall(b, 2)
				name := g.freshName()
				switch k := t.Weighted(3, 3, 2, 2); {
				case k == 0 && b.rType.Kind() != reflect.Slice:
					body = append(body, &Render{c}, &Text{"|"})
				case k == 2 && b.rType == tBool:
					body = append(body, &If{branches: []Branch{{c, []Stmt{&Text{"yes"}}}}, els: []Stmt{&Text{"no"}}, hasElse: true})
				case k == 2 && isBasic(b.rType):
					body = append(body, &If{branches: []Branch{{&Bin{op: "==", x: c, y: g.literal(b.rType), rType: tBool}, []Stmt{&Text{"yes"}}}}, els: []Stmt{&Text{"no"}}, hasElse: true})
				case k == 3 && (b.rType == tInt || b.rType == tFloat):
					body = append(body, &Set{&Ref{root: name, rType: b.rType}, &Bin{op: "+", x: c, y: intLit(1), rType: b.rType}})
				case k == 3 && b.rType == tString:
					body = append(body, &Set{&Ref{root: name, rType: b.rType}, &Bin{op: "+", x: strLit("<"), y: c, rType: tString}})
				default:
					r := &Ref{root: name, rType: b.rType}
					body = append(body, &Set{r, c})
					if b.rType.Kind() == reflect.Slice {
						item := g.freshName()
						body = append(body, &Foreach{item: item, src: r, body: []Stmt{&Render{&Ref{root: item, rType: b.rType.Elem()}}, &Text{";"}}})
					} else {
						body = append(body, &Render{r})
					}
				}
			}
			tmpl := printBody(&style{t}, body)
			o := check(t, g.w, body, tmpl)
			g.classes()
			if o.discarded == "" && !o.panicked {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}
