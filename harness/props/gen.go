package props

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

// ---- shapes: the paths a type offers ----

type stepShape struct {
	field string
	at    []int
	index bool
	key   bool
	ptr   bool // to a pointer
}

type shape struct {
	steps []stepShape
	rType reflect.Type
}

func (s shape) indexed() bool {
	for _, st := range s.steps {
		if st.index {
			return true
		}
	}
	return false
}

var shapeCache sync.Map

// shapesOf lists all paths into a type of up to depth steps.
func shapesOf(t reflect.Type, depth int) []shape {
	type ck struct {
		t reflect.Type
		d int
	}
	// types made at run time are many, and seldom met again
	cached := depth <= 4 || deref(t).Kind() != reflect.Struct || deref(t).Name() != ""
	if v, ok := shapeCache.Load(ck{t, depth}); ok {
		return v.([]shape)
	}
	out := []shape{{nil, t}}
	if depth > 0 {
		add := func(s stepShape, t reflect.Type) {
			s.ptr = t.Kind() == reflect.Ptr
			for _, sub := range shapesOf(t, depth-1) {
				out = append(out, shape{append([]stepShape{s}, sub.steps...), sub.rType})
			}
		}
		e := t
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		switch {
		case e.Kind() == reflect.Struct && e != tTime:
			for _, f := range promoted(e) {
				add(stepShape{field: f.name, at: f.at}, f.rType)
			}
		case t.Kind() == reflect.Slice:
			add(stepShape{index: true}, t.Elem())
		case t.Kind() == reflect.Map:
			add(stepShape{key: true}, t.Elem())
		}
	}
	if cached {
		shapeCache.Store(ck{t, depth}, out)
	}
	return out
}

type namedField struct {
	name  string // in templates
	at    []int
	rType reflect.Type
}

// promoted lists the fields that can be named on a struct, those of embedded structs included.
func promoted(t reflect.Type) []namedField { return promotedAt(t, "", nil) }

func promotedAt(t reflect.Type, prefix string, at []int) []namedField {
	var out []namedField
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		names, inner, omit := tagOf(f)
		here := append(append([]int{}, at...), i)
		switch {
		case omit || f.PkgPath != "" && !(f.Anonymous && f.Type.Kind() == reflect.Struct):
		case f.Anonymous && deref(f.Type).Kind() == reflect.Struct:
			out = append(out, promotedAt(deref(f.Type), prefix+inner, here)...)
		default:
			for _, name := range names {
				out = append(out, namedField{prefix + name, here, f.Type})
			}
		}
	}
	return out
}

// tagOf tells the template names, the prefix of promoted names, and whether the field is left out.
func tagOf(f reflect.StructField) (names []string, prefix string, omit bool) {
	names = []string{f.Name}
	for i, part := range strings.Split(f.Tag.Get("velty"), ",") {
		k, v, assigned := strings.Cut(part, "=")
		k, v = strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(v)
		if !assigned {
			k = strings.TrimSpace(part)
		}
		switch {
		case k == "-":
			omit = true
		case k == "prefix":
			prefix = v
		case k == "name" || k == "names":
			names = strings.Split(v, "|")
		case !assigned && i == 0 && k != "":
			names = strings.Split(k, "|")
		}
	}
	return names, prefix, omit
}

// ---- generator of programs ----

type genVar struct {
	name     string
	rType    reflect.Type
	reserved bool // never assigned by the program (loop counters, indexes)
	loop     bool // its loop is being made
	embedded bool // a field of an embedded variable
}

type gen struct {
	t        *engine.T
	w        *World
	vars     []*genVar // in scope, in text order
	fresh    int
	local    int // names are taken again by other templates
	budget   int // statements left
	maxDepth int
	noSet    bool
	calls    bool
	evals    bool
	sized    bool // use fields of other widths in expressions
	features map[string]bool
	textFn   func() Stmt    // replaces plain text
	textW    int            // weight of text
	evalW    int            // weight of #evaluate
	funcs    []*pureFunc    // callable functions; nil: pureFuncs
	types    []reflect.Type // of variables; nil: worldTypes
	broken   bool           // a path was made that panics
	ranged   string         // the last range
	longB    int            // one of how many blocks is long
	largeIn  int            // one of how many programs has something big
	enlarges bool           // and this one has
	large    []Stmt         // statements about it, to be placed
	noIndex  bool           // no slice elements
	embeds   bool           // may embed variables
	ptrs     bool           // pointers as operands
}

var varNames = []string{"a", "b", "ab", "Ab", "x", "x1", "item", "Item_2", "name", "node", "Node", "value", "foo_bar", "q", "list", "List", "z9", "w", "m", "data"}

// identifier draws a name of a variable.
func identifier(t *engine.T) string {
	switch t.Weighted(12, 2, 1) {
	case 1:
		const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
		name := []byte{letters[t.Uint(52)]}
		for t.More(len(name), 20, 3) {
			name = append(name, (letters + "_0123456789")[t.Uint(63)])
		}
		if s := string(name); !taken[s] && !strings.HasPrefix(s, "Emb") && !taken[s[:1]] && !strings.Contains(s, "___") {
			return s
		}
	case 2:
		return engine.Pick(t, "end", "else", "if", "set", "foreach", "for", "evaluate", "elseif", "true", "false", "nil", "null", "in", "len", "A", "Z", "AZ", "zZ", "Zone", "a_", "a__b", "X_1_", "state", "Buffer", "Mem", "string", "T", "E")
	}
	return engine.Pick(t, varNames...)
}

// taken lists names used otherwise: functions, namespaces, made up variables (v1, i0 …).
var taken = map[string]bool{"v": true, "i": true, "r": true, "u": true, "e": true, "ix": true, "k": true, "t": true,
	"who": true, "whom": true, "see": true, "ws": true, "many": true, "cat": true, "half": true, "mean": true, "zero": true, "flip": true, "addi": true, "json": true, "maps": true, "math": true, "time": true, "same": true, "types": true, "slices": true, "quote": true, "fail": true, "T0": true, "T1": true, "T2": true, "T3": true}

var worldTypes = []reflect.Type{tInt, tFloat, tString, tBool, tSmall, tLeaf, tNode, reflect.PtrTo(tSmall), reflect.PtrTo(tLeaf), reflect.PtrTo(tNode),
	reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]Small{}), reflect.TypeOf([]*Small{}),
	reflect.TypeOf(map[string]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[string]Small{}), reflect.TypeOf([][]int{}),
	tInt, tString, tBool, tFloat, tNode, reflect.PtrTo(tNode), reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float32(0))}

func newGen(t *engine.T) *gen {
	g := &gen{t: t, w: &World{bufSize: -1}, features: map[string]bool{}, embeds: true, budget: 14, maxDepth: 3, sized: true, textW: 5, longB: 60, largeIn: 60}
	g.w.setup = registerPure
	g.w.stop = t.Chance(1, 10)
	return g
}

// world draws options and variables.
func (g *gen) world(max int) {
	t := g.t
	g.w.escape = t.Chance(1, 4)
	if t.Chance(1, 3) {
		g.w.bufSize = engine.Pick(t, 0, 1, 2, 7, 64, 1024)
	}
	names := append([]string{}, varNames...)
	used := map[string]bool{}
	n := 1
	for t.More(n, max, 5) {
		n++
	}
	types := g.types
	if types == nil {
		types = worldTypes
	}
	for i := 0; i < n; i++ {
		k := t.Int(0, len(names)-1)
		name := names[k]
		names = append(names[:k], names[k+1:]...)
		if other := identifier(t); !used[other] {
			name = other
			for k, n := range names {
				if n == name {
					names = append(names[:k], names[k+1:]...)
					break
				}
			}
		}
		used[name] = true
		v := &Var{name: name, rType: types[t.Uint(uint64(len(types)))]}
		v.unset = t.Chance(1, 8)
		v.value = genValue(t, v.rType, 4)
		g.w.vars = append(g.w.vars, v)
		g.vars = append(g.vars, &genVar{name: name, rType: v.rType})
		for len(names) > 1 && t.Chance(1, 12) {
			k := t.Int(0, len(names)-1)
			v.also = append(v.also, names[k])
			used[names[k]] = true
			g.vars = append(g.vars, &genVar{name: names[k], rType: v.rType})
			names = append(names[:k], names[k+1:]...)
			g.feature("more names")
		}
	}
	if g.embeds && t.Chance(1, 3) {
		g.embed(tEmb)
	}
	if g.embeds && t.Chance(1, 3) {
		g.embed(tEmbPtr)
	}
	if g.embeds && t.Chance(1, 20) {
		g.embed(engine.Pick(t, genericTypes...))
	}
	g.share()
	// small numbers for indexes
	ix := &Var{name: "ix", rType: tInt, value: reflect.ValueOf(t.Weighted(6, 2, 1))}
	g.w.vars = append(g.w.vars, ix)
	g.vars = append(g.vars, &genVar{name: "ix", rType: tInt, reserved: true})
	if g.largeIn > 0 && t.Chance(1, g.largeIn) {
		g.enlarges = true
	}
}

func (g *gen) embed(rType reflect.Type) {
	v := &Var{name: embeddedName(rType), rType: rType, embed: true, unset: g.t.Chance(1, 8)}
	v.value = genValue(g.t, rType, 4)
	g.w.vars = append(g.w.vars, v)
	g.feature("embedded")
	for _, f := range promoted(deref(rType)) {
		g.vars = append(g.vars, &genVar{name: f.name, rType: f.rType, embedded: true})
	}
}

// share makes pointers of equal type point to the same value sometimes.
func (g *gen) share() {
	byType := map[reflect.Type]reflect.Value{}
	for _, v := range g.w.vars {
		if v.rType.Kind() != reflect.Ptr || v.value.IsNil() {
			continue
		}
		if p, ok := byType[v.rType]; ok && g.t.Chance(1, 3) {
			v.value = p
			continue
		}
		byType[v.rType] = v.value
	}
	for _, v := range g.w.vars {
		if v.rType != reflect.PtrTo(tNode) || v.value.IsNil() {
			continue
		}
		n := v.value.Interface().(*Node)
		if p, ok := byType[reflect.PtrTo(tLeaf)]; ok && g.t.Chance(1, 3) {
			n.P = p.Interface().(*Leaf)
		}
		if p, ok := byType[reflect.PtrTo(tSmall)]; ok && g.t.Chance(1, 3) {
			n.PSm = p.Interface().(*Small)
		}
	}
}

func (g *gen) feature(name string) { g.features[name] = true }

// ref draws a path of a type accepted by ok, or returns nil.
func (g *gen) ref(depth int, ok func(v *genVar, s shape) bool) *Ref {
	type cand struct {
		v *genVar
		s shape
	}
	// variables first, so that long candidate lists of big structs don't drown them
	var byVar [][]cand
	for _, v := range g.vars {
		var cs []cand
		for _, s := range shapesOf(v.rType, depth) {
			if g.noIndex && s.indexed() {
				continue
			}
			if ok(v, s) {
				cs = append(cs, cand{v, s})
			}
		}
		if len(cs) > 0 {
			byVar = append(byVar, cs)
		}
	}
	if len(byVar) == 0 {
		return nil
	}
	cs := byVar[g.t.Uint(uint64(len(byVar)))]
	c := cs[g.t.Uint(uint64(len(cs)))]
	return g.instantiate(c.v, c.s)
}

func (g *gen) instantiate(v *genVar, s shape) *Ref {
	r := &Ref{root: v.name, rType: s.rType}
	t := v.rType
	for _, ss := range s.steps {
		t = derefOnce(t)
		st := step{field: ss.field, at: ss.at}
		switch {
		case ss.index:
			st.field = ""
			st.index = g.index()
			t = t.Elem()
			g.feature("index")
		case ss.key:
			st.field = ""
			st.key = g.key(t.Key())
			t = t.Elem()
			g.feature("key")
		default:
			t = typeAt(t, ss.at)
			g.feature("field")
		}
		r.steps = append(r.steps, st)
	}
	return r
}

func typeAt(t reflect.Type, at []int) reflect.Type {
	for _, i := range at {
		t = deref(t).Field(i).Type
	}
	return t
}

func derefOnce(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.Ptr {
		return t.Elem()
	}
	return t
}

func (g *gen) index() Expr {
	if g.funcs != nil && g.t.Chance(1, 4) {
		for _, f := range g.funcs {
			if f.name == "ei" {
				g.feature("call in index")
				return &Call{name: f.name, fn: reflectCall(f.fn), param: f.params, rType: tInt, args: []Expr{intLit(int64(g.t.Weighted(16, 5, 2, 1)))}}
			}
		}
	}
	switch g.t.Weighted(5, 3, 1) {
	case 0:
		return intLit(int64(g.t.Weighted(16, 5, 2, 1)))
	case 1:
		for _, v := range g.vars {
			if v.loop && v.rType == tInt && g.t.Bool() {
				return &Ref{root: v.name, rType: tInt}
			}
		}
		return &Ref{root: "ix", rType: tInt}
	}
	return &Bin{op: "-", x: &Ref{root: "ix", rType: tInt}, y: intLit(int64(g.t.Int(0, 1))), rType: tInt}
}

func (g *gen) key(t reflect.Type) Expr {
	if t.Kind() == reflect.String {
		k := engine.Pick(g.t, mapKeys[:4]...)
		return &Lit{reflect.ValueOf(k), "\"" + k + "\""}
	}
	return intLit(int64(g.t.Int(0, 3)))
}

func intLit(v int64) *Lit { return &Lit{reflect.ValueOf(int(v)), strconv.FormatInt(v, 10)} }

func floatLit(f float64) *Lit {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return &Lit{reflect.ValueOf(f), s}
}

// zeros sometimes writes zeros around a number that don't change it.
func (g *gen) zeros(l *Lit) *Lit {
	if g.t.Chance(1, 12) {
		g.feature("zeros around a literal")
		zeros := strings.Repeat("0", g.t.Int(1, 3))
		digits := strings.TrimPrefix(l.text, "-")
		l.text = l.text[:len(l.text)-len(digits)] + zeros + digits
	}
	if l.v.Kind() == reflect.Float64 && g.t.Chance(1, 12) {
		l.text += strings.Repeat("0", g.t.Int(1, 3))
	}
	return l
}

func strLit(s string) *Lit { return &Lit{reflect.ValueOf(s), "\"" + s + "\""} }

func boolLit(b bool) *Lit { return &Lit{reflect.ValueOf(b), strconv.FormatBool(b)} }

func (g *gen) literal(rType reflect.Type) *Lit {
	switch rType {
	case tInt:
		v := genInt(g.t)
		if v == -1<<63 {
			v++
		}
		return g.zeros(intLit(v))
	case tFloat:
		f := float64(g.t.Int(0, 200)-40) / 8
		switch g.t.Weighted(5, 2, 2, 1) {
		case 1: // many digits
			f = float64(g.t.Int(0, 1<<30)-1<<29) / float64(engine.Pick(g.t, 3, 7, 10, 1000, 1<<20))
		case 2:
			f = genFloat(g.t)
		case 3:
			f = engine.Pick(g.t, 0.1, 0.2, 0.3, 16777217, 9007199254740993, 1e21, 1e300, 1e-300, 5e-324, math.MaxFloat64, math.MaxFloat32, 0.1+0.2)
		}
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0.5
		}
		return g.zeros(floatLit(f))
	case tString:
		return strLit(genLiteralString(g.t))
	}
	return boolLit(g.t.Bool())
}

func exact(rType reflect.Type) func(*genVar, shape) bool {
	return func(_ *genVar, s shape) bool { return s.rType == rType }
}

// operand draws a literal, a reference or a call of the given basic type.
func (g *gen) operand(rType reflect.Type, depth int) Expr {
	switch g.t.Weighted(3, 6, g.callWeight(depth)) {
	case 1:
		if r := g.ref(3, exact(rType)); r != nil {
			return r
		}
	case 2:
		if c := g.call(rType, depth); c != nil {
			g.feature("call")
			return c
		}
	}
	return g.literal(rType)
}

func (g *gen) callWeight(depth int) int {
	if g.calls && depth > 0 {
		return 2
	}
	return 0
}

// expr draws an expression of one of the four basic types.
func (g *gen) expr(rType reflect.Type, depth int) Expr {
	t := g.t
	if depth <= 0 || !t.Chance(2, 3) {
		return g.operand(rType, depth)
	}
	switch rType {
	case tInt:
		op := engine.Pick(t, "+", "-", "*", "+", "-", "/")
		g.feature(op)
		x := g.expr(tInt, depth-1)
		y := g.expr(tInt, depth-1)
		if op == "/" {
			n := int64(t.Int(1, 9))
			if t.Chance(1, 4) {
				n = -n
			}
			y = intLit(n)
		}
		return g.widen(&Bin{op: op, x: x, y: y})
	case tFloat:
		op := engine.Pick(t, "+", "-", "*", "/")
		g.feature(op)
		x, y := g.expr(tFloat, depth-1), g.expr(tFloat, depth-1)
		switch t.Weighted(4, 1, 1) { // an integer meets a float
		case 1:
			x = g.expr(tInt, depth-1)
			g.feature("mixed")
		case 2:
			y = g.expr(tInt, depth-1)
			g.feature("mixed")
		}
		return g.widen(&Bin{op: op, x: x, y: y})
	case tString:
		g.feature("concat")
		return g.pointers(g.mixString(&Bin{op: "+", x: g.expr(tString, depth-1), y: g.expr(tString, depth-1), rType: tString}, depth))
	}
	switch t.Weighted(4, 3, 2, 2) {
	case 0:
		op := engine.Pick(t, "==", "!=", "<", "<=", ">", ">=")
		g.feature(op)
		k := engine.Pick(t, tInt, tInt, tFloat)
		x, y := g.expr(k, depth-1), g.expr(k, depth-1)
		if t.Chance(1, 5) {
			y = g.expr(engine.Pick(t, tInt, tFloat), depth-1)
			g.feature("mixed")
		}
		return g.widen(&Bin{op: op, x: x, y: y})
	case 1:
		op := engine.Pick(t, "&&", "||")
		g.feature(op)
		return g.pointers(&Bin{op: op, x: g.expr(tBool, depth-1), y: g.expr(tBool, depth-1), rType: tBool})
	case 2:
		g.feature("!")
		return &Not{g.expr(tBool, depth-1)}
	}
	op := engine.Pick(t, "==", "!=")
	g.feature(op + "s")
	k := engine.Pick(t, tString, tString, tBool)
	b := &Bin{op: op, x: g.expr(k, depth-1), y: g.expr(k, depth-1), rType: tBool}
	if k == tString {
		b = g.mixString(b, depth)
	}
	return g.pointers(b)
}

// mixString lets a string meet a value of another type now and then.
func (g *gen) mixString(b *Bin, depth int) *Bin {
	if !g.sized || !g.t.Chance(1, 6) {
		return b
	}
	var z Expr
	switch g.t.Weighted(3, 2, 1, 2) {
	case 0:
		z = g.expr(tInt, depth-1)
	case 1:
		z = g.expr(tFloat, depth-1)
	case 2:
		z = g.expr(tBool, depth-1)
	case 3:
		if r := g.ref(3, func(_ *genVar, s shape) bool { return sizedNumber(s.rType) || b.op == "+" && s.rType == tTime }); r != nil {
			z = r
			break
		}
		return b
	}
	g.feature("string meets " + z.typ().String())
	if g.t.Bool() {
		b.x = z
	} else {
		b.y = z
	}
	return b
}

// pointers replaces an operand by a pointer to such a value now and then.
func (g *gen) pointers(b *Bin) *Bin {
	if g.ptrs && g.t.Chance(1, 5) {
		x, y := &b.x, &b.y
		if g.t.Bool() {
			x, y = y, x
		}
		if (*y).typ().Kind() == reflect.Ptr {
			return b
		}
		want := reflect.PtrTo((*x).typ())
		if r := g.ref(3, exact(want)); r != nil {
			g.feature("pointer operand")
			*x = r
		}
	}
	return b
}

// widen replaces one operand by a field of another width now and then.
func (g *gen) widen(b *Bin) *Bin {
	if g.sized && b.op != "/" && g.t.Chance(1, 8) {
		if r := g.ref(3, func(_ *genVar, s shape) bool { return sizedNumber(s.rType) }); r != nil {
			g.feature("sized")
			if g.t.Bool() {
				b.x = r
			} else {
				b.y = r
			}
		}
	}
	b.rType = resultType(b.op, b.x.typ(), b.y.typ())
	return g.pointers(b)
}

func sizedNumber(t reflect.Type) bool {
	return (isIntKind(t.Kind()) || isFloatKind(t.Kind())) && t != tInt && t != tFloat && t.Kind() != reflect.Uintptr
}

// ---- functions ----

type pureFunc struct {
	ns     string
	recv   string // variable to call it on
	self   bool   // the function gets the receiver as its first argument
	name   string
	fn     interface{}
	params []reflect.Type
	rType  reflect.Type
}

var pureFuncs = func() []*pureFunc {
	fns := map[string]interface{}{
		"addi":  func(x, y int) int { return x + y },
		"inc":   func(x int) int { return x + 1 },
		"cat":   func(x, y string) string { return x + "+" + y },
		"quote": func(x string) string { return "<" + x + ">" },
		"half":  func(x float64) float64 { return x / 2 },
		"mean":  func(x, y float64) float64 { return x + y },
		"toi":   func(s string, b bool) int { return len(s) },
		"tos":   func(i int) string { return strconv.Itoa(i) },
		"flip":  func(b bool) bool { return !b },
		"isbig": func(i int, f float64) bool { return float64(i) > f },
		"show3": func(s string, i int, b bool) string { return fmt.Sprint(s, i, b) },
		"zero":  func() int { return 7 },
	}
	var out []*pureFunc
	for _, name := range []string{"addi", "inc", "cat", "quote", "half", "mean", "toi", "tos", "flip", "isbig", "show3", "zero"} {
		ft := reflect.TypeOf(fns[name])
		f := &pureFunc{name: name, fn: fns[name], rType: ft.Out(0)}
		for i := 0; i < ft.NumIn(); i++ {
			f.params = append(f.params, ft.In(i))
		}
		out = append(out, f)
	}
	return out
}()

func registerPure(p *velty.Planner) {
	for _, f := range pureFuncs {
		if err := p.RegisterFunction(f.name, f.fn); err != nil {
			panic(err)
		}
	}
}

func reflectCall(fn interface{}) func([]reflect.Value) (reflect.Value, error) {
	v := reflect.ValueOf(fn)
	return func(args []reflect.Value) (reflect.Value, error) {
		out := v.Call(args)
		if len(out) == 2 {
			err, _ := out[1].Interface().(error)
			return out[0], err
		}
		return out[0], nil
	}
}

func (g *gen) call(rType reflect.Type, depth int) Expr {
	var cs []*pureFunc
	funcs := g.funcs
	if funcs == nil {
		funcs = pureFuncs
	}
	for _, f := range funcs {
		if f.rType == rType {
			cs = append(cs, f)
		}
	}
	if len(cs) == 0 {
		return nil
	}
	f := cs[g.t.Uint(uint64(len(cs)))]
	c := &Call{ns: f.ns, name: f.name, fn: reflectCall(f.fn), param: f.params, rType: rType}
	if f.recv != "" {
		for _, v := range g.w.vars {
			if v.name == f.recv {
				c.recv = &Ref{root: f.recv, rType: v.rType}
			}
		}
	}
	for _, p := range f.params {
		if isBasic(p) {
			c.args = append(c.args, g.expr(p, depth-1))
			continue
		}
		r := g.ref(3, exact(p))
		if r == nil {
			return nil
		}
		c.args = append(c.args, r)
	}
	return c
}

// ---- statements ----

var plainText = []string{"a", "text", " ", "\n", ".", ", ", "-", "<b>", "&", "'", "\"", "(", ")", "[1]", "{", "}", ";", "!", "=", "|", "é", "10", "_", "$ ", "# x", "$1", "\t", "en", "fi", ".x", "\\"}

func (g *gen) text() string {
	var b strings.Builder
	for n := 0; n == 0 || g.t.More(n, 5, 1); n++ {
		b.WriteString(engine.Pick(g.t, plainText...))
	}
	s := b.String()
	// "$" and "#" are always followed by something that doesn't make them a reference or directive, here
	for strings.HasSuffix(s, "$") || strings.HasSuffix(s, "#") {
		s += " "
	}
	return s
}

func (g *gen) stmts(depth int) []Stmt {
	out := g.takeLarge()
	if g.longB > 0 && g.t.Chance(1, g.longB) {
		out = append(out, g.longBlock()...)
	}
	for n := 0; g.budget > 0 && g.t.More(n, 14, 3); n++ {
		g.budget--
		if s := g.stmt(depth); s != nil {
			out = append(out, s)
		}
	}
	return out
}

// longBlock makes a block of many small statements.
func (g *gen) longBlock() []Stmt {
	out := g.blockOf(g.t.Int(1, 50))
	if len(out) > 16 {
		g.feature("long block")
	}
	return out
}

func (g *gen) blockOf(n int) []Stmt {
	var out []Stmt
	t := g.t
	for ; n > 0; n-- {
		var s Stmt
		switch t.Weighted(3, 3, 1) {
		case 0:
			s = &Text{"<" + strconv.Itoa(n) + ">"}
		case 1:
			s = g.render()
		case 2:
			if !g.noSet {
				s = g.set()
			}
		}
		if s != nil {
			out = append(out, s)
		}
	}
	return out
}

// deep nests the body in many conditionals and loops of one round.
func (g *gen) deep(body []Stmt) []Stmt {
	g.feature("deep nesting")
	t := g.t
	for n := t.Int(4, 40); n > 0; n-- {
		mostly := boolLit(!t.Chance(1, 40))
		var s Stmt
		switch t.Weighted(3, 2, 2, 1) {
		case 0:
			s = &If{branches: []Branch{{mostly, body}}}
		case 1:
			s = &If{branches: []Branch{{boolLit(!mostly.v.Bool()), []Stmt{&Text{"y"}}}}, hasElse: true, els: body}
		case 2:
			s = &Foreach{item: g.freshName(), a: n, b: n + 1, body: body}
			if t.Chance(1, 30) {
				s.(*Foreach).b = n + 2*t.Int(0, 1)
			}
		case 3: // a long chain
			chain := &If{}
			at := t.Int(0, 20)
			for k := 0; k <= at; k++ {
				chain.branches = append(chain.branches, Branch{&Bin{"==", intLit(int64(at)), intLit(int64(k)), tBool}, []Stmt{&Text{"c" + strconv.Itoa(k)}}})
			}
			chain.branches[at].body = body
			if t.Bool() {
				chain.hasElse, chain.els = true, []Stmt{&Text{"no"}}
			}
			s = chain
		}
		body = []Stmt{s}
		if t.Chance(1, 4) {
			body = append(body, &Text{";" + strconv.Itoa(n)})
		}
	}
	return body
}

func (g *gen) stmt(depth int) Stmt {
	t := g.t
	nested, set := 2, 4
	if depth <= 0 {
		nested = 0
	}
	if g.noSet {
		set = 0
	}
	switch t.Weighted(g.textW, 6, set, nested*2, nested, nested, 1, g.evalW) {
	case 1:
		return g.render()
	case 2:
		return g.set()
	case 3:
		return g.ifStmt(depth)
	case 4:
		return g.foreach(depth)
	case 5:
		return g.forStmt(depth)
	case 6:
		switch t.Weighted(1, 1) {
		case 0:
			s := strings.NewReplacer("[", "<", "]", ">", "\\", "/").Replace(genString(t))
			g.feature("raw")
			return &Raw{s}
		}
		g.feature("comment")
		return &Comment{commentText(t)}
	case 7:
		if depth > 0 {
			return g.evaluate(depth - 1)
		}
	}
	return g.textStmt()
}

// evaluate makes a variable hold a template, and evaluates it.
func (g *gen) evaluate(depth int) Stmt {
	n := len(g.vars)
	evalW := g.evalW
	g.evalW /= 2
	body := g.stmts(depth)
	g.evalW = evalW
	g.vars = g.vars[:n]
	g.feature("evaluate")
	return &Evaluate{g.textVar(printBody(&style{g.t}, body)), body}
}

// textVar defines a variable holding the text.
func (g *gen) textVar(s string) *Ref {
	v := &Var{name: g.globalName(), rType: tString, value: reflect.ValueOf(s)}
	g.w.vars = append(g.w.vars, v)
	return &Ref{root: v.name, rType: tString}
}

func (g *gen) textStmt() Stmt {
	if g.textFn != nil {
		return g.textFn()
	}
	return &Text{g.text()}
}

func (g *gen) render() Stmt {
	if g.calls && g.t.Chance(1, 4) {
		if c := g.call(engine.Pick(g.t, tInt, tString, tFloat, tBool), 2); c != nil {
			g.feature("render call")
			return &Render{c}
		}
	}
	basic := g.t.Chance(3, 4)
	r := g.ref(4, func(_ *genVar, s shape) bool {
		if basic {
			return isBasic(s.rType)
		}
		return true
	})
	if r == nil {
		r = g.ref(4, func(*genVar, shape) bool { return true })
	}
	if r == nil {
		return g.textStmt()
	}
	g.feature("render")
	return &Render{r}
}

func isBasic(t reflect.Type) bool { return t == tInt || t == tFloat || t == tString || t == tBool }

func (g *gen) assignable(v *genVar, s shape) bool {
	if v.reserved {
		return false
	}
	part := false // of an element of a map
	for i, st := range s.steps {
		if part = !st.index && (part || st.key); st.ptr && i < len(s.steps)-1 {
			part = false
		}
	}
	return !part
}

func (g *gen) freshName() string {
	if g.local > 0 {
		g.local++
		return "vt" + strconv.Itoa(g.local)
	}
	return g.globalName()
}

func (g *gen) globalName() string {
	g.fresh++
	return "v" + strconv.Itoa(g.fresh)
}

func (g *gen) set() Stmt {
	t := g.t
	g.feature("set")
	if t.Chance(1, 3) { // a new variable
		rType := engine.Pick(t, tInt, tFloat, tString, tBool)
		var x Expr
		if t.Chance(1, 4) {
			if r := g.ref(3, func(_ *genVar, s shape) bool { return s.rType != tAny }); r != nil {
				x, rType = r, r.rType
			}
		}
		if x == nil {
			x = g.expr(rType, 3)
			rType = x.typ()
		}
		v := &genVar{name: g.freshName(), rType: rType}
		g.vars = append(g.vars, v)
		g.feature("new variable")
		return &Set{&Ref{root: v.name, rType: rType}, x}
	}
	basic := t.Chance(3, 4)
	target := g.ref(3, func(v *genVar, s shape) bool {
		return g.assignable(v, s) && s.rType != tAny && (!basic || isBasic(s.rType))
	})
	if target == nil {
		return nil
	}
	var x Expr
	tt := target.rType
	switch {
	case tt == tInt || tt == tFloat:
		x = g.expr(engine.Pick(t, tt, tt, tt, tInt, tFloat), 3)
	case isBasic(tt):
		x = g.expr(tt, 3)
	case isIntKind(tt.Kind()):
		x = g.expr(tInt, 2)
	case tt.Kind() == reflect.Float32:
		x = g.expr(tFloat, 2)
	default:
		r := g.ref(3, exact(tt))
		if r == nil {
			return nil
		}
		x = r
	}
	if len(target.steps) > 0 {
		g.feature("set field")
	}
	if bad := badConversion(x.typ(), tt); bad {
		x = g.literal(tInt)
	}
	return &Set{target, x}
}

func badConversion(from, to reflect.Type) bool {
	return isFloatKind(from.Kind()) && isIntKind(to.Kind()) // out of range conversions are not specified by Go
}

func (g *gen) cond() Expr {
	if g.t.Chance(1, 5) {
		r := g.ref(3, func(_ *genVar, s shape) bool {
			k := s.rType.Kind()
			return s.rType == tInt || s.rType == tFloat || s.rType == tString || k == reflect.Slice || k == reflect.Ptr && s.rType.Elem().Kind() == reflect.Struct
		})
		if r != nil {
			g.feature("non-bool condition")
			return r
		}
	}
	return g.expr(tBool, 3)
}

func (g *gen) ifStmt(depth int) Stmt {
	s := &If{}
	g.feature("if")
	for n := 0; n == 0 || g.t.More(n, 5, 1); n++ {
		if n > 0 {
			g.feature("elseif")
		}
		s.branches = append(s.branches, Branch{g.cond(), g.stmts(depth - 1)})
	}
	if g.t.Bool() {
		g.feature("else")
		s.hasElse = true
		s.els = g.stmts(depth - 1)
	}
	return s
}

func (g *gen) foreach(depth int) Stmt {
	s := &Foreach{}
	g.feature("foreach")
	itemType := tInt
	if g.funcs != nil && g.t.Chance(1, 4) {
		rt := engine.Pick(g.t, reflect.TypeOf([]int{}), reflect.TypeOf([]string{}))
		if c, ok := g.call(rt, 2).(*Call); ok {
			g.feature("foreach over call")
			s.src = &Ref{base: c, rType: rt}
		}
	}
	if s.src != nil {
		itemType = s.src.rType.Elem()
	} else if g.t.Chance(1, 3) {
		s.a, s.b = g.t.Int(0, 6)-2, g.t.Int(0, 6)-2
		if g.t.Chance(1, 5) {
			s.a, s.b = g.t.Int(0, 13), g.t.Int(0, 13)
			if g.t.Chance(1, 4) {
				base := engine.Pick(g.t, 20, 95, 100, 998, 65530, 1<<31-5, -100, -1<<31, 1<<53)
				s.a, s.b = base+s.a, base+s.b
			}
		}
		if g.ranged != "" && g.t.Chance(1, 3) { // the same digits, divided in another way
			k := g.t.Int(1, len(g.ranged)-1)
			a, errA := strconv.Atoi(g.ranged[:k])
			b, errB := strconv.Atoi(g.ranged[k:])
			if errA == nil && errB == nil && b-a < 200 && a-b < 200 {
				s.a, s.b = a, b
				g.feature("range of the same digits")
			}
		}
		g.ranged = fmt.Sprint(s.a, s.b)
		g.ranged = strings.ReplaceAll(g.ranged, " ", "")
		g.feature("range")
		if s.a > s.b {
			g.feature("descending range")
		}
	} else {
		s.src = g.ref(3, func(_ *genVar, s shape) bool { return s.rType.Kind() == reflect.Slice })
		if s.src == nil {
			s.a, s.b = 0, g.t.Int(0, 3)
		} else {
			itemType = s.src.rType.Elem()
		}
	}
	var reuse *genVar
	if !g.noSet && g.t.Chance(1, 4) {
		for _, v := range g.vars {
			if v.rType == itemType && !v.reserved && !v.embedded {
				reuse = v
				break
			}
		}
	}
	v := reuse
	if v == nil {
		v = &genVar{name: g.freshName(), rType: itemType}
		g.vars = append(g.vars, v)
	}
	s.item = v.name
	was := v.loop
	v.loop = true
	s.body = g.stmts(depth - 1)
	v.loop = was
	return s
}

// compoundFor counts with an assignment of an expression.
func (g *gen) compoundFor(depth int) Stmt {
	t := g.t
	g.feature("for with a compound step")
	s := &For{op: engine.Pick(t, "+", "-", "*", "/")}
	rt := engine.Pick(t, tInt, tInt, tFloat, tString)
	if !g.noSet && t.Chance(1, 3) {
		s.over = g.ref(3, func(v *genVar, sh shape) bool { return len(sh.steps) > 0 && g.assignable(v, sh) && sh.rType == rt })
		if s.over != nil {
			g.feature("for counting in a field")
		}
	}
	var v *genVar
	if s.over == nil {
		v = &genVar{name: g.freshName(), rType: rt, reserved: true}
		g.vars = append(g.vars, v)
		s.over = &Ref{root: v.name, rType: rt}
	}
	s.v = s.over.root
	number := func(n int, rt reflect.Type) Expr {
		if rt == tFloat {
			if t.Bool() {
				return g.newVar(reflect.ValueOf(float64(n)))
			}
			return floatLit(float64(n))
		}
		if t.Bool() {
			return g.newVar(reflect.ValueOf(n))
		}
		return intLit(int64(n))
	}
	by := func(n int) Expr { // of some spelling
		switch t.Int(0, 4) {
		case 0:
			return &Bin{op: "+", x: number(n-1, rt), y: number(1, rt), rType: rt}
		case 1:
			return &Bin{op: "-", x: number(n+2, rt), y: number(2, rt), rType: rt}
		case 2:
			return &Bin{op: "*", x: number(n, rt), y: number(1, rt), rType: rt}
		}
		return number(n, rt)
	}
	from, to := 0, t.Int(0, 7)
	if rt == tString {
		s.op, s.init = "+", strLit("a")
		unit := engine.Pick(t, "a", "b;", ";")
		end := "a" + strings.Repeat(unit, t.Int(0, 3))
		s.cond = &Bin{op: "!=", x: s.over, y: strLit(end), rType: tBool}
		s.rhs = strLit(unit)
		switch t.Int(0, 3) {
		case 0:
			s.rhs = g.newVar(reflect.ValueOf(unit))
		case 1:
			s.rhs = &Bin{op: "+", x: strLit(unit[:1]), y: g.newVar(reflect.ValueOf(unit[1:])), rType: tString}
		}
	} else {
		cmp := "<"
		switch s.op {
		case "+":
			from, s.rhs = t.Int(0, 3)-1, by(t.Int(1, 3))
			if t.Chance(1, 3) {
				s.op, s.rhs = "-", by(-t.Int(1, 3))
				g.feature("step by a negative number")
			}
		case "-":
			from, to, cmp, s.rhs = t.Int(0, 7), t.Int(0, 4)-4, ">", by(t.Int(1, 3))
			if t.Chance(1, 3) {
				s.op, s.rhs = "+", by(-t.Int(1, 3))
				g.feature("step by a negative number")
			}
		case "*":
			from, to, s.rhs = t.Int(1, 3), t.Int(1, 60), by(t.Int(2, 3))
		case "/":
			from, to, cmp, s.rhs = t.Int(1, 60), t.Int(1, 3), ">", by(t.Int(2, 4))
		}
		s.init = number(from, rt)
		s.cond = &Bin{op: cmp, x: s.over, y: number(to, rt), rType: tBool}
	}
	if v != nil {
		v.loop = true
	}
	s.body = g.stmts(depth - 1)
	if v != nil {
		v.loop = false
	}
	return s
}

func (g *gen) forStmt(depth int) Stmt {
	if g.t.Chance(1, 4) {
		return g.compoundFor(depth)
	}
	g.feature("for")
	v := &genVar{name: g.freshName(), rType: tInt, reserved: true}
	s := &For{v: v.name}
	lo := g.t.Int(0, 4) - 1
	s.init = intLit(int64(lo))
	g.vars = append(g.vars, v)
	ref := &Ref{root: v.name, rType: tInt}
	limit := func(n int) Expr {
		if g.t.Chance(1, 3) {
			return &Bin{op: "+", x: &Ref{root: "ix", rType: tInt}, y: intLit(int64(n)), rType: tInt}
		}
		return intLit(int64(n))
	}
	sp := (&style{g.t}).sp1
	switch g.t.Weighted(4, 2, 2, 1, 1) {
	case 0:
		s.step, s.by = "++", 1
		s.cond = &Bin{op: engine.Pick(g.t, "<", "<="), x: ref, y: limit(g.t.Int(0, 4)), rType: tBool}
	case 1:
		s.step, s.by = "--", 1
		s.cond = &Bin{op: engine.Pick(g.t, ">", ">="), x: ref, y: limit(g.t.Int(0, 4) - 4), rType: tBool}
	case 2:
		s.by = g.t.Int(1, 3)
		s.step = sp() + "+=" + sp() + strconv.Itoa(s.by)
		s.cond = &Bin{op: engine.Pick(g.t, "<", "<=", "!="), x: ref, y: limit(g.t.Int(0, 6)), rType: tBool}
		if s.cond.(*Bin).op == "!=" {
			s.cond = &Bin{op: "<", x: ref, y: limit(g.t.Int(0, 6)), rType: tBool}
		}
	case 3:
		s.by = g.t.Int(1, 3)
		s.step = sp() + "-=" + sp() + strconv.Itoa(s.by)
		s.cond = &Bin{op: ">", x: ref, y: limit(g.t.Int(0, 4) - 5), rType: tBool}
	case 4:
		s.init = intLit(int64(g.t.Int(1, 3)))
		s.by = g.t.Int(2, 3)
		s.step = sp() + "*=" + sp() + strconv.Itoa(s.by)
		s.cond = &Bin{op: "<", x: ref, y: limit(g.t.Int(1, 40)), rType: tBool}
	}
	if g.t.Chance(1, 5) {
		s.cond = &Bin{op: "&&", x: s.cond, y: g.expr(tBool, 2), rType: tBool}
	}
	v.loop = true
	s.body = g.stmts(depth - 1)
	v.loop = false
	return s
}

var refLike = regexp.MustCompile(`^\$`)

func (g *gen) featureKey() string {
	var names []string
	for f := range g.features {
		names = append(names, f)
	}
	return strings.Join(names, ",")
}

func (g *gen) classes() {
	for f := range g.features {
		g.t.Class(f)
	}
}

// nontrivial counts a program with enough going on.
func (g *gen) nontrivial(tmpl string, o outcome) {
	g.classes()
	if o.discarded == "" && len(g.features) >= 3 {
		g.t.NonTrivial(tmpl + "\x00" + o.out)
	}
}
