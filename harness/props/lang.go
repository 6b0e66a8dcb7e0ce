package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"velty.verif/harness/engine"
)

// The reference model: templates as syntax trees with a printer and an interpreter over plain Go values.

// ---- environment of the interpreter ----

type env struct {
	vars   map[string]reflect.Value // addressable
	embeds map[string]embedded      // names of fields of embedded variables: where they are
	also   map[string]bool          // more names of variables
	out    strings.Builder
	escape bool
	fuel   int
	errs   []string
	calls  []string

	stopOnError bool
	evaluated   []string
	depth       int
}

type embedded struct {
	holder string
	at     []int
}

type stopped struct{} // the execution stops at an error

type modelPanic struct{ why string } // the execution has to panic
type discard struct{ why string }    // nothing is specified for this case

func newEnv() *env {
	return &env{vars: map[string]reflect.Value{}, embeds: map[string]embedded{}, also: map[string]bool{}, fuel: 400}
}

// define adds a variable held by s.
func (e *env) define(v *Var, s reflect.Value) {
	e.vars[v.name] = s
	for _, name := range v.also {
		e.vars[name] = s
		e.also[name] = true
	}
	if v.embed {
		for _, f := range promoted(deref(v.rType)) {
			e.embeds[f.name] = embedded{v.name, f.at}
		}
	}
}

func (e *env) burn() {
	e.fuel--
	if e.fuel < 0 {
		panic(discard{"too many iterations"})
	}
}

// ---- references ----

type step struct {
	field string // name in the template
	at    []int  // index sequence of the field
	index Expr
	key   Expr
}

// Ref is a variable, or a path starting at one.
type Ref struct {
	root  string
	base  *Call // instead of root: the path starts at the result of a call
	steps []step
	rType reflect.Type
}

func (r *Ref) typ() reflect.Type { return r.rType }

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

// walk goes to a field; promoted fields of a nil embedded pointer can't be reached.
func walk(v reflect.Value, at []int) (reflect.Value, bool) {
	for _, i := range at {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

// element indexes a slice, a map, or an interface holding one.
func element(v, index reflect.Value) (reflect.Value, bool) {
	iface := v.Kind() == reflect.Interface
	if iface {
		for v = v.Elem(); v.Kind() == reflect.Ptr; {
			v = v.Elem()
		}
	}
	var out reflect.Value
	switch v.Kind() {
	case reflect.Invalid:
		return v, false
	case reflect.Slice, reflect.Array:
		n, ok := new(big.Int), false
		if index, ok = plainKey(index); ok && index.CanInt() {
			n.SetInt64(index.Int())
		} else if ok && index.CanUint() {
			n.SetUint64(index.Uint())
		} else {
			panic(modelPanic{"invalid index"})
		}
		if n.Sign() < 0 || n.Cmp(big.NewInt(int64(v.Len()))) >= 0 {
			panic(modelPanic{"index out of range"})
		}
		out = v.Index(int(n.Int64()))
	case reflect.Map:
		if out = mapElem(v, index); !out.IsValid() {
			return out, false
		}
	default:
		panic(modelPanic{"can't be indexed"})
	}
	if iface {
		any := reflect.New(tAny).Elem()
		any.Set(out)
		return any, true
	}
	return out, true
}

// plainKey is what a key or index stands for; false for nil.
func plainKey(k reflect.Value) (reflect.Value, bool) {
	for k.Kind() == reflect.Ptr || k.Kind() == reflect.Interface {
		if k.IsNil() {
			return k, false
		}
		k = k.Elem()
	}
	return k, true
}

// mapElem looks a key up by its plain value; the result is invalid if the map doesn't hold it.
func mapElem(m, k reflect.Value) reflect.Value {
	byPtr := k.Kind() == reflect.Ptr || k.Kind() == reflect.Interface && k.Elem().Kind() == reflect.Ptr
	k, ok := plainKey(k)
	if !ok || m.IsNil() {
		return reflect.Value{}
	}
	if k.Type() == reflect.TypeOf([]byte{}) {
		k = reflect.ValueOf(string(k.Bytes()))
	}
	whole := reflect.Value{} // behind a pointer, floats without a fraction are the same key as an integer
	if byPtr && (k.Kind() == reflect.Float64 || k.Kind() == reflect.Float32) {
		if f := k.Float(); f == math.Trunc(f) && math.Abs(f) < 1<<62 {
			whole = reflect.ValueOf(int(f))
		}
	}
	byWhole := reflect.Value{}
	for _, candidate := range m.MapKeys() {
		c, _ := plainKey(candidate)
		switch {
		case isIntKind(c.Kind()) && isIntKind(k.Kind()):
			if intOf(c).Cmp(intOf(k)) == 0 {
				return m.MapIndex(candidate)
			}
		case c.Kind() == k.Kind():
			if c.Interface() == k.Convert(c.Type()).Interface() {
				return m.MapIndex(candidate)
			}
		case whole.IsValid() && isIntKind(c.Kind()):
			if intOf(c).Cmp(intOf(whole)) == 0 && (m.Type().Key() != tAny || c.Type() == tInt) {
				byWhole = m.MapIndex(candidate)
			}
		}
	}
	return byWhole
}

func intOf(v reflect.Value) *big.Int {
	if v.CanInt() {
		return big.NewInt(v.Int())
	}
	return new(big.Int).SetUint64(v.Uint())
}

// locate walks to the value; ok is false if a nil pointer or a missing key is in the way.
func (r *Ref) locate(e *env) (reflect.Value, bool) {
	v, found := e.vars[r.root]
	if r.base != nil {
		v, found = reflect.New(r.base.rType).Elem(), true
		v.Set(r.base.eval(e))
	} else if emb, ok := e.embeds[r.root]; ok {
		if v, ok = walk(e.vars[emb.holder], emb.at); !ok {
			return v, false
		}
		found = true
	}
	if !found {
		panic(fmt.Sprintf("model: undefined %v", r.root))
	}
	for _, s := range r.steps {
		for v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		switch {
		case s.index != nil:
			var ok bool
			if v, ok = element(v, s.index.eval(e)); !ok {
				return v, false
			}
		case s.key != nil:
			var ok bool
			if v, ok = element(v, s.key.eval(e)); !ok {
				return v, false
			}
		default:
			var ok bool
			if v, ok = walk(v, s.at); !ok {
				return v, false
			}
		}
	}
	return v, true
}

func (r *Ref) eval(e *env) reflect.Value {
	v, ok := r.locate(e)
	out := reflect.New(r.rType).Elem()
	if ok {
		out.Set(v)
	}
	return out
}

// ---- expressions ----

type Expr interface {
	typ() reflect.Type
	eval(e *env) reflect.Value
	print(p *printer, prec int)
}

type Lit struct {
	v    reflect.Value
	text string
}

func (l *Lit) typ() reflect.Type       { return l.v.Type() }
func (l *Lit) eval(*env) reflect.Value { return l.v }

type Bin struct {
	op    string
	x, y  Expr
	rType reflect.Type // of the result
}

func (b *Bin) typ() reflect.Type { return b.rType }

type Not struct{ x Expr }

func (n *Not) typ() reflect.Type { return tBool }
func (n *Not) eval(e *env) reflect.Value {
	return reflect.ValueOf(!n.x.eval(e).Bool())
}

// Call calls a registered function, or a method of recv.
type Call struct {
	recv  *Ref
	self  reflect.Type // a function called with a receiver: the type of its first parameter
	ns    string
	name  string
	args  []Expr
	fn    func(args []reflect.Value) (reflect.Value, error) // receiver first
	param []reflect.Type
	rType reflect.Type

	refused bool // the arguments don't fit
}

// mutations counts what called methods changed; as in Go it isn't specified whether an operand is read before or after
// another operand changed it.
var mutations int

func (c *Call) typ() reflect.Type { return c.rType }
func (c *Call) eval(e *env) reflect.Value {
	var args []reflect.Value
	before := mutations
	if c.recv != nil {
		v, ok := c.recv.locate(e)
		if !ok {
			panic(discard{"receiver behind nil"})
		}
		if k := v.Kind(); c.recv.base != nil && (k == reflect.Ptr || k == reflect.Interface) && v.IsNil() {
			panic(discard{"nil receiver"})
		}
		if c.self != nil && v.Type() != c.self {
			if v.Kind() == reflect.Interface && !v.IsNil() {
				v = v.Elem()
			}
			v = v.Convert(c.self)
		}
		args = append(args, v)
	}
	for i, a := range c.args {
		v := a.eval(e)
		if i < len(c.param) && v.Type() != c.param[i] {
			if v.Kind() == reflect.Interface && !v.IsNil() {
				v = v.Elem()
			}
			v = v.Convert(c.param[i])
		}
		args = append(args, v)
	}
	if mutations != before && len(args) > 1 {
		panic(discard{"operand changed by another operand"})
	}
	e.calls = append(e.calls, c.name)
	v, err := c.fn(args)
	if err != nil {
		e.errs = append(e.errs, err.Error())
		if e.stopOnError {
			panic(stopped{})
		}
	}
	return v
}

func isIntKind(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Uintptr }
func isFloatKind(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

// common is the type two operands are converted to.
func common(x, y reflect.Type) reflect.Type {
	x, y = deref(x), deref(y)
	switch {
	case x.Kind() == reflect.String || y.Kind() == reflect.String:
		return tString
	case x.Kind() == reflect.Bool:
		return tBool
	case isFloatKind(x.Kind()) || isFloatKind(y.Kind()):
		return tFloat
	}
	return tInt
}

func plain(v reflect.Value) reflect.Value {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			panic(discard{"nil operand"})
		}
		v = v.Elem()
	}
	return v
}

// text is what a value becomes that meets a string.
func text(v reflect.Value) reflect.Value {
	switch k := v.Kind(); {
	case k == reflect.Bool:
		return reflect.ValueOf(strconv.FormatBool(v.Bool()))
	case v.CanInt():
		return reflect.ValueOf(strconv.FormatInt(v.Int(), 10))
	case v.CanUint():
		return reflect.ValueOf(strconv.FormatUint(v.Uint(), 10))
	case v.CanFloat():
		return reflect.ValueOf(strconv.FormatFloat(v.Float(), 'f', -1, v.Type().Bits()))
	case v.Type() == tTime:
		return reflect.ValueOf(v.Interface().(time.Time).Format(time.RFC3339))
	}
	return v
}

func resultType(op string, x, y reflect.Type) reflect.Type {
	switch op {
	case "+", "-", "*", "/":
		return common(x, y)
	}
	return tBool
}

func (b *Bin) eval(e *env) reflect.Value {
	before := mutations
	x, y := b.x.eval(e), b.y.eval(e)
	if mutations != before {
		panic(discard{"operand changed by another operand"})
	}
	c := common(b.x.typ(), b.y.typ())
	x, y = plain(x), plain(y)
	if c == tString {
		x, y = text(x), text(y)
	}
	x, y = x.Convert(c), y.Convert(c)
	switch c {
	case tInt:
		m, n := x.Int(), y.Int()
		switch b.op {
		case "+":
			return reflect.ValueOf(int(m + n))
		case "-":
			return reflect.ValueOf(int(m - n))
		case "*":
			return reflect.ValueOf(int(m * n))
		case "/":
			if n == 0 {
				panic(discard{"division by zero"})
			}
			return reflect.ValueOf(int(m / n))
		}
		return reflect.ValueOf(order(b.op, m < n, m == n, m > n))
	case tFloat:
		m, n := x.Float(), y.Float()
		switch b.op {
		case "+":
			return reflect.ValueOf(m + n)
		case "-":
			return reflect.ValueOf(m - n)
		case "*":
			return reflect.ValueOf(m * n)
		case "/":
			return reflect.ValueOf(m / n)
		}
		return reflect.ValueOf(order(b.op, m < n, m == n, m > n))
	case tString:
		m, n := x.String(), y.String()
		if b.op == "+" {
			if len(m)+len(n) > 1<<17 {
				panic(discard{"string too long"})
			}
			return reflect.ValueOf(m + n)
		}
		return reflect.ValueOf(order(b.op, m < n, m == n, m > n))
	}
	m, n := x.Bool(), y.Bool()
	switch b.op {
	case "&&":
		return reflect.ValueOf(m && n)
	case "||":
		return reflect.ValueOf(m || n)
	case "==":
		return reflect.ValueOf(m == n)
	case "!=":
		return reflect.ValueOf(m != n)
	}
	panic("model: operator " + b.op)
}

func order(op string, lt, eq, gt bool) bool {
	switch op {
	case "==":
		return eq
	case "!=":
		return !eq
	case "<":
		return lt
	case "<=":
		return lt || eq
	case ">":
		return gt
	case ">=":
		return gt || eq
	}
	panic("model: operator " + op)
}

// ---- statements ----

type Stmt interface {
	exec(e *env)
	print(p *printer)
}

type Text struct{ s string }
type Raw struct{ s string }     // #[[ s ]]#
type Comment struct{ s string } // ## s newline
type Render struct{ x Expr }    // a Ref or a Call
type Set struct {
	target *Ref
	x      Expr
}
type Branch struct {
	cond Expr
	body []Stmt
}
type If struct {
	branches []Branch
	hasElse  bool
	els      []Stmt
}
type Foreach struct {
	item string
	src  *Ref // or a range
	a, b int
	body []Stmt
}
type For struct {
	v    string
	init Expr
	cond Expr
	step string // after the variable: "++", "--", " += 2" …
	by   int
	body []Stmt

	over *Ref   // what is counted, if not an int variable
	op   string // with rhs: the step is "over op= rhs"
	rhs  Expr
}

func (s *For) counted() *Ref {
	if s.over != nil {
		return s.over
	}
	return &Ref{root: s.v, rType: tInt}
}

// Evaluate evaluates a template held by a variable; body is what the variable holds.
type Evaluate struct {
	x    Expr
	body []Stmt // nil: the text is not a valid template
}

func (s *Text) exec(e *env)    { e.out.WriteString(s.s) }
func (s *Raw) exec(e *env)     { e.out.WriteString(s.s) }
func (s *Comment) exec(e *env) {}
func (s *Render) exec(e *env) {
	e.out.WriteString(renderModel(s.x.eval(e), e.escape))
	if e.out.Len() > 1<<18 {
		panic(discard{"output too long"})
	}
}

func (s *Set) exec(e *env) {
	dest, ok := s.target.locate(e)
	v := s.x.eval(e)
	if !ok {
		return
	}
	dest.Set(convertAssign(v, s.target.rType))
}

// convertAssign is the value assigned to a target of the given type.
func convertAssign(v reflect.Value, to reflect.Type) reflect.Value {
	if v.Type() == to {
		return v
	}
	if to.Kind() == reflect.Interface {
		return v
	}
	if to.Kind() == reflect.Ptr {
		if v.Kind() == reflect.Ptr && v.IsNil() {
			return reflect.Zero(to)
		}
		p := reflect.New(to.Elem())
		p.Elem().Set(convertAssign(v, to.Elem()))
		return p
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return reflect.Zero(to)
		}
		return convertAssign(v.Elem(), to)
	}
	switch {
	case (isIntKind(v.Kind()) || isFloatKind(v.Kind())) && (isIntKind(to.Kind()) || isFloatKind(to.Kind())):
		return v.Convert(to)
	case to.Kind() == reflect.String:
		out := reflect.New(to).Elem()
		switch {
		case v.Kind() == reflect.Bool:
			out.SetString(strconv.FormatBool(v.Bool()))
		case v.CanInt():
			out.SetString(strconv.FormatInt(v.Int(), 10))
		case v.CanUint():
			out.SetString(strconv.FormatUint(v.Uint(), 10))
		case v.CanFloat():
			out.SetString(strconv.FormatFloat(v.Float(), 'f', -1, v.Type().Bits()))
		default:
			out.SetString(v.String())
		}
		return out
	case v.Kind() == reflect.Bool && isIntKind(to.Kind()):
		out := reflect.New(to).Elem()
		if v.Bool() {
			return reflect.ValueOf(1).Convert(to)
		}
		return out
	case to.Kind() == reflect.Bool && isIntKind(v.Kind()):
		return reflect.ValueOf(!v.IsZero())
	case to.Kind() == reflect.Bool && isFloatKind(v.Kind()):
		return reflect.ValueOf(v.Float() != 0)
	}
	panic(fmt.Sprintf("model: can't assign %v to %v", v.Type(), to))
}

func run(body []Stmt, e *env) {
	for _, s := range body {
		s.exec(e)
	}
}

// truth is how a condition of any type is taken.
func truth(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Slice, reflect.String:
		return v.Len() > 0
	case reflect.Ptr:
		return !v.IsNil()
	}
	return !v.IsZero()
}

func (s *If) exec(e *env) {
	for _, b := range s.branches {
		if truth(b.cond.eval(e)) {
			run(b.body, e)
			return
		}
	}
	run(s.els, e)
}

func (s *Foreach) exec(e *env) {
	var elems []reflect.Value
	if s.src == nil {
		for i := s.a; i != s.b; {
			elems = append(elems, reflect.ValueOf(i))
			if s.a < s.b {
				i++
			} else {
				i--
			}
		}
	} else {
		src := s.src.eval(e)
		for i := 0; i < src.Len(); i++ {
			elems = append(elems, src.Index(i)) // read when its turn comes
		}
	}
	for _, v := range elems {
		e.burn()
		e.vars[s.item].Set(v)
		run(s.body, e)
	}
}

func (s *For) exec(e *env) {
	if s.rhs != nil {
		ref := s.counted()
		(&Set{ref, s.init}).exec(e)
		for s.cond.eval(e).Bool() {
			e.burn()
			run(s.body, e)
			(&Set{ref, &Bin{op: s.op, x: ref, y: s.rhs, rType: ref.rType}}).exec(e)
		}
		return
	}
	v := e.vars[s.v]
	v.Set(s.init.eval(e))
	for s.cond.eval(e).Bool() {
		e.burn()
		run(s.body, e)
		n := int(v.Int())
		switch strings.TrimSpace(s.step)[0] {
		case '+':
			n += s.by
		case '-':
			n -= s.by
		case '*':
			n *= s.by
		case '/':
			n /= s.by
		}
		v.SetInt(int64(n))
	}
}

func (s *Evaluate) exec(e *env) {
	if s.body == nil {
		return
	}
	// what the evaluated template assigns stays inside, data behind pointers is shared
	saved := map[string]reflect.Value{}
	copies := map[interface{}]reflect.Value{}
	for name, v := range e.vars {
		at := v.Addr().Interface() // one copy for all names
		c, ok := copies[at]
		if !ok {
			c = reflect.New(v.Type()).Elem()
			c.Set(v)
			copies[at] = c
		}
		saved[name] = v
		e.vars[name] = c
	}
	defer func() {
		for name := range e.vars {
			if v, ok := saved[name]; ok {
				e.vars[name] = v
			} else {
				delete(e.vars, name)
			}
		}
	}()
	declareAll(e, s.body)
	run(s.body, e)
}

// declareAll defines the variables that the statements assign first.
func declareAll(e *env, body []Stmt) {
	declare := func(name string, t reflect.Type) {
		if _, ok := e.vars[name]; !ok {
			e.vars[name] = reflect.New(t).Elem()
		}
	}
	for _, s := range body {
		switch s := s.(type) {
		case *Set:
			if _, embedded := e.embeds[s.target.root]; len(s.target.steps) == 0 && !embedded {
				declare(s.target.root, s.target.rType)
			}
		case *If:
			for _, b := range s.branches {
				declareAll(e, b.body)
			}
			declareAll(e, s.els)
		case *Foreach:
			if s.src != nil {
				declare(s.item, s.src.rType.Elem())
			} else {
				declare(s.item, tInt)
			}
			declareAll(e, s.body)
		case *For:
			if ref := s.counted(); len(ref.steps) == 0 {
				declare(ref.root, ref.rType)
			}
			declareAll(e, s.body)
		}
	}
}

// ---- printing ----

// style draws how to spell things; nil spells everything in the plainest way.
type style struct{ t *engine.T }

func (s *style) pick(n int) int {
	if s == nil || s.t == nil {
		return 0
	}
	return int(s.t.Uint(uint64(n)))
}

func (s *style) chance(num, den int) bool {
	if s == nil || s.t == nil {
		return false
	}
	return s.t.Chance(num, den)
}

// sp is optional blank space.
func (s *style) sp() string {
	return [...]string{"", "", "", " ", "  ", "\t", "\n ", "", "\r\n", "\v\f"}[s.pick(10)]
}

// gap is blank space that has to be there.
func (s *style) gap() string {
	return [...]string{" ", " ", "  ", "\t", "\n", "\r\n", " \t\n"}[s.pick(7)]
}

// rare is blank space that is hardly ever there.
func (s *style) rare() string {
	if !s.chance(1, 10) {
		return ""
	}
	return s.gap()
}

// sp1 is blank space that is there usually.
func (s *style) sp1() string { return [...]string{" ", " ", " ", "", "  ", "\t ", " \n"}[s.pick(7)] }

type chunk struct {
	text   string // what is printed
	braced string // for references: the spelling with braces
	ident  bool   // the unbraced spelling ends with an identifier
	bare   bool   // #else or #end, which a following letter may turn into something else
}

type printer struct {
	st     *style
	chunks []chunk
	buf    strings.Builder // expression being printed
	inPath int             // inside brackets or arguments, where references have no braces: the path may get some
}

func (p *printer) text(s string) { p.chunks = append(p.chunks, chunk{text: s}) }

// directive captures what f prints and adds it as one chunk.
func (p *printer) capture(f func()) string {
	old := p.buf
	p.buf = strings.Builder{}
	f()
	s := p.buf.String()
	p.buf = old
	return s
}

func (p *printer) String() string {
	var b strings.Builder
	for i, c := range p.chunks {
		next := byte(0)
		for _, d := range p.chunks[i+1:] {
			if d.text != "" {
				next = d.text[0]
				break
			}
		}
		if c.braced != "" && (next == '.' || next == '(' || next == '[' || c.ident && isIdentByte(next)) {
			b.WriteString(c.braced)
			continue
		}
		if c.bare && isIdentByte(next) {
			b.WriteString(c.braced)
			continue
		}
		b.WriteString(c.text)
	}
	return b.String()
}

func isIdentByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *printer) path(r *Ref) string {
	p.inPath++
	defer func() { p.inPath-- }()
	return p.capture(func() {
		if r.base != nil {
			p.buf.WriteString(r.base.path(p))
		} else {
			p.buf.WriteString(r.root)
		}
		for _, s := range r.steps {
			switch {
			case s.index != nil:
				p.buf.WriteByte('[')
				p.expr(s.index)
				p.buf.WriteByte(']')
			case s.key != nil:
				p.buf.WriteByte('[')
				p.expr(s.key)
				p.buf.WriteByte(']')
			default:
				p.buf.WriteByte('.')
				p.buf.WriteString(s.field)
			}
		}
	})
}

func (p *printer) expr(x Expr) {
	p.buf.WriteString(p.st.sp())
	x.print(p, 0)
	p.buf.WriteString(p.st.sp())
}

func (p *printer) spell(path string) string {
	if p.inPath > 0 {
		return "$" + path
	}
	switch p.st.pick(8) {
	case 5:
		return "${" + path + "}"
	case 6:
		return "$!" + path
	case 7:
		return "$!{" + path + "}"
	}
	return "$" + path
}

func (r *Ref) print(p *printer, _ int) { p.buf.WriteString(p.spell(p.path(r))) }

func (p *printer) maybeParens(f func()) {
	if p.st.chance(1, 10) {
		p.buf.WriteString("(" + p.st.sp())
		f()
		p.buf.WriteString(p.st.sp() + ")")
		return
	}
	f()
}

func (l *Lit) print(p *printer, _ int) { p.maybeParens(func() { p.buf.WriteString(l.text) }) }

func precOf(op string) int {
	switch op {
	case "*", "/":
		return 5
	case "+", "-":
		return 4
	case "&&":
		return 2
	case "||":
		return 1
	}
	return 3
}

func (b *Bin) print(p *printer, prec int) {
	my := precOf(b.op)
	parens := my < prec || p.st.chance(1, 10)
	if parens {
		p.buf.WriteString("(" + p.st.sp())
	}
	left := my
	if my == 3 {
		left = 4 // comparisons of comparisons always have parentheses
	}
	b.x.print(p, left)
	p.buf.WriteString(p.st.sp1() + b.op + p.st.sp1())
	b.y.print(p, my+1)
	if parens {
		p.buf.WriteString(p.st.sp() + ")")
	}
}

func (n *Not) print(p *printer, prec int) {
	p.maybeParens(func() {
		p.buf.WriteString("!" + p.st.rare())
		switch n.x.(type) {
		case *Ref, *Call:
			n.x.print(p, 9)
		default:
			p.buf.WriteString("(")
			n.x.print(p, 0)
			p.buf.WriteString(")")
		}
	})
}

func (c *Call) path(p *printer) string {
	p.inPath++
	defer func() { p.inPath-- }()
	return p.capture(func() {
		switch {
		case c.recv != nil:
			p.buf.WriteString(p.path(c.recv) + ".")
		case c.ns != "":
			p.buf.WriteString(c.ns + ".")
		}
		p.buf.WriteString(c.name + "(")
		for i, a := range c.args {
			if i > 0 {
				p.buf.WriteString(",")
			}
			p.expr(a)
		}
		if len(c.args) == 0 {
			p.buf.WriteString(p.st.sp())
		}
		p.buf.WriteString(")")
	})
}

func (c *Call) print(p *printer, _ int) { p.buf.WriteString(p.spell(c.path(p))) }

func (s *Text) print(p *printer) { p.text(s.s) }
func (s *Raw) print(p *printer)  { p.text("#[[" + s.s + "]]#") }
func (s *Comment) print(p *printer) {
	p.text("##" + s.s + "\n")
}

func (s *Render) print(p *printer) {
	var path string
	ident := false
	switch x := s.x.(type) {
	case *Ref:
		path = p.path(x)
		ident = isIdentByte(path[len(path)-1])
	case *Call:
		path = x.path(p)
	}
	c := chunk{text: p.spell(path), braced: "${" + path + "}", ident: ident}
	if strings.HasSuffix(c.text, "}") {
		c.braced, c.ident = "", false
	} else if strings.HasPrefix(c.text, "$!") {
		c.braced = "$!{" + path + "}"
	}
	p.chunks = append(p.chunks, c)
}

func (s *Set) print(p *printer) {
	target := p.path(s.target)
	if p.st.chance(1, 6) {
		target = "${" + target + "}"
	} else {
		target = "$" + target
	}
	p.text("#set" + p.st.rare() + "(" + p.st.sp() + target + p.st.sp1() + "=" + p.st.sp1() + p.capture(func() { s.x.print(p, 0) }) + p.st.sp() + ")")
}

func (p *printer) body(body []Stmt) {
	for _, s := range body {
		s.print(p)
	}
}

func (p *printer) bare(word string) {
	if p.st.chance(1, 5) {
		p.text("#{" + word + "}")
		return
	}
	p.chunks = append(p.chunks, chunk{text: "#" + word, braced: "#{" + word + "}", bare: true})
}

func (s *If) print(p *printer) {
	for i, b := range s.branches {
		word := "#if"
		if i > 0 {
			word = "#elseif"
		}
		word += p.st.rare() + "("
		cond := p.capture(func() { p.expr(b.cond) })
		p.text(word + cond + ")")
		p.body(b.body)
	}
	if s.hasElse {
		p.bare("else")
		p.body(s.els)
	}
	p.bare("end")
}

func (s *Foreach) print(p *printer) {
	src := fmt.Sprintf("[%d...%d]", s.a, s.b)
	if s.src != nil {
		src = p.spell(p.path(s.src))
	}
	item := "$" + s.item
	if p.st.chance(1, 8) {
		item = "${" + s.item + "}"
	}
	if p.st.chance(1, 12) { // the index is accepted, but not set
		item += p.st.sp() + "," + p.st.sp() + "$unusedIndex"
	}
	in := "in" + p.st.gap()
	if p.st.chance(1, 10) {
		in = "in"
	}
	p.text("#foreach" + p.st.rare() + "(" + p.st.sp() + item + p.st.gap() + in + src + p.st.sp() + ")")
	p.body(s.body)
	p.bare("end")
}

func (s *For) print(p *printer) {
	name := func() string {
		if p.st.chance(1, 8) {
			return "${" + s.v + "}"
		}
		return "$" + s.v
	}
	step := s.step
	if s.rhs != nil {
		if s.over != nil {
			name = func() string {
				if path := p.path(s.over); p.st.chance(1, 8) {
					return "${" + path + "}"
				} else {
					return "$" + path
				}
			}
		}
		if step == "" {
			step = p.st.sp() + s.op + "=" + p.st.sp() + p.capture(func() { s.rhs.print(p, 0) })
		}
	}
	p.text("#for" + p.st.rare() + "(" + p.st.sp() + name() + p.st.sp1() + "=" + p.st.sp1() + p.capture(func() { s.init.print(p, 0) }) + ";" +
		p.st.sp1() + p.capture(func() { s.cond.print(p, 0) }) + p.st.sp() + ";" + p.st.sp1() + name() + p.st.rare() + step + p.st.sp() + ")")
	p.body(s.body)
	p.bare("end")
}

func (s *Evaluate) print(p *printer) {
	p.text("#evaluate" + p.st.rare() + "(" + p.capture(func() { p.expr(s.x) }) + ")")
}

func printBody(st *style, body []Stmt) string {
	p := &printer{st: st}
	p.body(body)
	return p.String()
}
