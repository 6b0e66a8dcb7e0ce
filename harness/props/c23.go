package props

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

// Kinds holds a value of each kind.
type Kinds struct {
	I    int
	I8   int8
	U    uint
	I64  int64
	F    float64
	F32  float32
	S    string
	B    bool
	T    time.Time
	St   Small
	PSt  *Small
	Sl   []int
	Ss   []string
	Sts  []Small
	M    map[string]int
	Ms   map[string]Small
	A    [2]int
	Fn   func() int
	PS   *string
	PI   *int
	PSl  *[]int
	W    Word
	N    Num
	Fl   Flag
	Any  interface{}
	Deep struct {
		In struct{ I int }
		S  string
	}
	Next *Kinds
}

var tKinds = reflect.TypeOf(Kinds{})

// Typed is a piece of a template in an ill-typed and a well-typed form.
type Typed struct {
	ill, well string
	use       *bool // the ill-typed one
}

func (s *Typed) exec(*env) {}
func (s *Typed) print(p *printer) {
	if *s.use {
		p.text("|" + s.ill + "|")
		return
	}
	p.text("|" + s.well + "|")
}

type typer struct {
	*gen
	n int
}

// fields are the fields of Kinds with types that are ok.
func (y *typer) fields(ok func(rt reflect.Type) bool) (names []string) {
	for i := 0; i < tKinds.NumField(); i++ {
		if f := tKinds.Field(i); ok(f.Type) {
			names = append(names, f.Name)
		}
	}
	return names
}

// val makes a reference to a value of such a type, without "$".
func (y *typer) val(ok func(rt reflect.Type) bool) string {
	t := y.t
	names := y.fields(ok)
	if len(names) == 0 {
		panic("no such field")
	}
	name := names[t.Uint(uint64(len(names)))]
	y.feature("kind " + name)
	switch t.Uint(4) {
	case 0:
		return "k" + name
	case 1:
		return "kv.Next." + name
	case 2:
		return "kp." + name
	}
	return "kv." + name
}

func (y *typer) ref(ok func(rt reflect.Type) bool) string {
	v := y.val(ok)
	if y.t.Chance(1, 3) {
		return "${" + v + "}"
	}
	return "$" + v
}

func ofKind(kinds ...reflect.Kind) func(rt reflect.Type) bool {
	return func(rt reflect.Type) bool {
		for _, k := range kinds {
			if rt.Kind() == k {
				return true
			}
		}
		return false
	}
}

func but(ok func(rt reflect.Type) bool) func(rt reflect.Type) bool {
	return func(rt reflect.Type) bool { return !ok(rt) && rt.Kind() != reflect.Interface }
}

func exactly(types ...reflect.Type) func(rt reflect.Type) bool {
	return func(rt reflect.Type) bool {
		for _, o := range types {
			if rt == o {
				return true
			}
		}
		return false
	}
}

func (y *typer) fresh() string {
	y.n++
	return fmt.Sprintf("ty%d", y.n)
}

var composite = ofKind(reflect.Struct, reflect.Slice, reflect.Map, reflect.Array, reflect.Func)

// notOperand are the types that have no arithmetic.
func notOperand(rt reflect.Type) bool {
	return rt != tTime && (composite(rt) || rt == reflect.PtrTo(tSmall) || rt == reflect.PtrTo(tKinds))
}

// good is an int operand.
func (y *typer) good() string {
	switch y.t.Uint(4) {
	case 0:
		return fmt.Sprint(y.t.Int(0, 9))
	case 1:
		return "$twice(" + y.ref(exactly(tInt)) + ")"
	}
	return y.ref(exactly(tInt))
}

// bad makes an ill-typed expression, and the well-typed int one.
func (y *typer) bad() (ill, well string) {
	t := y.t
	op := engine.Pick(t, "+", "-", "*", "/", "+", "-", "*")
	good := y.good()
	if op == "/" {
		good = "2"
	}
	sp := engine.Pick(t, " ", " ", "")
	pair := func(x string, swap bool) (string, string) {
		if swap {
			return x + sp + op + sp + good, good + sp + op + sp + "2"
		}
		return good + sp + op + sp + x, good + sp + op + sp + "3"
	}
	switch t.Weighted(5, 2, 1, 2, 2, 2, 2) {
	case 0:
		y.feature("ill: operand without arithmetic")
		return pair(y.ref(notOperand), t.Bool())
	case 1:
		y.feature("ill: arithmetic on strings")
		op = engine.Pick(t, "-", "*", "/")
		if op == "/" {
			good = "2"
		}
		return pair(engine.Pick(t, y.ref(ofKind(reflect.String)), `"a"`), t.Bool())
	case 2:
		y.feature("ill: bool first")
		return pair(y.ref(ofKind(reflect.Bool)), true)
	case 3:
		y.feature("ill: undefined variable")
		return pair(engine.Pick(t, "$undef", "${undef}", "$undef.I", "$kvundef", "$kv0.I"), t.Bool())
	case 4:
		y.feature("ill: unknown field")
		return pair(engine.Pick(t, "$kv.Nope", "$kp.St.Nope", "$kv.Next.Nope", "${kv.Deep.In.Nope}", "$kI.Nope", "$kS.Nope", "$kSl.Nope"), t.Bool())
	case 5:
		y.feature("ill: unknown function")
		return pair(engine.Pick(t, "$nofn("+good+")", "$kv.nofn()", "$strings.Nofn(\"a\")", "$math.Nofn(1.0)", "$nons.Twice(1)", "$kS.nofn(1)", "$kI("+good+")", "$kv.I(1)"), t.Bool())
	}
	y.feature("ill: index")
	x := "$" + y.val(but(ofKind(reflect.Slice, reflect.Map))) + "[0]"
	if t.Chance(1, 3) {
		x = "$" + y.val(exactly(reflect.TypeOf([]int{}))) + engine.Pick(t, `["a"]`, "[$kS]", "[${kv.St}]")
	}
	return pair(x, t.Bool())
}

// expression embeds the ill-typed expression in a bigger one.
func (y *typer) expression() (ill, well string) {
	ill, well = y.bad()
	for n := 0; y.t.More(n, 4, 1); n++ {
		op := engine.Pick(y.t, " + ", " - ", " * ")
		g := y.good()
		switch y.t.Uint(3) {
		case 0:
			ill, well = "("+ill+")"+op+g, "("+well+")"+op+g
		case 1:
			ill, well = g+op+"("+ill+")", g+op+"("+well+")"
		case 2:
			ill, well = "$twice("+ill+")", "$twice("+well+")"
		}
	}
	return ill, well
}

// incompatible picks a target and a value that can't be assigned to it.
func (y *typer) incompatible() (target, value string) {
	t := y.t
	numbers := func(rt reflect.Type) bool { return number(rt) }
	switch t.Uint(4) {
	case 0: // a value nothing is converted from
		y.feature("ill: assign composite")
		return "kv.Next." + engine.Pick(t, "I", "I8", "U", "F", "S", "W", "T"), y.ref(notOperand)
	case 1:
		y.feature("ill: assign to composite")
		return "kv." + engine.Pick(t, y.fields(notOperand)...), engine.Pick(t, y.ref(numbers), y.ref(ofKind(reflect.String)), y.ref(ofKind(reflect.Bool)), "1", `"a"`, "true", "2.5")
	case 2: // composites of different types
		a := y.fields(notOperand)
		x := a[t.Uint(uint64(len(a)))]
		z := a[t.Uint(uint64(len(a)))]
		fx, _ := tKinds.FieldByName(x)
		fz, _ := tKinds.FieldByName(z)
		if deref(fx.Type) == deref(fz.Type) || fz.Type == fx.Type {
			z = "Ms"
			if x == "Ms" {
				z = "Ss"
			}
		}
		y.feature("ill: assign another composite")
		return "kp." + x, "$kv." + z
	}
	y.feature("ill: assign text")
	return "kv." + engine.Pick(t, "F", "F32"), engine.Pick(t, y.ref(exactly(tString)), `"a"`, y.ref(exactly(tBool)), "true")
}

// fragment makes an ill-typed piece.
func (y *typer) fragment() *Typed {
	t := y.t
	kind := t.Weighted(12, 4, 3, 3, 3, 3, 4, 3, 3, 2)
	switch kind {
	case 1:
		target, value := y.incompatible()
		field, _ := tKinds.FieldByName(target[strings.LastIndexByte(target, '.')+1:])
		same := "$kv." + field.Name
		if t.Chance(1, 4) { // a variable that got its type before
			v := y.fresh()
			return &Typed{ill: "#set($" + v + " = " + same + ")#set($" + v + " = " + value + ")", well: "#set($" + v + " = " + same + ")#set($" + v + " = " + same + ")"}
		}
		return &Typed{ill: "#set($" + target + " = " + value + ")", well: "#set($" + target + " = " + same + ")"}
	case 2:
		y.feature("ill: foreach source")
		bad := y.ref(but(ofKind(reflect.Slice)))
		if t.Chance(1, 4) {
			bad = engine.Pick(t, "$kv.Nope", "$kSl.Nope")
		}
		if t.Chance(1, 3) {
			y.feature("ill: foreach item")
			source := y.val(ofKind(reflect.Slice))
			field, _ := tKinds.FieldByName(source[strings.LastIndexByte(source, '.')+1:])
			if field.Name == "" {
				field, _ = tKinds.FieldByName(source[1:])
			}
			loop := "#foreach(%s in $" + source + ")x#end"
			v := y.fresh()
			switch t.Uint(3) {
			case 0: // a variable of another type
				item := "k" + engine.Pick(t, y.fields(func(rt reflect.Type) bool { return rt != field.Type.Elem() && rt.Kind() != reflect.Interface })...)
				return &Typed{ill: fmt.Sprintf(loop, "$"+item), well: fmt.Sprintf(loop, "$"+v) + "$k" + item[1:]}
			case 1:
				set := fmt.Sprintf("#set($%s = %s)", v, y.ref(func(rt reflect.Type) bool {
					return rt != field.Type.Elem() && rt.Kind() != reflect.Interface && rt.Kind() != reflect.Ptr && rt.Kind() != reflect.Func
				}))
				return &Typed{ill: set + fmt.Sprintf(loop, "${"+v+"}"), well: set + fmt.Sprintf(loop, "${"+v+"x}")}
			}
			item := "$" + y.val(func(reflect.Type) bool { return true })
			if !strings.Contains(item, ".") {
				item += ".I"
			}
			return &Typed{ill: fmt.Sprintf(loop, item), well: fmt.Sprintf(loop, "$"+v)}
		}
		loop := "#foreach($" + y.fresh() + " in %s)x#end"
		return &Typed{ill: fmt.Sprintf(loop, bad), well: fmt.Sprintf(loop, y.ref(ofKind(reflect.Slice)))}
	case 3:
		y.feature("ill: evaluate")
		bad := y.ref(but(ofKind(reflect.String)))
		if t.Chance(1, 4) {
			bad = engine.Pick(t, "$undef", "$kv.Nope")
		}
		return &Typed{ill: "#evaluate(" + bad + ")", well: "#evaluate(" + y.ref(ofKind(reflect.String)) + ")"}
	case 4:
		y.feature("ill: condition")
		bad := engine.Pick(t, y.ref(exactly(tTime, tSmall)), "$undef", "$kv.Nope", "$kv.Deep", "$kp.Deep.In", "$nofn()")
		cond := engine.Pick(t, "#if(%s)x#end", "#if(true)x#elseif(%s)y#end", "#if(false)x#else y#if(%s)z#end#end", "#for($"+y.fresh()+" = 0; %s; $kI++)#end")
		if strings.HasPrefix(cond, "#for") {
			return &Typed{ill: fmt.Sprintf(cond, bad), well: fmt.Sprintf(cond, "$kB && false")}
		}
		return &Typed{ill: fmt.Sprintf(cond, bad), well: fmt.Sprintf(cond, y.ref(ofKind(reflect.Bool, reflect.Int, reflect.String)))}
	case 5:
		y.feature("ill: negation")
		cond := engine.Pick(t, "#if(!%s)x#end", "#set($"+y.fresh()+" = !%s)", "$see(!%s)", "#if(true && !%s)x#end")
		return &Typed{ill: fmt.Sprintf(cond, y.ref(but(ofKind(reflect.Bool)))), well: fmt.Sprintf(cond, y.ref(ofKind(reflect.Bool)))}
	case 6:
		y.feature("ill: path")
		bad := engine.Pick(t, "$kv.Nope", "$kp.Next.Nope", "$kp.Nope.I", "${kv.Deep.Nope}", "$kI.Nope", "$kS.Nope", "$kSl.Nope", "$kM.Nope", "$kF.Nope", "$kB.Nope", "$kSts[0].Nope", "$kv.Sts[1].Nope", "$kMs[\"a\"].Nope",
			"$kv.nofn()", "$strings.Nofn(\"a\")", "$kI(1)", "$kv.S(1)", "$kv.Next.nofn().I", "$strings.Nofn(\"a\").x()")
		if t.Bool() {
			bad = "$" + y.val(but(ofKind(reflect.Slice, reflect.Map))) + "[0]"
		}
		return &Typed{ill: bad, well: engine.Pick(t, "$kv.I", "$kp.Next.S", "${kv.Deep.S}", "$kSl[0]", "$kMs[\"a\"].I", "$kSts[0].I", "$strings.ToUpper(\"a\")")}
	case 7:
		y.feature("ill: target")
		bad := engine.Pick(t, "kv.Nope", "kp.Next.Nope", "undef.I", "undef.x.y", "kv.Deep.Nope", "kI.Nope", "kSts.I",
			`kM["a"]`, `kv.M["a"]`, "kp.Ms[$kS]", `kMs["a"].I`, "twice(1)", `strings.ToUpper("a")`, "kv.Next.nofn()", "kI[0]", `kSl["a"]`)
		return &Typed{ill: "#set($" + bad + " = 1)", well: "#set($" + engine.Pick(t, "kv.I", "kp.Next.I", "kv.Deep.In.I") + " = 1)"}
	case 8:
		if t.Chance(1, 3) { // strings have no order
			y.feature("ill: string order")
			op := engine.Pick(t, " < ", " <= ", " > ", " >= ")
			cond := engine.Pick(t, "#if(%s)x#end", "#set($"+y.fresh()+" = %s)", "$see(%s)", "#if($kB || %s)x#end", "#for($"+y.fresh()+" = 0; %s && false; $kI++)x#end")
			a, b := y.ref(ofKind(reflect.String)), engine.Pick(t, y.ref(ofKind(reflect.String)), `"b"`, y.ref(exactly(tInt)), "1", "$kPS")
			if t.Bool() {
				a, b = b, a
			}
			return &Typed{ill: fmt.Sprintf(cond, a+op+b), well: fmt.Sprintf(cond, "$kI"+op+"1")}
		}
		y.feature("ill: logic")
		op := engine.Pick(t, " && ", " || ")
		bad := y.ref(func(rt reflect.Type) bool {
			return notOperand(rt) || number(rt) || rt.Kind() == reflect.String
		})
		cond := engine.Pick(t, "#if(%s)x#end", "#set($"+y.fresh()+" = %s)", "$see(%s)")
		return &Typed{ill: fmt.Sprintf(cond, bad+op+"$kB"), well: fmt.Sprintf(cond, "$kB"+op+"$kB")}
	}
	if kind == 9 {
		y.feature("ill: loop step")
		bad := engine.Pick(t, "kv.Nope", "kp.Next.Nope", "undef.I", "kI.Nope", "kv.Deep.Nope", y.val(notOperand))
		op := engine.Pick(t, "++", "--", " += 1", " -= $kI", " *= 2", "+= 3")
		v := y.fresh()
		loop := engine.Pick(t, "#for($"+v+" = 0; $"+v+" < 0; $%s"+op+")x#end", "#for($"+v+" = 0; false; $%s"+op+")x#end")
		return &Typed{ill: fmt.Sprintf(loop, bad), well: fmt.Sprintf(loop, "kv.Next.I")}
	}
	ill, well := y.expression()
	loop := y.fresh()
	where := engine.Pick(t, "#set($"+y.fresh()+" = %s)", "#set($kv.I = %s)", "#if(%s == 1)x#end", "#if(1 < %s)x#end", "#if(true)x#elseif(%s >= 2)y#end", "$see(%s)", "$twice(%s)", "$see($twice(%s))", "#set($"+y.fresh()+" = $kSl[0] + (%s))",
		"#for($"+loop+" = %s; false; $"+loop+"++)x#end", "#for($"+loop+" = 0; $"+loop+" < %s && false; $"+loop+"++)x#end", "#if(!(%s == 1))x#end", "#if($kB && %s > 1)x#end")
	if strings.Contains(where, "< %s &&") || strings.Contains(where, "&& %s >") || strings.Contains(where, "< %s)") {
		ill, well = "("+ill+")", "("+well+")"
	}
	return &Typed{ill: fmt.Sprintf(where, ill), well: fmt.Sprintf(where, well)}
}

// insert puts a statement somewhere in the program.
func insert(t *engine.T, body []Stmt, s Stmt) []Stmt {
	var inner []*[]Stmt
	for _, o := range body {
		switch o := o.(type) {
		case *If:
			for i := range o.branches {
				inner = append(inner, &o.branches[i].body)
			}
			if o.hasElse {
				inner = append(inner, &o.els)
			}
		case *Foreach:
			inner = append(inner, &o.body)
		case *For:
			inner = append(inner, &o.body)
		}
	}
	if len(inner) > 0 && t.Chance(2, 3) {
		b := inner[t.Uint(uint64(len(inner)))]
		*b = insert(t, *b, s)
		return body
	}
	at := int(t.Uint(uint64(len(body) + 1)))
	out := append([]Stmt{}, body[:at]...)
	out = append(out, s)
	return append(out, body[at:]...)
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C23",
		Rule: "random well-typed programs with one generated ill-typed construct put anywhere in them, however deep and whether or not it would be executed: operands without arithmetic, undefined variables, unknown fields, functions, methods and namespaces, called variables, indexes of what can't be indexed or by strings, incompatible assignments, loop sources, evaluated values, conditions and negations of the wrong kind; " +
			"Compile has to return an error, without panicking, and the same program with a well-typed construct of the same form has to be accepted; non-trivial: both were compiled",
		Quick: 80000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.world(3)
			y := &typer{gen: g}
			g.evalW = t.Int(0, 2)
			body := g.stmts(3)
			frag := y.fragment()
			use := true
			frag.use = &use
			setup := g.w.setup
			g.w.setup = func(p *velty.Planner) {
				if setup != nil {
					setup(p)
				}
				for _, err := range []error{
					p.RegisterFunction("twice", func(i int) int { return 2 * i }),
					p.RegisterFunction("see", func(i interface{}) string { return "" }),
				} {
					if err != nil {
						panic(err)
					}
				}
				for i := 0; i < tKinds.NumField(); i++ {
					f := tKinds.Field(i)
					if !strings.Contains(frag.ill+frag.well, "k"+f.Name) {
						continue
					}
					if err := p.DefineVariable("k"+f.Name, f.Type); err != nil {
						panic(err)
					}
				}
				for name, rt := range map[string]reflect.Type{"kv": tKinds, "kp": reflect.PtrTo(tKinds)} {
					if !strings.Contains(frag.ill+frag.well, name) {
						continue
					}
					if err := p.DefineVariable(name, rt); err != nil {
						panic(err)
					}
				}
			}
			body = insert(t, body, frag)
			// both are spelled alike
			ill := printBody(&style{t}, body)
			use = false
			well := printBody(&style{t}, body)
			noteWorld(t, g.w, ill)
			t.Note("ill-typed: %q", frag.ill)
			t.Note("well-typed: %q", frag.well)
			p := g.w.planner(t)
			var err error
			if r, stack := engine.Protect(func() { _, _, err = p.Compile([]byte(ill)) }); r != nil {
				t.Fail("Compile panicked: %v\n%s", r, clipStack(stack))
			}
			if err == nil {
				t.Fail("Compile accepted an ill-typed template")
			}
			compileOK(t, g.w.planner(t), well)
			g.classes()
			t.NonTrivial(ill)
		},
	})
}
