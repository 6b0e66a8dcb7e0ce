package props

import (
	"fmt"
	"strconv"

	"velty.verif/harness/engine"
)

// places puts an expression where its value can be observed.
func (g *gen) observe(x Expr, k int) []Stmt {
	t := g.t
	rType := x.typ()
	fns := map[string]string{"int": "inc", "float64": "half", "string": "quote", "bool": "flip"}
	call := func(x Expr) Expr {
		for _, f := range pureFuncs {
			if f.name == fns[rType.String()] {
				return &Call{name: f.name, fn: reflectCall(f.fn), param: f.params, args: []Expr{x}, rType: f.rType}
			}
		}
		return nil
	}
	r := &Ref{root: "r" + strconv.Itoa(k), rType: rType}
	switch t.Weighted(4, 2, 2, 1) {
	case 0:
		g.feature("in #set")
		return []Stmt{&Set{r, x}, &Render{r}}
	case 1:
		if c := call(x); c != nil {
			g.feature("as argument")
			return []Stmt{&Render{c}}
		}
	case 2:
		if rType == tBool {
			g.feature("in #if")
			return []Stmt{&If{branches: []Branch{{g.expr(tBool, 1), []Stmt{&Text{"A"}}}, {x, []Stmt{&Text{"B"}}}}, hasElse: true, els: []Stmt{&Text{"C"}}}}
		}
		if rType == tInt || rType == tFloat {
			g.feature("in #if")
			lit := g.literal(rType)
			return []Stmt{&If{branches: []Branch{{&Bin{op: engine.Pick(t, "==", "<", ">="), x: x, y: lit, rType: tBool}, []Stmt{&Text{"T"}}}}, hasElse: true, els: []Stmt{&Text{"F"}}}}
		}
	case 3:
		i := &Ref{root: "i" + strconv.Itoa(k), rType: tInt}
		switch rType {
		case tBool:
			g.feature("in #for")
			return []Stmt{&For{v: i.root, init: intLit(0), step: "++", by: 1,
				cond: &Bin{op: "&&", x: &Bin{op: "<", x: i, y: intLit(2), rType: tBool}, y: x, rType: tBool}, body: []Stmt{&Text{"."}}}}
		case tInt:
			g.feature("in #for")
			end := &Bin{op: "+", x: x, y: intLit(2), rType: tInt}
			return []Stmt{&For{v: i.root, init: x, step: "++", by: 1,
				cond: &Bin{op: "!=", x: i, y: end, rType: tBool}, body: []Stmt{&Render{i}, &Text{","}}}}
		}
	}
	g.feature("in #set")
	return []Stmt{&Set{r, x}, &Render{r}}
}

func exprSize(x Expr) int {
	switch x := x.(type) {
	case *Bin:
		return 1 + exprSize(x.x) + exprSize(x.y)
	case *Not:
		return 1 + exprSize(x.x)
	case *Call:
		n := 0
		for _, a := range x.args {
			n += exprSize(a)
		}
		return n
	}
	return 0
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C03",
		Rule: "random expression trees over int, float, string and bool operands taken from literals, variables, fields, pointers, slice and map elements and calls, printed with as few or as many parentheses as allowed, " +
			"standing in #set, #if, #for headers and arguments, compared with the reference evaluator; one in 40 uses an undefined operand and has to be rejected; non-trivial: at least 2 operators and a specified value",
		Quick: 120000, Thorough: 8000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls, g.ptrs = t.Chance(2, 3), true
			g.world(4)
			if t.Chance(1, 40) {
				undefinedOperand(t, g)
				return
			}
			body := g.takeLarge()
			size := 0
			for n := 0; n == 0 || t.More(n, 4, 1); n++ {
				x := g.expr(engine.Pick(t, tBool, tInt, tFloat, tString), t.Int(1, 5))
				size += exprSize(x)
				body = append(body, g.observe(x, n)...)
				body = append(body, &Text{"|"})
			}
			tmpl := printBody(&style{t}, body)
			o := check(t, g.w, body, tmpl)
			g.classes()
			if o.discarded == "" && size >= 2 {
				t.NonTrivial(tmpl + "\x00" + o.out)
			}
		},
	})
}

func undefinedOperand(t *engine.T, g *gen) {
	x := g.expr(engine.Pick(t, tInt, tFloat, tString), 2)
	p := &printer{st: &style{t}}
	known := p.capture(func() { x.print(p, 5) })
	undef := engine.Pick(t, "$undef", "${undef}", "$undef.Name", "$nope(1)")
	op := engine.Pick(t, "+", "-", "*", "/", "==", "!=", "<", ">")
	e := known + " " + op + " " + undef
	if t.Bool() {
		e = undef + " " + op + " " + known
	}
	tmpl := fmt.Sprintf(engine.Pick(t, "#set($r = %s)$r", "#if(%s)a#end", "$strings.ToUpper(%s)"), e)
	noteWorld(t, g.w, tmpl)
	t.Class("undefined operand")
	if c := compileAny(t, g.w.planner(t), tmpl); c.ok {
		t.Fail("an expression with an undefined operand is accepted")
	}
}
