package props

import (
	"fmt"
	"html"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

// markup functions return values of other kinds.
var markupFuncs = []*pureFunc{
	{name: "mkany", fn: func(s string) interface{} { return s }, params: []reflect.Type{tString}, rType: tAny},
	{name: "mkcolour", fn: func(i int) interface{} { return colour(i) }, params: []reflect.Type{tInt}, rType: tAny},
	{name: "mkpoint", fn: func(s string, i int) point { return point{i, i, s} }, params: []reflect.Type{tString, tInt}, rType: reflect.TypeOf(point{})},
	{name: "mkptr", fn: func(s string) *point { return &point{Name: s} }, params: []reflect.Type{tString}, rType: reflect.TypeOf(&point{})},
	{name: "mklist", fn: func(x, y string) []string { return []string{x, y} }, params: []reflect.Type{tString, tString}, rType: reflect.TypeOf([]string{})},
	{name: "mkmap", fn: func(x, y string) map[string]string { return map[string]string{x: y} }, params: []reflect.Type{tString, tString}, rType: reflect.TypeOf(map[string]string{})},
	{name: "mkbyte", fn: func(i int) int8 { return int8(i) }, params: []reflect.Type{tInt}, rType: reflect.TypeOf(int8(0))},
	{name: "mkfig", fn: func(s string) stringer { return figure{s} }, params: []reflect.Type{tString}, rType: tStringer},
}

func registerMarkup(p *velty.Planner) {
	registerPure(p)
	for _, f := range markupFuncs {
		if err := p.RegisterFunction(f.name, f.fn); err != nil {
			panic(err)
		}
	}
}

func (g *gen) markup() Stmt {
	f := markupFuncs[g.t.Uint(uint64(len(markupFuncs)))]
	c := &Call{name: f.name, fn: reflectCall(f.fn), param: f.params, rType: f.rType}
	for _, p := range f.params {
		c.args = append(c.args, g.expr(p, 2))
	}
	g.feature("render call of " + kindOf(f.rType))
	return &Render{c}
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C09",
		Rule: "random programs (text with markup, references and calls of every type incl. structs, slices, maps, interfaces, Stringers, nested #evaluate, loops, conditions on the values, assignments) over variables full of HTML special characters, or long ones with few of them, executed with EscapeHTML on and off; " +
			"each output must equal the model's, where only rendered values are escaped, exactly once, unescaping the escaped output must give the other one when the text has no '&', and the variables afterwards must be equal in both modes; non-trivial: escaping changes the output",
		Quick: 60000, Thorough: 3000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls = t.Chance(2, 3)
			g.types = renderTypes[:14]
			if t.Bool() {
				g.types = renderTypes
			}
			g.evalW = t.Int(0, 2)
			g.noIndex = t.Chance(4, 5)
			g.world(6)
			g.w.setup = registerMarkup
			for _, v := range g.w.vars {
				if v.rType == tString && t.Bool() {
					v.value = reflect.ValueOf(v.value.String() + engine.Pick(t, "<script>", "a & b", "'q'", "\"", "&lt;", "&amp;amp;", "x > y"))
				}
				if v.rType == tString && t.Chance(1, 20) {
					v.value = reflect.ValueOf(sparseString(t, size(t, 4, 12)))
				}
				if v.rType == tAny {
					if i := ifaceValue(t); i != nil {
						v.value.Set(reflect.ValueOf(i))
					}
				}
			}
			plain := t.Chance(1, 2)
			g.textFn = func() Stmt {
				s := g.text()
				if plain {
					s = strings.ReplaceAll(s, "&", "+")
				}
				return &Text{s}
			}
			var body []Stmt
			for n := 0; n == 0 || t.More(n, 4, 2); n++ {
				g.budget = 6
				body = append(body, g.stmts(3)...)
				if t.Chance(1, 3) {
					body = append(body, g.markup())
				}
			}
			tmpl := printBody(&style{t}, body)
			hasAmp := strings.Contains(tmpl, "&")
			for _, v := range g.w.vars {
				hasAmp = hasAmp || strings.Contains(dump(v.value), "&") && v.rType == tString && strings.Contains(v.value.String(), "#")
			}
			var outs, states [2]string
			for i, escape := range []bool{true, false} {
				w := *g.w
				w.escape = escape
				noteWorld(t, &w, tmpl)
				e := modelEnv(&w, body)
				want := runModel(e, body)
				if want.discarded != "" || want.panicked {
					t.Class("discarded: " + want.discarded + want.panicWhy)
					return
				}
				exec, newState := compileOK(t, w.planner(t), tmpl)
				st := newState()
				setVars(t, st, w.vars, newCloner())
				checkRun(t, &w, e, want, st, exec)
				outs[i] = st.Buffer.String()
				for _, v := range w.vars {
					got, _ := stateVar(st, v.name)
					states[i] += v.name + "=" + dump(got) + "\n"
				}
			}
			if !hasAmp {
				t.Class("unescaped")
				if got := html.UnescapeString(outs[0]); got != outs[1] {
					t.Fail("the escaped output %q\nunescapes to %q\n   instead of %q", outs[0], got, outs[1])
				}
			}
			if states[0] != states[1] {
				t.Fail("escaping changed the variables:\n%s\ninstead of\n%s", states[0], states[1])
			}
			g.classes()
			if outs[0] != outs[1] {
				t.Class("escaping matters")
				t.NonTrivial(strconv.Quote(tmpl) + fmt.Sprint(show(g.w)))
			}
		},
	})
}
