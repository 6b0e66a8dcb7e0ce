package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

// evalPool knows what the texts of templates mean.
type evalPool struct {
	bodies map[string][]Stmt // nil: not a valid template
	valid  []string
	all    []string
	refs   []*Ref // variables holding them
}

// EvalText evaluates the template text an expression gives.
type EvalText struct {
	x    Expr
	pool *evalPool
}

func (s *EvalText) exec(e *env) {
	text := plain(s.x.eval(e)).String()
	body, ok := s.pool.bodies[text]
	if !ok {
		panic(discard{"text of unknown meaning"})
	}
	e.evaluated = append(e.evaluated, text)
	e.burn()
	if e.depth > 12 {
		panic(discard{"endless evaluation"})
	}
	e.depth++
	defer func() { e.depth-- }()
	(&Evaluate{s.x, body}).exec(e)
}

func (s *EvalText) print(p *printer) { (&Evaluate{x: s.x}).print(p) }

var invalidTemplates = []string{"#if(", "#if($a)", "#end", "#foreach($x in $nope)#end x", "#else", "a#set($v = )b", "#if(true)x", "#for($i=0;$i<2;$i++)", "#elseif(1 == 1)", "x #if(1 == )y#end"}

func (g *gen) addTemplate(p *evalPool, depth int) {
	t := g.t
	n := len(g.vars)
	var body []Stmt
	text := ""
	if t.Chance(1, 10) {
		text = engine.Pick(t, invalidTemplates...)
		if compileAny(t, g.w.planner(t), text).err == "" {
			return
		}
		g.feature("invalid template")
	} else {
		noSet := g.noSet
		g.noSet = t.Bool()
		g.budget = 4
		if g.local = 0; t.Chance(1, 3) {
			g.local = 1
		}
		body = g.stmts(depth)
		if g.local > 1 {
			g.feature("same names in templates")
		}
		g.noSet = noSet
		if body == nil {
			body = []Stmt{}
		}
		text = printBody(&style{t}, body)
		if g.local <= 1 {
			p.valid = append(p.valid, text)
		}
		g.local = 0
	}
	g.vars = g.vars[:n]
	p.all = append(p.all, text)
	p.bodies[text] = body
}

// template makes an expression that gives a known text.
func (g *gen) template(p *evalPool) Expr {
	t := g.t
	pick := func() Expr {
		ref := p.refs[t.Uint(uint64(len(p.refs)))]
		return ref
	}
	literal := func() *Lit {
		if len(p.all) == 0 {
			return nil
		}
		text := p.all[t.Uint(uint64(len(p.all)))]
		if strings.ContainsAny(text, "\"\\") || strings.HasPrefix(text, "$") { // a reference in quotes is that reference
			return nil
		}
		return strLit(text)
	}
	switch t.Weighted(6, 2, 2, 1) {
	case 1:
		if l := literal(); l != nil {
			g.feature("literal template")
			return l
		}
	case 2: // a concatenation
		var x Expr
		text := ""
		var body []Stmt
		for n := t.Int(1, 3); n > 0; n-- {
			if len(p.valid) == 0 {
				break
			}
			s := p.valid[t.Uint(uint64(len(p.valid)))]
			sep := engine.Pick(t, "|", " ", "\n", "<br>")
			var y Expr = g.textVar(s)
			if x != nil {
				y = &Bin{op: "+", x: x, y: y, rType: tString}
			}
			x = &Bin{op: "+", x: y, y: strLit(sep), rType: tString}
			text += s + sep
			body = append(append(body, p.bodies[s]...), &Text{sep})
		}
		if x != nil {
			g.feature("concatenated template")
			p.bodies[text] = body
			return x
		}
	case 3:
		g.feature("template by function")
		f := engine.Pick(t, "samestring", "samestring")
		return &Call{name: f, args: []Expr{pick()}, param: []reflect.Type{tString}, rType: tString, fn: func(a []reflect.Value) (reflect.Value, error) { return a[0], nil }}
	}
	return pick()
}

// inline replaces evaluations by what they evaluate.
func inline(body []Stmt) []Stmt {
	var out []Stmt
	for _, s := range body {
		switch s := s.(type) {
		case *Evaluate:
			out = append(out, inline(s.body)...)
			continue
		case *If:
			c := *s
			c.branches = nil
			for _, b := range s.branches {
				c.branches = append(c.branches, Branch{b.cond, inline(b.body)})
			}
			c.els = inline(s.els)
			out = append(out, &c)
			continue
		case *Foreach:
			c := *s
			c.body = inline(s.body)
			out = append(out, &c)
			continue
		case *For:
			c := *s
			c.body = inline(s.body)
			out = append(out, &c)
			continue
		}
		out = append(out, s)
	}
	return out
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C13",
		Rule: "either programs evaluating up to 8 generated templates (valid and invalid, with nested evaluation, assignments, loops, undefined references, variables of the same name and different types) held by variables, literals, slices iterated by loops, concatenations and function results, executed 1 to 6 times with other values and templates, for cache sizes from 0 to 5, against a model; " +
			"or programs with static evaluation rendered as they are and with the evaluated text inlined; non-trivial: at least 2 evaluations happened",
		Quick: 60000, Thorough: 4000000,
		Run: func(t *engine.T) {
			if t.Chance(1, 4) {
				inlineCase(t)
				return
			}
			prog := newEvalProgram(t)
			if prog == nil {
				return
			}
			g, body := prog.g, prog.body
			tmpl := printBody(&style{t}, body)
			noteWorld(t, g.w, tmpl)
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			evaluations := 0
			for n := 0; n == 0 || t.More(n, 6, 3); n++ {
				if n > 0 {
					prog.redraw()
					t.Note("execution %d with\n%s", n+1, show(g.w))
				}
				e := modelEnv(g.w, body)
				want := runModel(e, body)
				if want.discarded != "" || want.panicked {
					t.Class("discarded: " + want.discarded + want.panicWhy)
					continue
				}
				st := newState()
				setVars(t, st, g.w.vars, newCloner())
				checkRun(t, g.w, e, want, st, exec)
				evaluations += len(e.evaluated)
				if len(st.Errors) > 0 {
					t.Fail("errors: %v", st.Errors)
				}
			}
			g.classes()
			t.Class(fmt.Sprintf("cache size %d", g.w.cache))
			if evaluations >= 2 {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}

// inlineCase compares a program with the one that has the evaluated text in it.
func inlineCase(t *engine.T) {
	g := newGen(t)
	g.noSet = true
	g.calls = t.Bool()
	g.evalW = 4
	g.noIndex = t.Chance(3, 4)
	g.world(6)
	g.w.cache = t.Int(0, 2)
	body := g.stmts(3)
	evaluated := printBody(&style{t}, body)
	inlined := printBody(&style{t}, inline(body))
	noteWorld(t, g.w, evaluated)
	t.Note("inlined: %q", inlined)
	e := modelEnv(g.w, body)
	want := runModel(e, body)
	if want.discarded != "" || want.panicked {
		t.Class("discarded: " + want.discarded + want.panicWhy)
		return
	}
	var outs [2]string
	for i, tmpl := range []string{evaluated, inlined} {
		exec, newState := compileOK(t, g.w.planner(t), tmpl)
		st := newState()
		setVars(t, st, g.w.vars, newCloner())
		if err := exec.Exec(st); err != nil {
			t.Fail("Exec: %v", err)
		}
		outs[i] = st.Buffer.String()
	}
	if outs[0] != outs[1] {
		t.Fail("rendered  %q\n inlined  %q", outs[0], outs[1])
	}
	t.Class("inlined")
	if g.features["evaluate"] {
		t.NonTrivial(evaluated + show(g.w))
	}
}

// evalProgram is a program evaluating templates.
type evalProgram struct {
	g      *gen
	body   []Stmt
	redraw func() // other values and templates
}

func newEvalProgram(t *engine.T) *evalProgram {
	g := newGen(t)
	g.calls = t.Bool()
	g.noIndex = t.Chance(3, 4)
	g.world(5)
	g.w.setup = func(p *velty.Planner) { registerPure(p); registerIdentities(p) }
	g.w.cache = t.Int(0, 5)
	prog := &evalProgram{g: g}
	p := &evalPool{bodies: map[string][]Stmt{}}
	// variables of loops that evaluated templates may use
	loopVar := &genVar{name: "turn", rType: tInt, reserved: true}
	g.w.vars = append(g.w.vars, &Var{name: "turn", rType: tInt, value: reflect.ValueOf(0)})
	g.vars = append(g.vars, loopVar)
	g.textFn = func() Stmt {
		if t.Chance(1, 8) {
			return &Undef{engine.Pick(t, "$nope", "${nope}", "$nope.x"), " "}
		}
		return &Text{g.text()}
	}
	for n := 0; n == 0 || t.More(n, 8, 3); n++ {
		g.addTemplate(p, 2)
	}
	many := 0
	if t.Chance(1, 60) {
		many = size(t, 4, 8)
		g.w.cache = engine.Pick(t, 0, 1, many/2, many, many+1, 2*many, t.Int(0, 300))
		g.w.fuel += 2000
		g.feature("many templates")
		for k := 0; k < many; k++ {
			body := []Stmt{&Text{"<" + strconv.Itoa(k) + ">"}}
			if r := g.ref(2, func(_ *genVar, s shape) bool { return isBasic(s.rType) }); r != nil && t.Bool() {
				body = append(body, &Render{r})
			}
			text := printBody(&style{}, body)
			p.bodies[text] = body
			p.all = append(p.all, text)
			p.valid = append(p.valid, text)
		}
	}
	if len(p.all) == 0 {
		return nil
	}
	draw := func() reflect.Value { return reflect.ValueOf(p.all[t.Uint(uint64(len(p.all)))]) }
	var holders []*Var
	for n := 0; n == 0 || t.More(n, 4, 1); n++ {
		v := &Var{name: fmt.Sprintf("t%d", n), rType: tString, value: draw()}
		holders = append(holders, v)
		g.w.vars = append(g.w.vars, v)
		p.refs = append(p.refs, &Ref{root: v.name, rType: tString})
	}
	list := &Var{name: "ts", rType: reflect.TypeOf([]string{}), value: reflect.MakeSlice(reflect.TypeOf([]string{}), 0, 0)}
	drawList := func() {
		list.value = reflect.MakeSlice(list.rType, 0, 0)
		n := t.Int(0, 9)
		if many > 0 {
			n = t.Int(many, 3*many)
		}
		for ; n > 0; n-- {
			list.value = reflect.Append(list.value, draw())
		}
	}
	drawList()
	g.w.vars = append(g.w.vars, list)
	// the templates evaluate others
	if t.Chance(1, 3) {
		body := []Stmt{&Text{"<"}, &EvalText{g.template(p), p}, &Text{">"}}
		text := printBody(&style{t}, body)
		if t.Bool() {
			body = append(body, &Render{g.ref(2, func(*genVar, shape) bool { return true })})
			text = printBody(&style{t}, body)
		}
		p.bodies[text] = body
		p.all = append(p.all, text)
		g.feature("nested evaluation")
	}
	var body []Stmt
	for n := 0; n == 0 || t.More(n, 6, 3); n++ {
		ev := &EvalText{g.template(p), p}
		switch t.Weighted(4, 2, 2, 1) {
		case 0:
			body = append(body, ev)
		case 1:
			g.feature("evaluated in for")
			body = append(body, &For{v: "turn", init: intLit(0), cond: &Bin{op: "<", x: &Ref{root: "turn", rType: tInt}, y: intLit(int64(t.Int(1, 4))), rType: tBool}, step: "++", by: 1, body: []Stmt{ev, &Text{";"}}})
		case 2:
			g.feature("evaluated list")
			item := g.freshName()
			in := &EvalText{&Ref{root: item, rType: tString}, p}
			body = append(body, &Foreach{item: item, src: &Ref{root: "ts", rType: list.rType}, body: []Stmt{in, &Text{","}}})
		case 3:
			g.budget = 2
			body = append(body, &If{branches: []Branch{{g.cond(), []Stmt{ev}}}, hasElse: true, els: g.stmts(1)})
		}
		if t.Chance(1, 2) {
			g.budget = 2
			n := len(g.vars)
			body = append(body, g.stmts(1)...)
			g.vars = g.vars[:n]
		}
		if t.Chance(1, 4) { // another template in the variable
			k := t.Int(0, len(p.refs)-1)
			if s := p.all[t.Uint(uint64(len(p.all)))]; !strings.ContainsAny(s, "\"\\") && !strings.HasPrefix(s, "$") {
				body = append(body, &Set{p.refs[k], strLit(s)})
				g.feature("template assigned")
			}
		}
	}
	prog.body = body
	prog.redraw = func() {
		for _, v := range g.w.vars {
			switch {
			case v.name == "ix" || v.name == "turn" || strings.HasPrefix(v.name, "v"):
			case v == list:
				drawList()
			case v.rType == tString && strings.HasPrefix(v.name, "t"):
				v.value = draw()
			default:
				if t.Bool() {
					v.value = genValue(t, v.rType, 4)
				}
			}
		}
	}
	return prog
}
