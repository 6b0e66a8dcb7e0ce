package props

import (
	"reflect"
	"strconv"
	"strings"

	"velty.verif/harness/engine"
)

// size draws a number around a power of two between 1<<lo and 1<<hi.
func size(t *engine.T, lo, hi int) int {
	return 1<<uint(t.Int(lo, hi)) + t.Int(0, 4) - 2
}

func small(t reflect.Type) int {
	if t.Kind() == reflect.Struct {
		return 8
	}
	return 11
}

// enlarge adds something big to the world, and statements using it.
func (g *gen) enlarge() {
	t := g.t
	define := func(v reflect.Value) *Ref {
		x := &Var{name: g.globalName(), rType: v.Type(), value: v}
		g.w.vars = append(g.w.vars, x)
		return &Ref{root: x.name, rType: x.rType}
	}
	local := func(rType reflect.Type) *Ref { return &Ref{root: g.freshName(), rType: rType} }
	at := func(r *Ref, st step, rType reflect.Type) *Ref {
		return &Ref{root: r.root, steps: append(append([]step{}, r.steps...), st), rType: rType}
	}
	add := func(s ...Stmt) { g.large = append(g.large, s...) }
	kind := ""
	g.w.fuel += 20000
	switch c := t.Weighted(3, 3, 2, 2, 2, 2, 2, 3, 4, 2, 3, 3, 1); c {
	case 0, 8:
		kind = "big slice"
		elem := engine.Pick(t, tInt, tString, tFloat, tBool, tSmall, reflect.PtrTo(tSmall), reflect.TypeOf(uint16(0)))
		n := size(t, 4, small(deref(elem)))
		huge := c == 8
		if huge {
			kind = "huge slice"
			elem = engine.Pick(t, tInt, tInt, reflect.TypeOf(uint16(0)), tBool)
			n = size(t, 15, 16) + t.Int(0, 9)
			g.w.fuel += 600000
		}
		v := reflect.MakeSlice(reflect.SliceOf(elem), n, n+t.Int(0, 1))
		few := make([]reflect.Value, t.Int(1, 5))
		for i := range few {
			few[i] = genValue(t, elem, 2)
		}
		for i := 0; i < n; i++ {
			if elem == tInt {
				v.Index(i).SetInt(int64(i))
			} else {
				v.Index(i).Set(few[i*7%11%len(few)])
			}
		}
		var s *Ref
		if t.Bool() {
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "N", Type: tString}, {Name: "Items", Type: v.Type()}}))
			st.Elem().Field(1).Set(v)
			if t.Bool() {
				st = st.Elem()
			}
			s = at(define(st), step{field: "Items", at: []int{1}}, v.Type())
		} else {
			s = define(v)
		}
		switch t.Weighted(6, 1, 3) {
		case 0:
			item := local(elem)
			body := []Stmt{&Render{item}, &Text{","}}
			if huge {
				body = []Stmt{&Text{"."}}
			}
			if !g.noSet && t.Bool() {
				count := local(tInt)
				add(&Set{count, intLit(0)})
				body = append(body, &Set{count, &Bin{"+", count, intLit(1), tInt}})
				defer add(&Render{count})
			}
			add(&Foreach{item: item.root, src: s, body: body})
		case 1:
			if !huge {
				add(&Render{s})
			}
		case 2:
			for i := 0; i < 3; i++ {
				add(&Render{at(s, step{index: intLit(int64(engine.Pick(t, 0, n-1, n/2, t.Int(0, n-1))))}, elem)}, &Text{";"})
			}
		}
	case 1:
		kind = "big string"
		s := define(reflect.ValueOf(strings.Repeat(engine.Pick(t, stringPieces...), size(t, 8, 15))))
		if t.Bool() {
			add(&Render{s})
		}
		if t.Bool() {
			add(&If{branches: []Branch{{&Bin{"==", s, define(reflect.ValueOf(strings.Clone(g.w.vars[len(g.w.vars)-1].value.String()))), tBool}, []Stmt{&Text{"eq"}}}}})
		}
		if !g.noSet && t.Bool() {
			c := local(tString)
			add(&Set{c, &Bin{"+", &Bin{"+", s, strLit("+"), tString}, s, tString}}, &Render{c})
		}
		add(&Text{"."}, &Render{s})
	case 2:
		kind = "big map"
		key, elem := engine.Pick(t, tInt, tString), engine.Pick(t, tInt, tString, tSmall)
		n := size(t, 3, 9)
		m := reflect.MakeMap(reflect.MapOf(key, elem))
		lit := func(i int) *Lit {
			if key == tInt {
				return intLit(int64(i))
			}
			return strLit("k" + strconv.Itoa(i))
		}
		for i := 0; i < n; i++ {
			e := genValue(t, elem, 1)
			if elem == tInt {
				e = reflect.ValueOf(i)
			}
			m.SetMapIndex(lit(i).v, e)
		}
		s := define(m)
		for i := 0; i < 4; i++ {
			add(&Render{at(s, step{key: lit(engine.Pick(t, 0, n-1, n, t.Int(0, n-1)))}, elem)}, &Text{";"})
		}
	case 3:
		kind = "many variables"
		for n := size(t, 4, 8); n > 0; n-- {
			rType := engine.Pick(t, worldTypes[:10]...)
			v := &Var{name: g.globalName(), rType: rType, unset: t.Chance(1, 8)}
			v.value = genValue(t, rType, 1)
			g.w.vars = append(g.w.vars, v)
			g.vars = append(g.vars, &genVar{name: v.name, rType: rType})
			if isBasic(rType) && t.Chance(1, 3) {
				add(&Render{&Ref{root: v.name, rType: rType}}, &Text{" "})
			}
		}
	case 4:
		kind = "long block"
		add(g.blockOf(size(t, 6, 10))...)
	case 5:
		kind = "long loop"
		n := size(t, 5, 12)
		long := t.Chance(1, 3)
		if long {
			kind = "very long loop"
			n = size(t, 13, 16) + t.Int(0, 9)
			g.w.fuel += 1000000
		}
		i := local(tInt)
		body := []Stmt{&Text{"."}}
		if !long && t.Bool() {
			body = []Stmt{&Render{i}, &Text{" "}}
		}
		if !g.noSet && t.Bool() {
			sum := local(tInt)
			add(&Set{sum, intLit(0)})
			body = append(body, &Set{sum, &Bin{"+", sum, i, tInt}})
			defer add(&Render{sum})
		}
		from := t.Int(0, 3) - 1
		switch {
		case g.noSet || t.Bool():
			if t.Bool() {
				from, n = n, from
			}
			add(&Foreach{item: i.root, a: from, b: n, body: body})
		default:
			add(&For{v: i.root, init: intLit(int64(from)), step: "++", by: 1, cond: &Bin{"<", i, intLit(int64(n)), tBool}, body: body})
		}
	case 6:
		kind = "long text"
		s := strings.Repeat(engine.Pick(t, "a", "<b> ", "text\n", "é", "$ ", "# ", "1.5 "), size(t, 8, 15))
		if t.Chance(1, 3) {
			add(&Raw{s})
		} else {
			add(&Text{s})
		}
		if r := g.ref(2, func(_ *genVar, s shape) bool { return isBasic(s.rType) }); r != nil {
			add(&Render{r})
		}
	case 7:
		kind = "long expression"
		if x := g.longExpr(size(t, 3, 7)); g.noSet {
			add(&If{branches: []Branch{{&Bin{"==", x, x, tBool}, []Stmt{&Text{"="}}}}})
		} else {
			r := local(x.typ())
			add(&Set{r, x}, &Render{r})
		}
	case 9:
		kind = "long chain"
		n := size(t, 2, 7)
		x := define(reflect.ValueOf(t.Int(-1, n)))
		chain := &If{}
		if t.Bool() {
			chain.hasElse, chain.els = true, []Stmt{&Text{"else"}}
		}
		last := engine.Pick(t, "==", "<=", "<")
		for i := 0; i < n; i++ {
			body := []Stmt{&Text{"b" + strconv.Itoa(i)}}
			if t.Chance(1, 8) {
				body = append(body, &Render{x})
			}
			op := "=="
			if i == n-1 {
				op = last
			}
			chain.branches = append(chain.branches, Branch{&Bin{op, x, intLit(int64(i)), tBool}, body})
		}
		add(chain)
	case 10:
		kind = "deep blocks"
		n := size(t, 2, 5)
		x := define(reflect.ValueOf(t.Int(0, 3)))
		body := []Stmt{&Render{x}}
		loops := 0
		for i := 0; i < n; i++ {
			before, after := []Stmt{&Text{string(rune('a' + i%26))}}, []Stmt{&Text{string(rune('A' + i%26))}}
			var block Stmt
			switch c := t.Int(0, 3); {
			case c == 0 && loops < 6:
				loops++
				item := local(tInt)
				block = &Foreach{item: item.root, a: 0, b: t.Int(1, 2), body: append([]Stmt{&Render{item}}, body...)}
			case c == 1 && loops < 6 && !g.noSet:
				loops++
				item := local(tInt)
				block = &For{v: item.root, init: intLit(1), step: "++", by: 1, cond: &Bin{"<=", item, intLit(int64(t.Int(1, 2))), tBool}, body: append([]Stmt{&Render{item}}, body...)}
			default:
				yes := &Bin{engine.Pick(t, ">=", "=="), x, x, tBool}
				no := &Bin{"<", x, x, tBool}
				switch t.Int(0, 3) {
				case 0:
					block = &If{branches: []Branch{{no, []Stmt{&Text{"-"}}}}, hasElse: true, els: body}
				case 1:
					block = &If{branches: []Branch{{no, []Stmt{&Text{"-"}}}, {yes, body}}}
				default:
					block = &If{branches: []Branch{{yes, body}}, hasElse: true, els: []Stmt{&Text{"+"}}}
				}
			}
			body = append(append(before, block), after...)
		}
		add(body...)
	case 11:
		kind = "deep path"
		n := size(t, 2, 5)
		leaf := engine.Pick(t, tInt, tString, tFloat, tBool, reflect.TypeOf(int16(0)))
		rType := leaf
		pads := []reflect.StructField{{Name: "A", Type: tBool}, {Name: "B", Type: tInt}, {Name: "C", Type: tString}, {Name: "D", Type: ptrTo(0)}, {Name: "E", Type: reflect.TypeOf(int8(0))}}
		var steps []step
		at := make([]int, n)
		nilAt := -1
		if t.Chance(1, 5) {
			nilAt = t.Int(0, n-1)
		}
		for i := n - 1; i >= 0; i-- {
			var fields []reflect.StructField
			for _, p := range pads {
				if t.Chance(1, 4) {
					fields = append(fields, p)
				}
			}
			if i < n-1 && (t.Chance(1, 3) || i+1 == nilAt) {
				rType = reflect.PtrTo(rType)
			}
			at[i] = len(fields)
			name := "F"
			if t.Chance(1, 4) {
				name = "F" + strconv.Itoa(i)
			}
			fields = append(fields, reflect.StructField{Name: name, Type: rType})
			if t.Bool() {
				fields = append(fields, reflect.StructField{Name: "Z", Type: tInt})
			}
			rType = reflect.StructOf(fields)
			steps = append([]step{{field: name, at: []int{at[i]}}}, steps...)
		}
		v := reflect.New(rType)
		x := v.Elem()
		for i := 0; i < n; i++ {
			for k := 0; k < x.NumField(); k++ {
				if k != at[i] {
					x.Field(k).Set(genValue(t, x.Field(k).Type(), 1))
				}
			}
			x = x.Field(at[i])
			if x.Kind() == reflect.Ptr {
				if i+1 == nilAt {
					break
				}
				x.Set(reflect.New(x.Type().Elem()))
				x = x.Elem()
			}
			if i == n-1 {
				x.Set(genValue(t, leaf, 1))
			}
		}
		if t.Bool() {
			v = v.Elem()
		}
		r := define(v)
		r.steps, r.rType = steps, leaf
		add(&Render{r})
		if !g.noSet && t.Bool() {
			set := genValue(t, leaf, 1)
			if leaf == tString {
				set = reflect.ValueOf(genLiteralString(t))
			}
			add(&Set{r, define(set)}, &Text{","}, &Render{r})
		}
	case 12:
		kind = "long name"
		v := &Var{name: g.globalName() + strings.Repeat(engine.Pick(t, "a", "Ab", "_", "x9"), size(t, 5, 9)), rType: tInt}
		v.value = reflect.ValueOf(t.Int(0, 99))
		twin := &Var{name: v.name + "x", rType: tInt, value: reflect.ValueOf(t.Int(0, 99))}
		g.w.vars = append(g.w.vars, v, twin)
		add(&Render{&Ref{root: v.name, rType: tInt}}, &Text{" "}, &Render{&Ref{root: twin.name, rType: tInt}})
		if !g.noSet {
			l := &Ref{root: v.name + "y", rType: tInt}
			add(&Set{l, &Bin{"+", &Ref{root: v.name, rType: tInt}, intLit(1), tInt}}, &Render{l})
		}
	}
	g.feature(kind)
}

// longExpr makes an expression of n operators.
func (g *gen) longExpr(n int) Expr {
	t := g.t
	rType := engine.Pick(t, tInt, tInt, tFloat, tString, tBool)
	leaf := func() Expr {
		switch rType {
		case tInt:
			if t.Chance(1, 4) {
				if r := g.ref(2, exact(tInt)); r != nil {
					return r
				}
			}
			return intLit(int64(t.Int(1, 9)))
		case tFloat:
			return floatLit(float64(t.Int(1, 16)) / 4)
		case tString:
			return strLit(string(rune('a' + t.Int(0, 25))))
		}
		return &Bin{engine.Pick(t, "==", "!=", "<", ">="), intLit(int64(t.Int(0, 3))), intLit(int64(t.Int(0, 3))), tBool}
	}
	op := func() string {
		switch rType {
		case tInt, tFloat:
			return engine.Pick(t, "+", "-", "*", "+", "-")
		case tString:
			return "+"
		}
		return engine.Pick(t, "&&", "||")
	}
	shape := t.Int(0, 2)
	var make func(n int) Expr
	make = func(n int) Expr {
		if n <= 0 {
			return leaf()
		}
		left := 0
		switch shape {
		case 0:
			left = n - 1
		case 2:
			left = t.Int(0, n-1)
		}
		return &Bin{op(), make(left), make(n - 1 - left), rType}
	}
	return make(n)
}

func (g *gen) takeLarge() []Stmt {
	if g.enlarges {
		g.enlarges = false
		g.enlarge()
	}
	out := g.large
	g.large = nil
	return out
}
