package props

import (
	"reflect"
	"time"

	"velty.verif/harness/engine"
)

// Pair sits behind slices and pointers, its fields surround each other with small neighbours.
type Pair struct {
	A  int8
	B  int16
	C  bool
	D  string
	E  uint8
	F  float32
	G  *int16
	H  Small
	I  []string
	J  uint32
	K  interface{}
	L  bool
	T  time.Time
	N  *Pair
	M  map[string]int
	U8 uint8
	UI uint
}

var tPair = reflect.TypeOf(Pair{})

func ptrTo(v interface{}) reflect.Type { return reflect.PtrTo(reflect.TypeOf(v)) }

var setTypes = []reflect.Type{tPair, reflect.PtrTo(tPair), tNode, reflect.PtrTo(tNode), tLeaf, reflect.PtrTo(tLeaf), tSmall, reflect.PtrTo(tSmall),
	reflect.TypeOf([]Pair{}), reflect.TypeOf([]*Pair{}), reflect.TypeOf([]int8{}), reflect.TypeOf([]byte{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]uint16{}),
	reflect.TypeOf([]string{}), reflect.TypeOf([]float32{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]time.Time{}), reflect.TypeOf([][]string{}),
	tInt, tFloat, tString, tBool, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)),
	ptrTo(0), ptrTo(0.5), ptrTo(""), ptrTo(true), ptrTo(int8(0)), ptrTo(uint16(0)), ptrTo(int32(0)), ptrTo(uint64(0)), ptrTo(float32(0)), tAny, tTime, reflect.PtrTo(tTime),
	reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[string]*Pair{}), reflect.TypeOf(map[int]string{}), ptrTo([]int{}), reflect.PtrTo(reflect.PtrTo(tSmall))}

func number(t reflect.Type) bool {
	return t.Kind() != reflect.Uintptr && (isIntKind(t.Kind()) || isFloatKind(t.Kind()))
}

// converts says whether values of one type may be assigned to targets of the other.
func converts(from, to reflect.Type) bool {
	switch {
	case from == to:
		return true
	case number(from) && number(to):
		return !badConversion(from, to)
	case to.Kind() == reflect.Ptr && to.Elem() == from:
		return basicKind(from)
	}
	return false
}

// maybeConverts lists conversions that may be rejected, but have to be right when they are not.
func maybeConverts(from, to reflect.Type) bool {
	if from.Kind() == reflect.Ptr && basicKind(from.Elem()) {
		from = from.Elem()
	}
	switch {
	case from == to:
		return true
	case number(from) && number(to):
		return !badConversion(from, to)
	case from.Kind() == reflect.Bool && isIntKind(to.Kind()), isIntKind(from.Kind()) && to.Kind() == reflect.Bool:
		return true
	case to == tString:
		return from.Kind() == reflect.Bool || number(from)
	case to.Kind() == reflect.Ptr && basicKind(to.Elem()) && basicKind(from):
		return maybeConverts(from, to.Elem())
	}
	return false
}

func basicKind(t reflect.Type) bool {
	return number(t) || t.Kind() == reflect.String || t.Kind() == reflect.Bool
}

func (g *gen) assignment(exotic bool) (*Set, bool) {
	t := g.t
	target := g.ref(4, func(v *genVar, s shape) bool { return g.assignable(v, s) })
	if target == nil {
		return nil, false
	}
	rejectable := false
	fits := converts
	if exotic && t.Chance(1, 2) {
		fits, rejectable = maybeConverts, true
	}
	var x Expr
	if t.Chance(2, 5) {
		for _, k := range []reflect.Type{tInt, tFloat, tString, tBool} {
			if fits(k, target.rType) && (x == nil || t.Bool()) {
				x = g.expr(k, 2)
			}
		}
		if x != nil && !fits(x.typ(), target.rType) {
			x = nil
		}
	}
	if x == nil {
		want := 1
		if t.Chance(1, 3) {
			want = 3
		}
		r := g.ref(4, func(_ *genVar, s shape) bool {
			return fits(s.rType, target.rType) && (want == 3 || len(s.steps) <= want)
		})
		if r == nil {
			return nil, false
		}
		x = r
	}
	g.feature("set " + target.rType.Kind().String())
	if x.typ() != target.rType {
		g.feature("set " + target.rType.Kind().String() + " converted")
	}
	if len(target.steps) > 1 {
		g.feature("set nested")
	}
	return &Set{target, x}, rejectable
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C05",
		Rule: "random sequences of 1 to 10 assignments, some inside conditionals and loops, to variables and nested, embedded, indexed and pointed-to fields of every kind, from literals, expressions and references of the same or a convertible type, " +
			"each followed by reads; the plan is executed on three states (random values, nothing set, other random values) and every variable of each state, followed through all pointers, is compared with a model afterwards, again after the later executions; " +
			"non-trivial: at least 2 assignments in a program whose behaviour is specified",
		Quick: 80000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.types = setTypes
			g.calls, g.noIndex = t.Chance(1, 4), t.Chance(2, 3)
			g.world(6)
			exotic := t.Chance(1, 4)
			body := g.takeLarge()
			sets, mayReject := 0, false
			for n := 0; n == 0 || t.More(n, 10, 3); n++ {
				var here []Stmt
				wrap := t.Weighted(6, 1, 1)
				var cond Expr
				if wrap == 1 {
					cond = g.cond()
				}
				s, rejectable := g.assignment(exotic)
				if s != nil {
					sets++
					mayReject = mayReject || rejectable
					here = append(here, s)
					if t.Chance(1, 2) {
						here = append(here, &Render{s.target}, &Text{"|"})
					}
				} else if s := g.set(); s != nil {
					here = append(here, s)
				}
				if t.Chance(1, 6) {
					if r := g.ref(4, func(*genVar, shape) bool { return true }); r != nil {
						v := &genVar{name: g.freshName(), rType: r.rType}
						g.vars = append(g.vars, v)
						here = append(here, &Set{&Ref{root: v.name, rType: v.rType}, r})
						g.feature("copy")
					}
				}
				switch wrap {
				case 1:
					g.feature("in #if")
					here = []Stmt{&If{branches: []Branch{{cond, here}}}}
				case 2:
					g.feature("in #foreach")
					here = []Stmt{&Foreach{item: g.freshName(), a: 0, b: t.Int(1, 3), body: here}}
				}
				body = append(body, here...)
			}
			tmpl := printBody(&style{t}, body)
			noteWorld(t, g.w, tmpl)
			p := g.w.planner(t)
			if mayReject {
				if c := compileAny(t, p, tmpl); !c.ok {
					t.Class("conversion rejected: " + c.err)
					return
				}
				p = g.w.planner(t)
			}
			exec, newState := compileOK(t, p, tmpl)
			var done []func()
			specified := false
			for round := 0; round < 3; round++ {
				w := *g.w
				w.vars = nil
				for _, v := range g.w.vars {
					c := *v
					switch {
					case v.name == "ix":
					case round == 1:
						c.unset = true
					case round == 2:
						c.unset = false
						c.value = genValue(t, v.rType, 4)
					}
					w.vars = append(w.vars, &c)
				}
				if round > 0 {
					t.Note("execution %d with\n%s", round+1, show(&w))
				}
				e := modelEnv(&w, body)
				want := runModel(e, body)
				if want.discarded != "" {
					t.Class("discarded: " + want.discarded)
					continue
				}
				specified = true
				st := newState()
				setVars(t, st, w.vars, newCloner())
				checkRun(t, &w, e, want, st, exec)
				for _, d := range done {
					d()
				}
				done = append(done, func() { compareState(t, e, st) })
			}
			g.classes()
			if specified && sets >= 2 {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}
