package props

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/viant/velty/est"
	"github.com/viant/velty/utils"
	"velty.verif/harness/engine"
)

type colour int

func (c colour) String() string { return fmt.Sprintf("<colour %d>", int(c)) }

type label string

type point struct {
	X, Y int
	Name string
}

type figure struct{ Name string }

func (f figure) String() string { return "&" + f.Name + "&" }

type stringer interface{ String() string }

var tStringer = reflect.TypeOf((*stringer)(nil)).Elem()

var renderTypes = []reflect.Type{tInt, tFloat, tString, tBool, tAny, tTime, tSmall, tLeaf, tNode, tPair, tStringer, reflect.PtrTo(tSmall), reflect.PtrTo(tNode), reflect.PtrTo(tPair), reflect.PtrTo(tTime),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), ptrTo(0), ptrTo(0.5), ptrTo(""), ptrTo(true), ptrTo(int8(0)), ptrTo(uint64(0)), ptrTo(float32(0)), reflect.TypeOf([]int{}), reflect.TypeOf([]byte{}), reflect.TypeOf([]string{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]bool{}),
	reflect.TypeOf([]Small{}), reflect.TypeOf([]*Small{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf([][]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(map[int]string{}), reflect.TypeOf(map[string]interface{}{}),
	reflect.TypeOf(map[string]*Small{}), reflect.TypeOf([3]int{}), reflect.TypeOf(label("")), reflect.TypeOf(colour(0)), reflect.TypeOf([]time.Time{})}

// ifaceValue draws what an interface may hold.
func ifaceValue(t *engine.T) interface{} {
	switch t.Uint(20) {
	case 0:
		return int(genInt(t))
	case 1:
		return genString(t)
	case 2:
		return genFloat(t)
	case 3:
		return t.Bool()
	case 4:
		return nil
	case 5:
		return genTime(t)
	case 6:
		if t.Chance(1, 6) {
			return (*time.Time)(nil)
		}
		ts := genTime(t)
		return &ts
	case 7:
		return colour(t.Int(-2, 9))
	case 8:
		return label(genString(t))
	case 9:
		return point{int(genInt(t)), t.Int(0, 9), genString(t)}
	case 10:
		return figure{genString(t)}
	case 11:
		return []int{t.Int(0, 9), int(genInt(t))}
	case 12:
		return map[string]string{genString(t): genString(t), "b": "<"}
	case 13:
		return errors.New(genString(t))
	case 14:
		return engine.Pick[interface{}](t, int8(genInt(t)), int16(genInt(t)), int32(genInt(t)), int64(genInt(t)))
	case 15:
		return engine.Pick[interface{}](t, uint8(genInt(t)), uint16(genInt(t)), uint32(genInt(t)), uint64(genInt(t)), uint(genInt(t)))
	case 16:
		return float32(genFloat(t))
	case 17:
		return []interface{}{nil, genString(t), t.Int(0, 9)}
	case 18:
		return &point{1, 2, genString(t)}
	}
	return []string{genString(t), genString(t)}
}

func genTime(t *engine.T) time.Time {
	ts := time.Unix(int64(t.Uint(1<<33)), int64(t.Uint(1e9))).UTC()
	if t.Chance(1, 3) {
		ts = ts.In(time.FixedZone("", 60*t.Int(-14*60, 14*60)))
	}
	return ts
}

func longString(t *engine.T) string {
	s := genString(t)
	if s == "" {
		s = "x"
	}
	return strings.Repeat(s, t.Small(300))
}

func renderFloat(t *engine.T) float64 {
	switch t.Uint(6) {
	case 0:
		return math.Float64frombits(t.Bits())
	case 1:
		return engine.Pick(t, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 1e21, 1e20, 1e-7, 0.1+0.2, 123456789.125, 1<<53)
	}
	return genFloat(t)
}

// bufferOps drives a buffer and compares it with a strings.Builder.
func bufferOps(t *engine.T) {
	size, escape := t.Small(5000), t.Chance(1, 3)
	b := est.NewBuffer(size, escape)
	var want strings.Builder
	t.Note("est.NewBuffer(%d, %v)", size, escape)
	note := func(format string, args ...interface{}) {
		t.Note(format, args...)
	}
	grown := false
	for n := 0; n == 0 || t.More(n, 60, 12); n++ {
		var op string
		switch t.Weighted(4, 4, 2, 3, 5, 4, 1, 2) {
		case 0:
			c := byte(t.Uint(256))
			op = fmt.Sprintf("AppendByte(%q)", c)
			note("%s", op)
			b.AppendByte(c)
			want.WriteByte(c)
		case 1:
			i := int(genInt(t))
			op = fmt.Sprintf("AppendInt(%d)", i)
			note("%s", op)
			b.AppendInt(i)
			want.WriteString(strconv.Itoa(i))
		case 2:
			v := t.Bool()
			op = fmt.Sprintf("AppendBool(%v)", v)
			note("%s", op)
			b.AppendBool(v)
			want.WriteString(strconv.FormatBool(v))
		case 3:
			f := renderFloat(t)
			op = fmt.Sprintf("AppendFloat(%v)", f)
			note("%s", op)
			b.AppendFloat(f)
			want.WriteString(strconv.FormatFloat(f, 'f', -1, 64))
		case 4:
			s := genString(t)
			op = fmt.Sprintf("AppendString(%q)", s)
			note("%s", op)
			b.AppendString(s)
			want.WriteString(escapeIf(escape, s))
		case 5:
			s := longString(t)
			if t.Chance(1, 4) && want.Len() < size { // exactly up to the end of the buffer, or around it
				s = strings.Repeat("z", max(0, size-want.Len()+t.Int(-1, 1)))
			}
			op = fmt.Sprintf("AppendStringWithoutEscaping(%d bytes)", len(s))
			note("AppendStringWithoutEscaping(%q)", s)
			b.AppendStringWithoutEscaping(s)
			want.WriteString(s)
		case 6:
			op = "Reset()"
			note("Reset()")
			b.Reset()
			want.Reset()
		case 7:
			i := t.Int(-101, 1001)
			op = fmt.Sprintf("AppendInt(%d)", i)
			note("%s", op)
			b.AppendInt(i)
			want.WriteString(strconv.Itoa(i))
		}
		if want.Len() > size {
			grown = true
		}
		if got := b.String(); got != want.String() {
			t.Fail("after %s the buffer holds %q\n    want %q", op, got, want.String())
		}
		if got := string(b.Bytes()); got != want.String() {
			t.Fail("after %s Bytes() is %q\n    want %q", op, got, want.String())
		}
	}
	t.Class("buffer operations")
	if grown {
		t.Class("buffer operations: grown")
		t.NonTrivial(strings.Join([]string{strconv.Itoa(size), want.String()}, "|"))
	}
}

func appendInt(t *engine.T) {
	var i int64
	switch t.Uint(5) {
	case 0:
		i = genInt(t)
	case 1:
		i = int64(t.Bits())
	case 2: // around a power of a base
		base := int64(t.Int(2, 36))
		i = 1
		for n := t.Int(1, 62); n > 0 && i < math.MaxInt64/base; n-- {
			i *= base
		}
		i += int64(t.Int(-1, 1))
		if t.Bool() {
			i = -i
		}
	case 3:
		i = int64(t.Int(-200, 2000))
	default:
		i = int64(t.Bits()) >> t.Uint(64)
	}
	room, exact := 65+t.Int(0, 40), t.Chance(1, 2)
	slack := t.Int(0, 3)
	t.Note("utils.AppendInt(%d) in all bases", i)
	for base := 2; base <= 36; base++ {
		want := strconv.FormatInt(i, base)
		if exact {
			room = len(want) + slack
		}
		dst := make([]byte, room)
		for k := range dst {
			dst[k] = byte('A' + k%26)
		}
		n := utils.AppendInt(dst, i, base)
		if n < 0 || n > len(dst) || string(dst[:n]) != want {
			t.Fail("utils.AppendInt(%d bytes, %d, %d) returned %d and wrote %q, want %q", len(dst), i, base, n, dst, want)
		}
	}
	t.Class("AppendInt")
	t.NonTrivial(fmt.Sprint(i, room, exact, slack))
}

// rendering renders random values among text with buffers of several sizes.
func rendering(t *engine.T, escape bool) {
	g := newGen(t)
	g.w.setup = nil
	g.w.escape = escape
	g.vars = nil
	var body []Stmt
	names := append([]string{}, varNames...)
	kinds := 0
	for n := 0; n == 0 || t.More(n, 8, 4) && len(names) > 0; n++ {
		name := names[0]
		names = names[1:]
		rt := renderTypes[t.Uint(uint64(len(renderTypes)))]
		if t.Chance(1, 4) {
			rt = tAny
		}
		v := &Var{name: name, rType: rt, unset: t.Chance(1, 20)}
		switch {
		case rt == tAny:
			v.value = reflect.New(tAny).Elem()
			if i := ifaceValue(t); i != nil {
				v.value.Set(reflect.ValueOf(i))
			}
		case rt == tStringer:
			v.value = reflect.New(rt).Elem()
			switch t.Uint(3) {
			case 0:
				v.value.Set(reflect.ValueOf(colour(t.Int(-1, 3))))
			case 1:
				v.value.Set(reflect.ValueOf(figure{genString(t)}))
			}
		case rt == tString && t.Bool():
			v.value = reflect.ValueOf(longString(t))
		case rt == tFloat && t.Bool():
			v.value = reflect.ValueOf(renderFloat(t))
		case rt.Kind() == reflect.Array:
			v.value = reflect.New(rt).Elem()
			v.value.Index(1).SetInt(genInt(t))
		default:
			v.value = genValue(t, rt, 4)
		}
		if v.value.Kind() == reflect.Interface && v.value.IsNil() {
			v.unset = true
		}
		g.w.vars = append(g.w.vars, v)
		gv := &genVar{name: name, rType: rt}
		r := &Ref{root: name, rType: rt}
		if isStructural(rt) && t.Bool() {
			g.vars = []*genVar{gv}
			g.noIndex = true
			if s := g.ref(3, func(_ *genVar, s shape) bool { return true }); s != nil {
				r = s
			}
		}
		kinds++
		g.feature("render " + kindOf(r.rType))
		if rt == tAny && !v.unset {
			g.feature(fmt.Sprintf("interface holding %T", v.value.Interface()))
		}
		here := []Stmt{&Render{r}, &Text{engine.Pick(t, "|", ",", "\n", " <b> ", "é", "|"+strings.Repeat("-", t.Small(200)))}}
		if t.Chance(1, 5) {
			here = []Stmt{&Foreach{item: g.freshName(), a: 1, b: t.Int(1, 40), body: here}}
			g.feature("repeated")
		}
		if t.Chance(1, 5) {
			here = append([]Stmt{&Text{strings.Repeat("0123456789", t.Small(120))}}, here...)
		}
		body = append(body, here...)
	}
	if kinds == 0 {
		return
	}
	if t.Chance(1, 4) {
		body = append(body, &Render{pickRef(g)})
	}
	tmpl := printBody(&style{t}, body)
	e := modelEnv(g.w, body)
	want := runModel(e, body)
	if want.discarded != "" {
		t.Class("discarded: " + want.discarded)
		return
	}
	sizes := []int{-1, 0, 1, len(want.out) + t.Int(-2, 2), t.Small(4096)}
	for _, size := range sizes {
		if size < -1 {
			size = 0
		}
		w := *g.w
		w.bufSize = size
		if size == -1 {
			noteWorld(t, &w, tmpl)
		} else {
			t.Note("bufferSize=%d", size)
		}
		exec, newState := compileOK(t, w.planner(t), tmpl)
		st := newState()
		setVars(t, st, w.vars, newCloner())
		for round := 0; round < 2; round++ {
			var err error
			r, stack := engine.Protect(func() { err = exec.Exec(st) })
			switch {
			case want.panicked:
				if r == nil {
					t.Fail("the execution has to panic: %s", want.panicWhy)
				}
				t.Class("panic: " + want.panicWhy)
			case r != nil:
				t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
			case err != nil:
				t.Fail("Exec returned error %v", err)
			}
			if got := st.Buffer.String(); got != want.out {
				t.Fail("with a buffer of %d bytes (execution %d) rendered\n         %q\n    want %q", size, round+1, got, want.out)
			}
			if got := string(st.Buffer.Bytes()); got != want.out {
				t.Fail("Bytes() differ from String(): %q", got)
			}
			st.Reset()
		}
	}
	g.classes()
	t.NonTrivial(tmpl + show(g.w))
}

func pickRef(g *gen) *Ref {
	v := g.w.vars[g.t.Uint(uint64(len(g.w.vars)))]
	return &Ref{root: v.name, rType: v.rType}
}

func isStructural(rt reflect.Type) bool {
	return deref(rt).Kind() == reflect.Struct && deref(rt) != tTime
}

func kindOf(rt reflect.Type) string {
	if rt == tTime {
		return "time"
	}
	if rt.Kind() == reflect.Ptr {
		return "*" + kindOf(rt.Elem())
	}
	return rt.Kind().String()
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C08",
		Rule: "(1) random sequences of up to 60 appends and resets on est.Buffer of initial size 0..5000 against a strings.Builder, non-trivial when it outgrows the initial size; (2) utils.AppendInt in every base, into space of random size down to the exact one, against strconv; " +
			"(3) templates rendering values of 48 types, and interfaces holding 20 kinds of value, among text, in loops, with 5 buffer sizes around the size of the output, executed twice on the same reset state, against the canonical forms (strconv, encoding/json, fmt)",
		Quick: 100000, Thorough: 4000000,
		Run: func(t *engine.T) {
			switch t.Weighted(6, 3, 1) {
			case 0:
				rendering(t, t.Chance(1, 4))
			case 1:
				bufferOps(t)
			case 2:
				appendInt(t)
			}
		},
	})
}
