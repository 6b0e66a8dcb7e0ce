package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

var comparedTypes = []reflect.Type{tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), tFloat, tString, tBool}

// comparedValue draws values which are near each other, or differ in few bits, often.
func comparedValue(t *engine.T, rt reflect.Type, near []reflect.Value) reflect.Value {
	v := reflect.New(rt).Elem()
	var base reflect.Value
	if len(near) > 0 && t.Chance(1, 2) {
		base = near[t.Int(0, len(near)-1)]
	}
	bits := uint(1)
	if isIntKind(rt.Kind()) || isFloatKind(rt.Kind()) {
		bits = uint(rt.Bits())
	}
	flip := uint64(0)
	switch t.Weighted(2, 1, 2) {
	case 1:
		flip = 1
	case 2:
		flip = 1 << t.Uint(uint64(bits))
	}
	switch rt.Kind() {
	case reflect.String:
		switch {
		case !base.IsValid():
			v.SetString(genString(t))
		case flip == 0:
			v.SetString(strings.Clone(base.String()))
		case flip == 1:
			v.SetString(base.String() + engine.Pick(t, "a", " ", "\x00", "é"))
		default:
			s := base.String()
			v.SetString(s[:t.Int(0, len(s))])
		}
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Float32, reflect.Float64:
		f := genFloat(t)
		switch {
		case base.IsValid() && rt.Kind() == reflect.Float32:
			f = float64(math.Float32frombits(math.Float32bits(float32(base.Float())) ^ uint32(flip)))
		case base.IsValid():
			f = math.Float64frombits(math.Float64bits(base.Float()) ^ flip)
		case t.Chance(1, 12):
			f = engine.Pick(t, math.Inf(1), math.Inf(-1), math.MaxFloat32, -math.MaxFloat64)
		}
		if math.IsNaN(f) {
			f = 1
		}
		v.SetFloat(f)
	default:
		n := uint64(genInt(t))
		if t.Chance(1, 4) {
			n = t.Bits()
		}
		if rt.Kind() >= reflect.Uint {
			if base.IsValid() {
				n = base.Uint() ^ flip
			}
			v.SetUint(n << (64 - bits) >> (64 - bits))
			break
		}
		if base.IsValid() {
			n = uint64(base.Int()) ^ flip
		}
		v.SetInt(int64(n<<(64-bits)) >> (64 - bits))
	}
	return v
}

// comparable3 is -1, 0 or 1; nil is less than all values.
func compare3(x, y reflect.Value) int {
	switch {
	case !x.IsValid() && !y.IsValid():
		return 0
	case !x.IsValid():
		return -1
	case !y.IsValid():
		return 1
	}
	switch x.Kind() {
	case reflect.String:
		return strings.Compare(x.String(), y.String())
	case reflect.Bool:
		if x.Bool() == y.Bool() {
			return 0
		}
		return 1
	}
	return bigOf(x).Cmp(bigOf(y))
}

func bigOf(v reflect.Value) *big.Float {
	f := new(big.Float).SetPrec(2000)
	switch {
	case isFloatKind(v.Kind()):
		return f.SetFloat64(v.Float())
	case v.Kind() >= reflect.Uint:
		return f.SetUint64(v.Uint())
	}
	return f.SetInt64(v.Int())
}

// side is one operand of a comparison.
type side struct {
	path    string
	pointer bool
	at      func(state int) reflect.Value // what it points to or is, invalid: nil
}

type comparison struct {
	t      *engine.T
	rt     reflect.Type
	states int
	w      *World
	values [][]reflect.Value // per variable and state
	near   []reflect.Value
	ptrs   []reflect.Value
	sides  []*side
	lits   bool
}

func (c *comparison) pointer() reflect.Value {
	switch {
	case c.t.Chance(1, 4):
		return reflect.Zero(reflect.PtrTo(c.rt))
	case len(c.ptrs) > 0 && c.t.Chance(1, 6):
		return c.ptrs[c.t.Int(0, len(c.ptrs)-1)]
	}
	p := reflect.New(c.rt)
	p.Elem().Set(c.value())
	c.ptrs = append(c.ptrs, p)
	return p
}

func (c *comparison) value() reflect.Value {
	v := comparedValue(c.t, c.rt, c.near)
	c.near = append(c.near, v)
	return v
}

func (c *comparison) variable(rt reflect.Type, draw func() reflect.Value) (string, []reflect.Value) {
	name := "v" + strconv.Itoa(len(c.w.vars))
	var values []reflect.Value
	for i := 0; i < c.states; i++ {
		values = append(values, draw())
	}
	c.w.vars = append(c.w.vars, &Var{name: name, rType: rt})
	c.values = append(c.values, values)
	return name, values
}

func target(p reflect.Value) reflect.Value {
	if p.IsNil() {
		return reflect.Value{}
	}
	return p.Elem()
}

func (c *comparison) addSide() {
	t := c.t
	pt := reflect.PtrTo(c.rt)
	s := &side{pointer: true}
	switch t.Weighted(4, 2, 2, 2, 2, 3, 1) {
	case 0:
		name, values := c.variable(pt, c.pointer)
		s.path, s.at = name, func(i int) reflect.Value { return target(values[i]) }
	case 1: // a field
		st := reflect.StructOf([]reflect.StructField{{Name: "B", Type: tBool}, {Name: "P", Type: pt}, {Name: "Q", Type: pt}, {Name: "V", Type: c.rt}})
		byPtr := t.Bool()
		at := t.Int(1, 3)
		vt := st
		if byPtr {
			vt = reflect.PtrTo(st)
		}
		name, values := c.variable(vt, func() reflect.Value {
			p := reflect.New(st)
			p.Elem().Field(1).Set(c.pointer())
			p.Elem().Field(2).Set(c.pointer())
			p.Elem().Field(3).Set(c.value())
			if byPtr {
				return p
			}
			return p.Elem()
		})
		s.pointer = at != 3
		s.path, s.at = name+"."+st.Field(at).Name, func(i int) reflect.Value {
			f := reflect.Indirect(values[i]).Field(at)
			if at == 3 {
				return f
			}
			return target(f)
		}
	case 2: // an element
		k := t.Int(0, 2)
		name, values := c.variable(reflect.SliceOf(pt), func() reflect.Value {
			l := reflect.MakeSlice(reflect.SliceOf(pt), 3, 3)
			for i := 0; i < 3; i++ {
				l.Index(i).Set(c.pointer())
			}
			return l
		})
		s.path, s.at = fmt.Sprintf("%s[%d]", name, k), func(i int) reflect.Value { return target(values[i].Index(k)) }
	case 3: // a map element
		key := engine.Pick(t, "a", "b", "none")
		mt := reflect.MapOf(tString, pt)
		name, values := c.variable(mt, func() reflect.Value {
			m := reflect.MakeMap(mt)
			m.SetMapIndex(reflect.ValueOf("a"), c.pointer())
			m.SetMapIndex(reflect.ValueOf("b"), c.pointer())
			return m
		})
		s.path, s.at = fmt.Sprintf("%s[%q]", name, key), func(i int) reflect.Value {
			p := values[i].MapIndex(reflect.ValueOf(key))
			if !p.IsValid() {
				return p
			}
			return target(p)
		}
	case 4: // the result of a call
		name, values := c.variable(pt, c.pointer)
		s.path, s.at = "same($"+name+")", func(i int) reflect.Value { return target(values[i]) }
	case 5: // a plain value
		name, values := c.variable(c.rt, c.value)
		s.pointer = false
		s.path, s.at = name, func(i int) reflect.Value { return values[i] }
	case 6: // a literal
		if c.rt != tInt && c.rt != tFloat && c.rt != tString && c.rt != tBool {
			return
		}
		v := reflect.New(c.rt).Elem()
		text := ""
		switch c.rt {
		case tInt:
			n := int64(t.Int(-3, 200))
			v.SetInt(n)
			text = strconv.FormatInt(n, 10)
		case tFloat:
			f := float64(t.Int(0, 64)) / 8
			v.SetFloat(f)
			text = strconv.FormatFloat(f, 'f', 3, 64)
		case tString:
			str := genLiteralString(t)
			v.SetString(str)
			text = `"` + str + `"`
		case tBool:
			v.SetBool(t.Bool())
			text = strconv.FormatBool(v.Bool())
		}
		s.pointer = false
		s.path, s.at = "\x00"+text, func(int) reflect.Value { return v }
		c.near = append(c.near, v)
	}
	c.sides = append(c.sides, s)
}

func (s *side) spell(st *style) string {
	if strings.HasPrefix(s.path, "\x00") {
		return s.path[1:]
	}
	return (&printer{st: st}).spell(s.path)
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C19",
		Rule: "one of the 14 kinds of numbers, strings and booleans; up to 8 operands: pointers held by variables, fields, slice and map elements (also missing ones) and call results, sharing memory or not, a quarter nil, and plain values and literals; values over the whole range, often equal or different in a single bit; " +
			"up to 10 comparisons with all operators that apply (at least one operand a pointer) in conditions, assignments, negations and arguments, executed with up to 3 sets of values; the result is computed by exact arithmetic; non-trivial: at least one comparison of two non-nil values, or with nil",
		Quick: 100000, Thorough: 5000000,
		Run: func(t *engine.T) {
			c := &comparison{t: t, rt: comparedTypes[t.Uint(uint64(len(comparedTypes)))], states: t.Int(1, 3), w: &World{bufSize: -1}}
			for n := 0; n < 2 || t.More(n, 8, 3); n++ {
				c.addSide()
			}
			if len(c.sides) == 0 {
				return
			}
			ft := reflect.FuncOf([]reflect.Type{reflect.PtrTo(c.rt)}, []reflect.Type{reflect.PtrTo(c.rt)}, false)
			same := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value { return args }).Interface()
			c.w.setup = func(p *velty.Planner) {
				registerPure(p)
				if err := p.RegisterFunction("same", same); err != nil {
					t.Fail("RegisterFunction: %v", err)
				}
			}
			ops := []string{"==", "!=", "<", "<=", ">", ">="}
			if c.rt == tString || c.rt == tBool {
				ops = ops[:2]
			}
			st := &style{t}
			type made struct {
				x, y *side
				op   string
				want [2]string
				neg  bool
			}
			var made_ []*made
			var tmpl strings.Builder
			pairs := map[string]bool{}
			for n := 0; n == 0 || t.More(n, 10, 4); n++ {
				m := &made{x: c.sides[t.Int(0, len(c.sides)-1)], y: c.sides[t.Int(0, len(c.sides)-1)], op: engine.Pick(t, ops...), want: [2]string{"false", "true"}}
				if !m.x.pointer && !m.y.pointer {
					continue
				}
				if m.x.pointer != m.y.pointer {
					t.Class("pointer with value")
				} else {
					t.Class("two pointers")
				}
				x := m.x.spell(st) + st.sp1() + m.op + st.sp1() + m.y.spell(st)
				switch t.Weighted(3, 3, 1, 1, 1) {
				case 0:
					fmt.Fprintf(&tmpl, "#if(%s)yes#{else}no#end", x)
					m.want = [2]string{"no", "yes"}
				case 1:
					fmt.Fprintf(&tmpl, "#set($r%d = %s)${r%d}", n, x, n)
				case 2:
					fmt.Fprintf(&tmpl, "#if(!(%s))A#end", x)
					m.want = [2]string{"A", ""}
				case 3:
					fmt.Fprintf(&tmpl, "${flip(%s)}", x)
					m.want = [2]string{"true", "false"}
				case 4:
					fmt.Fprintf(&tmpl, "#set($r%d = true && (%s))${r%d}", n, x, n)
				}
				tmpl.WriteString("|")
				made_ = append(made_, m)
			}
			if len(made_) == 0 {
				return
			}
			t.Note("kind %v, template: %q", c.rt, tmpl.String())
			exec, newState := compileOK(t, c.w.planner(t), tmpl.String())
			interesting := false
			for i := 0; i < c.states; i++ {
				s := newState()
				for k, v := range c.w.vars {
					t.Note("  values %d: %s %v = %s", i, v.name, v.rType, dump(c.values[k][i]))
					if err := s.SetValue(v.name, c.values[k][i].Interface()); err != nil {
						t.Fail("SetValue(%s): %v", v.name, err)
					}
				}
				var want strings.Builder
				for _, m := range made_ {
					x, y := m.x.at(i), m.y.at(i)
					r := compare3(x, y)
					k := 0
					if order(m.op, r < 0, r == 0, r > 0) {
						k = 1
					}
					want.WriteString(m.want[k] + "|")
					interesting = interesting || m.x != m.y
					pairs[fmt.Sprintf("%v %s nil %v %v", c.rt, m.op, !x.IsValid(), !y.IsValid())] = true
				}
				var err error
				if r, stack := engine.Protect(func() { err = exec.Exec(s) }); r != nil {
					t.Fail("Exec panicked: %v, want %q\n%s", r, want.String(), clipStack(stack))
				}
				if err != nil {
					t.Fail("Exec: %v", err)
				}
				if got := s.Buffer.String(); got != want.String() {
					t.Fail("rendered %q\n    want %q", got, want.String())
				}
			}
			for k := range pairs {
				t.Class(k)
			}
			if interesting {
				t.NonTrivial(strings.Join(t.Notes(), "\n"))
			}
		},
	})
}
