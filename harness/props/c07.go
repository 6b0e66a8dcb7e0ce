package props

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"velty.verif/harness/engine"
)

type KeyName string
type KeyNum int32

var keyTypes = []reflect.Type{tString, tInt, tString, tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), tBool, tFloat, tAny,
	reflect.TypeOf(KeyName("")), reflect.TypeOf(KeyNum(0))}

var elemTypes = []reflect.Type{tInt, tString, tBool, tFloat, tSmall, reflect.PtrTo(tSmall), tAny, reflect.TypeOf(int8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), ptrTo(0), ptrTo(""), tPair, reflect.PtrTo(tPair), tTime, reflect.TypeOf(struct{ P *int }{}), reflect.TypeOf([2]int{})}

// containerType makes a slice or a map, maybe of such.
func containerType(t *engine.T, depth int) reflect.Type {
	elem := func() reflect.Type {
		if depth > 0 {
			switch t.Weighted(5, 3, 2) {
			case 1:
				return containerType(t, depth-1)
			case 2:
				return reflect.StructOf([]reflect.StructField{{Name: "B", Type: tBool}, {Name: "In", Type: containerType(t, depth-1)}, {Name: "V", Type: elemTypes[t.Uint(uint64(len(elemTypes)))]}})
			}
		}
		return elemTypes[t.Uint(uint64(len(elemTypes)))]
	}
	if t.Chance(2, 5) {
		return reflect.MapOf(keyTypes[t.Uint(uint64(len(keyTypes)))], elem())
	}
	return reflect.SliceOf(elem())
}

// fill makes a value with more to find than genValue does.
func fill(t *engine.T, rt reflect.Type, depth int) reflect.Value {
	v := reflect.New(rt).Elem()
	switch {
	case rt.Kind() == reflect.Slice:
		if t.Chance(1, 10) {
			return v
		}
		n := t.Weighted(1, 3, 4, 3, 1, 1)
		s := reflect.MakeSlice(rt, n+2, n+2)
		for i := 0; i < s.Len(); i++ { // also behind the length
			s.Index(i).Set(fill(t, rt.Elem(), depth-1))
		}
		return s.Slice(0, n)
	case rt.Kind() == reflect.Map:
		if t.Chance(1, 8) {
			return v
		}
		m := reflect.MakeMap(rt)
		for n := t.Weighted(1, 2, 3, 3); n > 0; n-- {
			k := reflect.New(rt.Key()).Elem()
			if rt.Key() == tAny {
				k.Set(engine.Pick(t, reflect.ValueOf(1), reflect.ValueOf("k"), reflect.ValueOf(true), reflect.ValueOf(7), reflect.ValueOf(""), reflect.ValueOf(2.0), reflect.ValueOf(0.5)))
			} else if isIntKind(rt.Key().Kind()) && t.Bool() {
				k.Set(reflect.ValueOf(engine.Pick(t, interestingInts...)).Convert(rt.Key()))
			} else {
				k.Set(genMapKey(t, rt.Key()))
			}
			m.SetMapIndex(k, fill(t, rt.Elem(), depth-1))
		}
		return m
	case rt == tAny:
		if depth <= 0 || t.Chance(1, 8) {
			return genValue(t, rt, 1)
		}
		switch t.Weighted(3, 3, 3, 2, 1, 1, 1) {
		case 1:
			v.Set(fill(t, reflect.TypeOf([]interface{}{}), depth-1))
		case 2:
			v.Set(fill(t, reflect.TypeOf(map[string]interface{}{}), depth-1))
		case 3:
			v.Set(fill(t, containerType(t, 1), depth-1))
		case 4:
			p := reflect.New(containerType(t, 0))
			p.Elem().Set(fill(t, p.Type().Elem(), depth-1))
			v.Set(p)
		case 5:
			v.Set(fill(t, reflect.TypeOf([3]string{}), depth-1))
		case 6:
			v.Set(reflect.ValueOf(map[interface{}]interface{}{"k": t.Int(0, 9), 1: "one", true: false}))
		default:
			v.Set(genValue(t, engine.Pick(t, tString, tInt, tBool, tFloat, tSmall), 2))
		}
		return v
	case rt.Kind() == reflect.Struct && rt.NumField() < 8 && rt != tTime:
		for i := 0; i < rt.NumField(); i++ {
			v.Field(i).Set(fill(t, rt.Field(i).Type, depth-1))
		}
		return v
	case rt.Kind() == reflect.Ptr && !t.Chance(1, 6):
		v.Set(reflect.New(rt.Elem()))
		v.Elem().Set(fill(t, rt.Elem(), depth-1))
		return v
	}
	return genValue(t, rt, depth)
}

var intTypes = []reflect.Type{tInt, tInt, tInt, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), ptrTo(0), ptrTo(int16(0)), ptrTo(int32(0)), ptrTo(int64(0)), tAny,
	ptrTo(int8(0)), ptrTo(uint8(0)), ptrTo(uint16(0)), ptrTo(uint32(0)), ptrTo(uint64(0)), ptrTo(uint(0))}

func (g *gen) newVar(v reflect.Value) *Ref {
	name := fmt.Sprintf("i%d", len(g.w.vars))
	g.w.vars = append(g.w.vars, &Var{name: name, rType: v.Type(), value: v})
	g.vars = append(g.vars, &genVar{name: name, rType: v.Type(), reserved: true})
	return &Ref{root: name, rType: v.Type()}
}

type holder struct {
	Pad bool
	N   int
	P   *int
	S   string
	I8  int8
}

// spellInt makes an expression of the given value; forKey allows pointers of more kinds.
func (g *gen) spellInt(n int64) Expr {
	t := g.t
	switch t.Weighted(5, 5, 2, 1, 1) {
	case 1:
		rt := intTypes[t.Uint(uint64(len(intTypes)))]
		if rt == tAny {
			v := reflect.New(tAny).Elem()
			v.Set(reflect.ValueOf(int(n)))
			g.feature("index in interface")
			return g.newVar(v)
		}
		p := reflect.New(deref(rt))
		p.Elem().Set(reflect.ValueOf(n).Convert(deref(rt)))
		if intOf(p.Elem()).Int64() != n || deref(rt).Kind() >= reflect.Uint && n < 0 {
			break
		}
		g.feature("index " + rt.String())
		if rt.Kind() == reflect.Ptr {
			return g.newVar(p)
		}
		return g.newVar(p.Elem())
	case 2:
		g.feature("index expression")
		x := g.newVar(reflect.ValueOf(int(n) - 1))
		return &Bin{op: "+", x: x, y: intLit(1), rType: tInt}
	case 3:
		g.feature("index by call")
		for _, f := range pureFuncs {
			if f.name == "inc" {
				return &Call{name: f.name, fn: reflectCall(f.fn), param: f.params, args: []Expr{g.newVar(reflect.ValueOf(int(n) - 1))}, rType: tInt}
			}
		}
	case 4:
		g.feature("index in field")
		m := int(n)
		r := g.newVar(reflect.ValueOf(&holder{N: m, P: &m}))
		f := engine.Pick(t, "N", "P")
		sf, _ := reflect.TypeOf(holder{}).FieldByName(f)
		r.steps, r.rType = []step{{field: f, at: sf.Index}}, sf.Type
		return r
	}
	if n == math.MinInt64 {
		return g.newVar(reflect.ValueOf(int(n)))
	}
	return intLit(n)
}

func (g *gen) spellString(s string) Expr {
	t := g.t
	plain := !strings.ContainsAny(s, "\"\\") && !strings.HasPrefix(s, "$")
	switch t.Weighted(4, 2, 1, 1) {
	case 0:
		if plain {
			return strLit(s)
		}
	case 1:
		p := reflect.New(tString)
		p.Elem().SetString(s)
		g.feature("key *string")
		return g.newVar(p)
	case 2:
		v := reflect.New(tAny).Elem()
		v.Set(reflect.ValueOf(s))
		g.feature("key in interface")
		return g.newVar(v)
	case 3:
		switch t.Int(0, 3) {
		case 0:
			g.feature("key []byte")
			return g.newVar(reflect.ValueOf([]byte(s)))
		case 1:
			b := []byte(s)
			g.feature("key *[]byte")
			return g.newVar(reflect.ValueOf(&b))
		}
		if len(s) > 0 {
			g.feature("key expression")
			return &Bin{op: "+", x: g.newVar(reflect.ValueOf(s[:1])), y: g.newVar(reflect.ValueOf(s[1:])), rType: tString}
		}
	}
	return g.newVar(reflect.ValueOf(s))
}

func (g *gen) spellKey(k reflect.Value) Expr {
	for k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	switch {
	case k.Kind() == reflect.String:
		return g.spellString(k.String())
	case k.CanInt():
		return g.spellInt(k.Int())
	case k.CanUint() && k.Uint() <= math.MaxInt64:
		return g.spellInt(int64(k.Uint()))
	case k.Kind() == reflect.Float64 || k.Kind() == reflect.Float32:
		if g.t.Chance(1, 3) {
			p := reflect.New(k.Type())
			p.Elem().Set(k)
			g.feature("key " + p.Type().String())
			return g.newVar(p)
		}
	}
	return g.newVar(k)
}

// elementOf draws an index or key for a container; bad asks for one that isn't there.
func (g *gen) elementOf(v reflect.Value, rt reflect.Type, bad bool) Expr {
	t := g.t
	n := 0
	if v.IsValid() && (v.Kind() == reflect.Slice || v.Kind() == reflect.Array) {
		n = v.Len()
	}
	if rt.Kind() == reflect.Map {
		var keys []reflect.Value
		if v.IsValid() {
			keys = sortedKeys(v)
		}
		if len(keys) > 0 && !bad {
			g.feature("present key")
			return g.spellKey(keys[t.Uint(uint64(len(keys)))])
		}
		g.feature("maybe missing key")
		kt := rt.Key()
		if t.Chance(1, 6) {
			kt = engine.Pick(t, tString, tInt)
		} else if kt == tAny {
			kt = engine.Pick(t, tString, tInt, tBool, tFloat)
		}
		switch t.Int(0, 19) {
		case 0: // a float that may be a whole number
			g.feature("key *float64")
			f := float64(t.Int(-2, 10)) / 2
			if len(keys) > 0 && t.Bool() {
				if k, _ := plainKey(keys[t.Uint(uint64(len(keys)))]); isIntKind(k.Kind()) && intOf(k).IsInt64() && intOf(k).Int64() < 1<<50 && intOf(k).Int64() > -1<<50 {
					f = float64(intOf(k).Int64()) + engine.Pick(t, 0, 0.5)
				}
			}
			if t.Chance(1, 3) {
				f32 := float32(f)
				return g.newVar(reflect.ValueOf(&f32))
			}
			return g.newVar(reflect.ValueOf(&f))
		case 1: // nothing
			if rt.Key() == tAny && t.Bool() { // no map can hold it
				g.feature("key that can't be one")
				return g.newVar(engine.Pick(t, reflect.ValueOf([]int{1}), reflect.ValueOf(boxed{A: []int{2}}), reflect.ValueOf([1]interface{}{map[string]int{}}), reflect.ValueOf(map[string]int{})))
			}
			g.feature("nil key")
			return g.newVar(engine.Pick(t, reflect.ValueOf((*int)(nil)), reflect.ValueOf((*string)(nil)), reflect.ValueOf((*int64)(nil)), reflect.ValueOf((*[]byte)(nil)), reflect.ValueOf((*float64)(nil))))
		}
		if isIntKind(kt.Kind()) && t.Bool() {
			return g.spellInt(engine.Pick(t, interestingInts...))
		}
		if len(keys) > 0 && t.Chance(1, 3) { // something similar to a key
			k, _ := plainKey(keys[t.Uint(uint64(len(keys)))])
			switch {
			case k.Kind() == reflect.String:
				return g.spellString(k.String() + engine.Pick(t, "x", " ", "k"))
			case k.CanInt():
				return g.spellInt(k.Int() + engine.Pick(t, int64(256), 65536, 1<<32, -256, 1))
			}
		}
		return g.spellKey(genMapKey(t, kt))
	}
	if bad || n == 0 {
		g.feature("out of range")
		c := 0
		if v.IsValid() && v.Kind() == reflect.Slice {
			c = v.Cap()
		}
		k := engine.Pick(t, -1, n, n+1, c, c-1, -n, math.MaxInt32, 1<<32, math.MaxInt64, 1<<56, -2, math.MinInt64, 1<<61)
		if k >= 0 && k < n {
			k = n
		}
		if t.Chance(1, 10) {
			g.feature("no index")
			i := reflect.New(tAny).Elem()
			switch t.Int(0, 3) {
			case 0:
				i.Set(engine.Pick(t, reflect.ValueOf("0"), reflect.ValueOf(true), reflect.ValueOf(0.0), reflect.ValueOf([]int{0}), reflect.ValueOf(tSmall)))
			case 1:
				i.Set(reflect.ValueOf(uint64(math.MaxUint64 - uint64(t.Int(0, 3)))))
			case 2:
				return g.newVar(engine.Pick(t, reflect.ValueOf((*int)(nil)), reflect.ValueOf((*int64)(nil))))
			}
			return g.newVar(i)
		}
		return g.spellInt(int64(k))
	}
	return g.spellInt(int64(t.Int(0, n-1)))
}

func sortedKeys(m reflect.Value) []reflect.Value {
	keys := m.MapKeys()
	for i := range keys {
		for j := i; j > 0 && dump(keys[j]) < dump(keys[j-1]); j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	return keys
}

// indexed draws a path into the variable along its actual value.
func (g *gen) indexed(v *Var, badAllowed bool) *Ref {
	t := g.t
	r := &Ref{root: v.name, rType: v.rType}
	cur := v.value
	if v.unset {
		cur = reflect.Zero(v.rType)
	}
	hits := 0
	for len(r.steps) < 6 {
		rt := r.rType
		st := derefOnce(rt)
		for cur.IsValid() && cur.Kind() == reflect.Ptr {
			cur = cur.Elem()
		}
		bad := badAllowed && t.Chance(1, 6)
		switch {
		case rt.Kind() == reflect.Slice || rt.Kind() == reflect.Map:
			if hits > 0 && !t.Chance(4, 5) {
				return r
			}
			x := g.elementOf(cur, rt, bad)
			if rt.Kind() == reflect.Slice && !badAllowed && (!cur.IsValid() || cur.Len() == 0) {
				return r
			}
			r.steps = append(r.steps, step{index: x})
			r.rType = rt.Elem()
			hits++
		case rt == tAny:
			if !cur.IsValid() || cur.IsNil() {
				if !t.Chance(1, 4) {
					return r
				}
				r.steps = append(r.steps, step{index: g.spellInt(int64(t.Int(0, 2)))})
				hits++
				g.feature("nil interface")
				return r
			}
			in := cur.Elem()
			for in.Kind() == reflect.Ptr {
				in = in.Elem()
			}
			if !in.IsValid() {
				return r
			}
			switch in.Kind() {
			case reflect.Slice, reflect.Array, reflect.Map:
				if hits > 0 && !t.Chance(4, 5) || in.Kind() != reflect.Map && in.Len() == 0 && !badAllowed {
					return r
				}
				it := in.Type()
				if it.Kind() == reflect.Array {
					it = reflect.SliceOf(it.Elem())
				}
				r.steps = append(r.steps, step{index: g.elementOf(in, it, bad)})
				g.feature("interface indexed")
				hits++
				cur = in
			default:
				if !badAllowed || !t.Chance(1, 5) {
					return r
				}
				r.steps = append(r.steps, step{index: g.spellInt(int64(t.Int(0, 2)))})
				g.feature("index of what has no elements")
				hits++
			}
		case st.Kind() == reflect.Struct && st != tTime:
			fs := promoted(st)
			if len(fs) == 0 || len(r.steps) > 0 && t.Chance(1, 3) {
				return r
			}
			f := fs[t.Uint(uint64(len(fs)))]
			for _, c := range fs { // prefer containers
				if k := c.rType.Kind(); (k == reflect.Slice || k == reflect.Map || k == reflect.Interface) && t.Bool() {
					f = c
				}
			}
			r.steps = append(r.steps, step{field: f.name, at: f.at})
			r.rType = f.rType
			if cur.IsValid() {
				cur, _ = walk(cur, f.at)
				if cur.Kind() == reflect.Ptr && cur.IsNil() {
					cur = reflect.Value{}
				}
			}
			g.feature("field")
			continue
		default:
			return r
		}
		// where the path is now
		e := newEnv()
		for _, v := range g.w.vars {
			s := reflect.New(v.rType).Elem()
			if !v.unset {
				s.Set(v.value)
			}
			e.define(v, s)
		}
		ok := false
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, is := p.(modelPanic); !is {
						panic(p)
					}
					ok = false
					g.broken = true
				}
			}()
			cur, ok = r.locate(e)
		}()
		if !ok {
			cur = reflect.Value{}
		}
	}
	return r
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C07",
		Rule: "random slices and maps of 18 key and 19 element kinds, nested in each other, in structs and in interface values, with spare capacity behind the slices; paths follow the actual values and index them with literals, variables of all integer widths, pointers, interfaces, fields, expressions and calls, " +
			"in range, just outside, far outside and negative, with present, missing, similar and differently typed keys; results are rendered or stored and compared with a model, an index out of range has to panic with everything before it intact; non-trivial: at least 2 steps of indexing in the program",
		Quick: 120000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.w.escape = t.Chance(1, 8)
			g.w.stop = t.Chance(1, 4)
			var roots []*Var
			for n := 0; n == 0 || t.More(n, 4, 1); n++ {
				rt := containerType(t, 2)
				switch t.Weighted(5, 2, 1, 1) {
				case 1:
					rt = tAny
				case 2:
					rt = reflect.StructOf([]reflect.StructField{{Name: "U", Type: reflect.TypeOf(uint8(0))}, {Name: "C", Type: rt}, {Name: "D", Type: tAny}})
				case 3:
					rt = reflect.PtrTo(reflect.StructOf([]reflect.StructField{{Name: "U", Type: reflect.TypeOf(uint8(0))}, {Name: "C", Type: rt}}))
				}
				v := &Var{name: varNames[n*3+t.Int(0, 2)], rType: rt, value: fill(t, rt, 6), unset: t.Chance(1, 15)}
				g.w.vars = append(g.w.vars, v)
				roots = append(roots, v)
			}
			var body []Stmt
			steps := 0
			for n := 0; n == 0 || t.More(n, 8, 4); n++ {
				v := roots[t.Uint(uint64(len(roots)))]
				if t.Chance(1, 6) { // a loop along a slice
					if r, ok := g.loop(v); ok {
						body = append(body, r)
						steps += 2
						continue
					}
				}
				r := g.indexed(v, t.Chance(1, 4))
				for _, s := range r.steps {
					if s.index != nil {
						steps++
					}
				}
				body = append(body, g.show(r)...)
				g.feature("read " + r.rType.Kind().String())
			}
			tmpl := printBody(&style{t}, body)
			o := check(t, g.w, body, tmpl)
			g.classes()
			if steps >= 2 && o.discarded == "" {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}

func (g *gen) show(r *Ref) []Stmt {
	if isBasic(r.rType) && g.t.Bool() {
		return []Stmt{&Render{r}, &Text{"|"}}
	}
	if r.rType == tAny && g.t.Bool() {
		return []Stmt{&Set{&Ref{root: g.freshName(), rType: r.rType}, r}, &Text{"|"}}
	}
	x := &Ref{root: g.freshName(), rType: r.rType}
	return []Stmt{&Set{x, r}}
}

// loop goes over a slice by index, sometimes past its end.
func (g *gen) loop(v *Var) (Stmt, bool) {
	r := g.indexed(v, false)
	for len(r.steps) > 0 && r.rType.Kind() != reflect.Slice {
		r.steps = r.steps[:len(r.steps)-1]
		r.rType = staticType(v.rType, r.steps)
	}
	if r.rType.Kind() != reflect.Slice {
		return nil, false
	}
	e := newEnv()
	for _, v := range g.w.vars {
		s := reflect.New(v.rType).Elem()
		if !v.unset {
			s.Set(v.value)
		}
		e.define(v, s)
	}
	n := 0
	if cur, ok := r.locate(e); ok {
		n = cur.Len()
	}
	past := 0
	if g.t.Chance(1, 6) {
		past = 1
	}
	i := g.freshName()
	elem := &Ref{root: r.root, rType: r.rType.Elem(), steps: append(append([]step{}, r.steps...), step{index: &Ref{root: i, rType: tInt}})}
	var body []Stmt
	if isBasic(elem.rType) {
		body = []Stmt{&Render{elem}, &Text{","}}
	} else {
		body = []Stmt{&Set{&Ref{root: g.freshName(), rType: elem.rType}, elem}, &Text{strconv.Itoa(n)}}
	}
	g.feature("loop")
	if g.t.Bool() {
		return &Foreach{item: i, a: n - 1 + past, b: -1, body: body}, true
	}
	return &For{v: i, init: intLit(0), step: "++", by: 1, cond: &Bin{op: "<", x: &Ref{root: i, rType: tInt}, y: intLit(int64(n + past)), rType: tBool}, body: body}, true
}

func staticType(rt reflect.Type, steps []step) reflect.Type {
	for _, s := range steps {
		switch {
		case s.index == nil && s.key == nil:
			rt = typeAt(derefOnce(rt), s.at)
		case rt == tAny:
		default:
			rt = rt.Elem()
		}
	}
	return rt
}
