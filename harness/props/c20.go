package props

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

var tFloat32 = reflect.TypeOf(float32(0))

var lookedUpKeys = []reflect.Type{tString, tInt, tAny, tString, tInt, tAny, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)), tBool, tFloat, tFloat32, reflect.TypeOf(Word("")), reflect.TypeOf(Num(0))}

var storedTypes = []reflect.Type{tInt, tString, tBool, tFloat, tInt, tString, tAny, tAny, tSmall, reflect.PtrTo(tSmall), reflect.TypeOf(int8(0)), reflect.TypeOf(int64(0)), reflect.TypeOf([]int{}), ptrTo(0), reflect.TypeOf(map[string]int{})}

// searchKey draws a key that looks like one of few plain keys.
func searchKey(t *engine.T) reflect.Value {
	n := engine.Pick(t, 0, 1, 2, 3, 7, -1, 127, 200, 1000, 70000)
	s := engine.Pick(t, "", "a", "b", "k", "1", "A", "é")
	switch t.Weighted(5, 5, 3, 2, 1, 1, 1, 1) {
	case 0:
		return reflect.ValueOf(n)
	case 1:
		return reflect.ValueOf(s)
	case 2: // of another width
		return reflect.ValueOf(n).Convert(intTypes[t.Uint(12)])
	case 3: // a pointer
		switch t.Int(0, 9) {
		case 0:
			return reflect.ValueOf(&s)
		case 1:
			b := []byte(s)
			return reflect.ValueOf(&b)
		case 2, 3:
		case 4:
			return reflect.ValueOf(&n)
		case 5:
			f := float64(n) / float64(engine.Pick(t, 1, 2, 3))
			if t.Chance(1, 3) {
				f32 := float32(f)
				return reflect.ValueOf(&f32)
			}
			return reflect.ValueOf(&f)
		default:
			p := reflect.New(deref(intTypes[t.Uint(12)]))
			p.Elem().Set(reflect.ValueOf(n).Convert(p.Type().Elem()))
			return p
		}
		return engine.Pick(t, reflect.ValueOf((*int)(nil)), reflect.ValueOf((*string)(nil)), reflect.ValueOf((*int64)(nil)), reflect.ValueOf((*int32)(nil)), reflect.ValueOf((*int16)(nil)), reflect.ValueOf((*[]byte)(nil)), reflect.ValueOf((*uint8)(nil)), reflect.ValueOf((*float64)(nil)))
	case 4:
		return reflect.ValueOf(t.Bool())
	case 5:
		return engine.Pick(t, reflect.ValueOf(float64(n)/float64(t.Int(1, 2))), reflect.ValueOf(float32(n)))
	case 6:
		return reflect.ValueOf([]byte(s))
	}
	if t.Chance(1, 4) { // no map can hold these
		return engine.Pick(t, reflect.ValueOf([]int{n}), reflect.ValueOf(map[string]int{}), reflect.ValueOf(boxed{A: []int{n}}), reflect.ValueOf([1]interface{}{[]string{s}}), reflect.ValueOf(boxed{A: n}))
	}
	return engine.Pick(t, reflect.ValueOf(Word(s)), reflect.ValueOf(Num(n)))
}

type boxed struct{ A interface{} }

// plainOf is the plain int or string a key stands for.
func plainOf(k reflect.Value) reflect.Value {
	if k.IsValid() && k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	if !k.IsValid() {
		return k
	}
	if k.Kind() == reflect.Ptr {
		if k.IsNil() {
			return reflect.Value{}
		}
		k = k.Elem()
		if k.Type() == tFloat || k.Type() == tFloat32 { // whole numbers are the same key as an integer
			if f := k.Float(); f == math.Trunc(f) && math.Abs(f) < 1<<62 {
				return reflect.ValueOf(int(f))
			}
		}
	}
	if k.Type() == reflect.TypeOf([]byte{}) {
		return reflect.ValueOf(string(k.Bytes()))
	}
	if isIntKind(k.Kind()) && k.Type().PkgPath() == "" {
		if n := intOf(k); n.IsInt64() {
			return reflect.ValueOf(int(n.Int64()))
		}
	}
	return k
}

// held finds what a map holds under a key; the result is invalid for nothing.
func heldUnder(m, k reflect.Value) reflect.Value {
	if k.IsValid() && k.Kind() == reflect.Interface {
		k = k.Elem()
	}
	plain := plainOf(k)
	if !plain.IsValid() || !m.IsValid() || m.IsNil() {
		return reflect.Value{}
	}
	exact := k // a float behind a pointer may be held as such
	if k.Kind() == reflect.Ptr && (k.Type().Elem() == tFloat || k.Type().Elem() == tFloat32) {
		exact = k.Elem()
	}
	byPlain := reflect.Value{}
	for _, c := range m.MapKeys() {
		if m.Type().Key().Kind() == reflect.Interface {
			c0 := c.Elem()
			if !c0.IsValid() {
				continue
			}
			if exact.Type() == c0.Type() && exact.Comparable() && exact.Interface() == c0.Interface() {
				return m.MapIndex(c)
			}
			if plain.Type() == c0.Type() && plain.Comparable() && plain.Interface() == c0.Interface() {
				byPlain = m.MapIndex(c)
			}
			continue
		}
		switch {
		case isIntKind(c.Kind()) && isIntKind(plain.Kind()):
			if intOf(c).Cmp(intOf(plain)) == 0 {
				return m.MapIndex(c)
			}
		case (c.Kind() == reflect.Float64 || c.Kind() == reflect.Float32) && c.Kind() == exact.Kind():
			if c.Float() == exact.Float() {
				return m.MapIndex(c)
			}
		case c.Kind() == plain.Kind() && c.Interface() == plain.Convert(c.Type()).Interface():
			return m.MapIndex(c)
		}
	}
	return byPlain
}

type lookup struct {
	t    *engine.T
	g    *gen
	tmpl strings.Builder
	st   *style
	want []reflect.Value // what see gets
	hits int
	miss int
	n    int
	bad  bool // the template has to fail
}

// key spells a key, preferring one the map may hold.
func (l *lookup) key(m reflect.Value) (string, reflect.Value) {
	k := searchKey(l.t)
	if m.IsValid() && m.Len() > 0 && l.t.Chance(1, 2) {
		keys := m.MapKeys()
		// in an order that doesn't depend on the run
		best := keys[0]
		pick := l.t.Int(0, 7)
		for i, c := range sortedValues(keys) {
			if i == pick%len(keys) {
				best = c
			}
		}
		k = best
		if k.Kind() == reflect.Interface {
			k = k.Elem()
		}
		if plain := plainOf(k); k.IsValid() && plain.Kind() == reflect.Int && plain.Type() == tInt && l.t.Chance(1, 2) {
			if c := plain.Convert(intTypes[l.t.Uint(12)]); intOf(c).Cmp(intOf(plain)) == 0 {
				k = c
			}
		}
	}
	if !k.IsValid() {
		k = reflect.ValueOf(0)
	}
	x := l.g.spell(k, tAny)
	p := &printer{st: l.st}
	return p.capture(func() { x.print(p, 0) }), k
}

func sortedValues(vs []reflect.Value) []reflect.Value {
	out := append([]reflect.Value{}, vs...)
	for i := range out {
		for j := i; j > 0 && dump(out[j]) < dump(out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// probe writes a call whose result has to be the value.
func (l *lookup) probe(call string, want reflect.Value) {
	k := len(l.want)
	if l.t.Chance(1, 4) {
		fmt.Fprintf(&l.tmpl, "#set($r%d = $%s)$see(%d, $r%d)", k, call, k, k)
	} else {
		fmt.Fprintf(&l.tmpl, "$see(%d, $%s)", k, call)
	}
	l.want = append(l.want, want)
}

func (l *lookup) count(found reflect.Value) {
	if found.IsValid() {
		l.hits++
	} else {
		l.miss++
	}
}

// onMap writes lookups in a map variable.
func (l *lookup) onMap(path string, m reflect.Value, held bool) {
	t := l.t
	key, k := l.key(m)
	found := heldUnder(m, k)
	l.count(found)
	sp := l.st.sp
	dyn := found
	if dyn.IsValid() && dyn.Kind() == reflect.Interface {
		dyn = dyn.Elem()
	}
	method := 4
	if held {
		method = 0
	}
	switch t.Weighted(method, 2, 3, 4) {
	case 0:
		t.Class("HasKey")
		l.probe(fmt.Sprintf("%s.HasKey(%s%s%s)", path, sp(), key, sp()), reflect.ValueOf(found.IsValid()))
	case 1:
		t.Class("maps.Has")
		l.probe(fmt.Sprintf("maps.Has(%s$%s,%s%s)", sp(), path, sp(), key), reflect.ValueOf(found.IsValid()))
	case 2:
		t.Class("maps.Get")
		l.probe(fmt.Sprintf("maps.Get(%s$%s,%s%s)", sp(), path, sp(), key), dyn)
	case 3:
		want := engine.Pick(t, tInt, tString, tBool, tFloat)
		if e := m.Type().Elem(); (e == tInt || e == tString || e == tBool || e == tFloat) && t.Chance(2, 3) {
			want = e
		}
		name := map[reflect.Type]string{tInt: "GetInt", tString: "GetString", tBool: "GetBool", tFloat: "GetFloat"}[want]
		if !dyn.IsValid() || dyn.Type() != want { // has to be an error
			if l.bad || !t.Chance(1, 4) {
				return
			}
			l.bad = true
			t.Class("error: " + name)
			fmt.Fprintf(&l.tmpl, "$see(%d, $maps.%s($%s, %s))", len(l.want), name, path, key)
			return
		}
		t.Class("maps." + name)
		l.probe(fmt.Sprintf("maps.%s(%s$%s,%s%s)", name, sp(), path, sp(), key), dyn)
	}
}

var indexedFields = []reflect.Type{tInt, tString, tInt, tString, tBool, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint(0)),
	reflect.TypeOf(uint64(0)), tFloat, ptrTo(0), ptrTo(""), ptrTo(int64(0)), ptrTo(int32(0)), ptrTo(int16(0)), ptrTo(int8(0)), ptrTo(uint8(0)), ptrTo(uint(0)), ptrTo([]byte{}), reflect.TypeOf([]byte{}), ptrTo(0.5), ptrTo(float32(0)), tFloat32, reflect.TypeOf(Word("")), tTime, reflect.TypeOf([2]int{})}

var badKeys = []reflect.Value{reflect.ValueOf([]int{1}), reflect.ValueOf(map[string]int{}), reflect.ValueOf([1][]int{}), reflect.ValueOf(struct{ X []string }{})}

func keyField(t *engine.T, rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	n := engine.Pick(t, 0, 1, 2, 3, 7, -1, 1000)
	switch {
	case rt == tTime || rt.Kind() == reflect.Array:
		return genValue(t, rt, 2)
	case rt == tAny:
		if !t.Chance(1, 8) {
			v.Set(keyField(t, engine.Pick(t, tInt, tString, reflect.TypeOf(int8(0)), tFloat, ptrTo(0))))
		}
		return v
	case rt == reflect.TypeOf(boxed{}):
		v.Field(0).Set(engine.Pick(t, reflect.ValueOf(n), reflect.ValueOf("a")))
	case rt.Kind() == reflect.Slice && rt != reflect.TypeOf([]byte{}) || rt.Kind() == reflect.Map || rt.Kind() == reflect.Struct:
		return v
	case rt.Kind() == reflect.Ptr:
		if t.Chance(1, 8) {
			return v
		}
		p := reflect.New(rt.Elem())
		p.Elem().Set(keyField(t, rt.Elem()))
		return p
	case rt.Kind() == reflect.String:
		v.SetString(engine.Pick(t, "", "a", "b", "k", "1", "x y"))
	case rt.Kind() == reflect.Slice:
		v.SetBytes([]byte(engine.Pick(t, "a", "b", "k")))
	case rt.Kind() == reflect.Bool:
		v.SetBool(t.Bool())
	case rt.Kind() == reflect.Float64 || rt.Kind() == reflect.Float32:
		v.SetFloat(float64(n) / 2)
	default:
		v.Set(reflect.ValueOf(n).Convert(rt))
	}
	return v
}

// onSlice indexes a slice of structs.
func (l *lookup) onSlice() {
	t, g := l.t, l.g
	kt := indexedFields[t.Uint(uint64(len(indexedFields)))]
	unhashable := false
	switch t.Int(0, 15) {
	case 0:
		kt = tAny
	case 1:
		kt = reflect.TypeOf(boxed{})
	case 2:
		kt = badKeys[t.Uint(uint64(len(badKeys)))].Type()
		unhashable = true
	}
	key := reflect.StructField{Name: "Key", Type: kt}
	call := "Key"
	if t.Chance(1, 4) {
		key.Tag = `velty:"name=Label"`
		call = engine.Pick(t, "Label", "Key")
	}
	pads := []reflect.StructField{{Name: "B", Type: tBool}, {Name: "C", Type: reflect.TypeOf(int8(0))}, {Name: "Ke", Type: tString}, {Name: "KeyX", Type: tInt}, {Name: "P", Type: ptrTo(0)}}
	var fields []reflect.StructField
	for _, p := range pads {
		if t.Chance(1, 3) {
			fields = append(fields, p)
		}
	}
	at := t.Int(0, len(fields))
	fields = append(fields[:at:at], append([]reflect.StructField{key}, fields[at:]...)...)
	elem := reflect.StructOf(fields)
	where := []int{at}
	if t.Chance(1, 5) { // embedded in the struct
		inner := elem
		if t.Chance(1, 3) {
			inner = reflect.PtrTo(elem)
			t.Class("IndexBy promoted through pointer")
		}
		outer := []reflect.StructField{{Name: "X", Type: tBool}, {Name: "Inner", Type: inner, Anonymous: true}, {Name: "Y", Type: tInt}}
		elem = reflect.StructOf(outer)
		where = []int{1, at}
		call = "Key"
		t.Class("IndexBy promoted field")
	}
	et := elem
	byPtr := t.Bool()
	if byPtr {
		et = reflect.PtrTo(elem)
	}
	list := reflect.MakeSlice(reflect.SliceOf(et), 0, 0)
	more := 0
	if t.Chance(1, 40) {
		more = size(t, 4, 9)
	}
	for n := 0; n < more || t.More(n, 8, 4); n++ {
		s := reflect.New(elem)
		s.Elem().Set(genValue(t, elem, 2))
		if len(where) == 2 && elem.Field(1).Type.Kind() == reflect.Ptr {
			s.Elem().Field(1).Set(reflect.New(elem.Field(1).Type.Elem()))
		}
		s.Elem().FieldByIndex(where).Set(keyField(t, kt))
		if byPtr {
			list = reflect.Append(list, s)
		} else {
			list = reflect.Append(list, s.Elem())
		}
	}
	if unhashable && l.bad {
		list = list.Slice(0, 0)
	}
	broken := !l.bad && (t.Chance(1, 25) || (kt == tAny || kt == reflect.TypeOf(boxed{})) && t.Chance(1, 8) || unhashable && list.Len() > 0)
	if broken && unhashable && list.Len() > 0 {
		t.Class("error: IndexBy a field that can't be a key")
	} else if broken && list.Len() > 0 && t.Chance(1, 2) && (kt == tAny || kt == reflect.TypeOf(boxed{})) {
		bad := badKeys[t.Uint(uint64(len(badKeys)))]
		if kt != tAny {
			bad = reflect.ValueOf(boxed{bad.Interface()})
		}
		reflect.Indirect(list.Index(t.Int(0, list.Len()-1))).FieldByIndex(where).Set(bad)
		t.Class("error: IndexBy a value that can't be a key")
	} else if broken {
		switch n := list.Len(); {
		case n > 0 && byPtr && t.Bool():
			list.Index(t.Int(0, n-1)).Set(reflect.Zero(et))
			t.Class("error: IndexBy nil element")
		case n > 0 && len(where) == 2 && elem.Field(1).Type.Kind() == reflect.Ptr:
			reflect.Indirect(list.Index(t.Int(0, n-1))).Field(1).Set(reflect.Zero(elem.Field(1).Type))
			t.Class("error: IndexBy embedded nil")
		default:
			call = engine.Pick(t, "Nope", "key", "Ke y", "", "Keys", "Lab")
			t.Class("error: IndexBy unknown field")
		}
	}
	r := g.newVar(list)
	name := fmt.Sprintf("ix%d", l.n)
	l.n++
	arg := `"` + call + `"`
	if t.Chance(1, 4) {
		p := &printer{st: l.st}
		x := g.spell(reflect.ValueOf(call), tString)
		arg = p.capture(func() { x.print(p, 0) })
	}
	fmt.Fprintf(&l.tmpl, "#set($%s = $%s.IndexBy(%s))", name, r.root, arg)
	t.Class("IndexBy " + kt.String())
	if broken { // yields an empty map
		l.bad = true
		l.probe(name, reflect.Zero(reflect.MapOf(tAny, et)))
		l.probe(name+`.HasKey("a")`, reflect.ValueOf(false))
		return
	}
	// the model
	m := reflect.MakeMap(reflect.MapOf(tAny, et))
	for i := 0; i < list.Len(); i++ {
		k := reflect.Indirect(list.Index(i)).FieldByIndex(where)
		plain := plainOf(k)
		if !plain.IsValid() {
			plain = reflect.Zero(tAny)
		}
		m.SetMapIndex(plain, list.Index(i))
	}
	l.probe(name, m)
	if kt != tTime && kt.Kind() != reflect.Array && t.Chance(1, 2) { // the elements of the slice under their own keys
		item := "e" + name
		k := len(l.want)
		if len(where) == 1 {
			fmt.Fprintf(&l.tmpl, "#foreach($%s in $%s)$see(%d, $%s[$%s.%s])#end", item, r.root, k, name, item, map[bool]string{true: "Label", false: "Key"}[key.Tag != ""])
			for i := 0; i < list.Len(); i++ {
				f := reflect.Indirect(list.Index(i)).FieldByIndex(where)
				found := heldUnder(m, f)
				if !found.IsValid() {
					found = reflect.Zero(et)
				}
				l.count(found)
				l.want = append(l.want, found)
			}
			// see is told the same number each time
			l.tmpl.WriteString(fmt.Sprintf("$again(%d)", list.Len()))
			t.Class("IndexBy loop")
		}
	}
	for n := 0; t.More(n, 4, 2); n++ {
		text, k := l.key(m)
		found := heldUnder(m, k)
		l.count(found)
		if t.Bool() {
			t.Class("IndexBy HasKey")
			l.probe(fmt.Sprintf("%s.HasKey(%s)", name, text), reflect.ValueOf(found.IsValid()))
			continue
		}
		if !plainIndex.MatchString(text) {
			text = "$" + g.newVar(k).root
		}
		t.Class("IndexBy [key]")
		if !found.IsValid() {
			found = reflect.Zero(et)
		}
		l.probe(fmt.Sprintf("%s[%s]", name, text), found)
	}
}

var plainIndex = regexp.MustCompile("^(\"[^\"$]*\"|\\d+|\\$\\w[\\w.]*)$")

func again(int) string { return "" }

func init() {
	engine.Register(&engine.Prop{
		ID: "C20",
		Rule: "up to 3 maps (19 key types, 15 value types, also in struct fields) and slices of generated structs or pointers to them (19 types of the indexing field, tagged, promoted, at any offset); HasKey, maps.Has, Get, GetInt, GetString, GetBool, GetFloat, IndexBy and lookups in its result, with keys present and absent, " +
			"spelled as literals, variables, fields, elements, interfaces, expressions and calls, of all integer widths, pointers, nil, bytes, other types; compared with the contents; lookups of the wrong type have to fail; non-trivial: at least one key found and one not found",
		Quick: 100000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.w.stop = false // all results are seen
			g.w.setup = func(p *velty.Planner) {
				registerPure(p)
				registerIdentities(p)
				for name, f := range map[string]interface{}{"see": see, "again": again} {
					if err := p.RegisterFunction(name, f); err != nil {
						t.Fail("RegisterFunction: %v", err)
					}
				}
			}
			l := &lookup{t: t, g: g, st: &style{t}}
			for n := 0; n == 0 || t.More(n, 3, 1); n++ {
				if t.Chance(1, 3) {
					l.onSlice()
					continue
				}
				mt := reflect.MapOf(lookedUpKeys[t.Uint(uint64(len(lookedUpKeys)))], storedTypes[t.Uint(uint64(len(storedTypes)))])
				m := reflect.New(mt).Elem()
				if !t.Chance(1, 12) {
					m.Set(reflect.MakeMap(mt))
					more := 0
					if t.Chance(1, 60) {
						more = size(t, 3, 8)
					}
					for k := 0; k < more || t.More(k, 5, 2); k++ {
						key := reflect.New(mt.Key()).Elem()
						if mt.Key() == tAny {
							key.Set(engine.Pick(t, reflect.ValueOf(1), reflect.ValueOf("k"), reflect.ValueOf(7), reflect.ValueOf("a"), reflect.ValueOf(true), reflect.ValueOf(int64(3)), reflect.ValueOf(uint8(2)), reflect.ValueOf(int8(7)), reflect.ValueOf(0.5), reflect.ValueOf(2.0), reflect.ValueOf(float32(3))))
						} else {
							key.Set(keyField(t, mt.Key()))
						}
						m.SetMapIndex(key, genValue(t, mt.Elem(), 2))
					}
				}
				var path string
				v := m
				held := false
				switch t.Weighted(8, 2, 2, 1) {
				case 3: // only the functions take maps in interfaces
					held = true
					i := reflect.New(tAny).Elem()
					if t.Chance(1, 4) {
						m = reflect.New(reflect.MapOf(tInt, tInt)).Elem()
						t.Class("nil interface")
					} else {
						i.Set(m)
						t.Class("map in interface")
					}
					path = g.newVar(i).root
				case 0:
					path = g.newVar(v).root
				case 1:
					s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: tBool}, {Name: "M", Type: mt}}))
					s.Elem().Field(1).Set(m)
					if t.Bool() {
						s = s.Elem()
					}
					path = g.newVar(s).root + ".M"
				case 2:
					s := reflect.MakeSlice(reflect.SliceOf(mt), 2, 2)
					s.Index(1).Set(m)
					path = g.newVar(s).root + "[1]"
				}
				for k := 0; (k == 0 || t.More(k, 6, 3)) && !l.bad; k++ {
					l.onMap(path, m, held)
				}
				if l.bad {
					break
				}
			}
			tmpl := l.tmpl.String()
			noteWorld(t, g.w, tmpl)
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			st := newState()
			setVars(t, st, g.w.vars, newCloner())
			seen.at, seen.values = nil, nil
			var err error
			if r, stack := engine.Protect(func() { err = exec.Exec(st) }); r != nil {
				t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
			}
			if l.bad != (err != nil) {
				t.Fail("Exec returned error %v, an error is due: %v", err, l.bad)
			}
			if l.bad && len(seen.values) > len(l.want) { // the call around the failing one
				seen.values = seen.values[:len(l.want)]
			}
			if len(seen.values) != len(l.want) {
				t.Fail("%d results, want %d", len(seen.values), len(l.want))
			}
			for i, want := range l.want {
				got := reflect.ValueOf(seen.values[i])
				if want.IsValid() && want.Kind() == reflect.Interface {
					want = want.Elem()
				}
				if got.IsValid() != want.IsValid() || got.IsValid() && got.Type() != want.Type() || dump(got) != dump(want) {
					t.Fail("result %d (of see(%d)) is %s\n    want %s", i, seen.at[i], typed(got), typed(want))
				}
			}
			for _, v := range g.w.vars {
				got, _ := stateVar(st, v.name)
				if !v.unset && dump(got) != dump(v.value) {
					t.Fail("variable %s was changed to %s", v.name, dump(got))
				}
			}
			if l.hits > 0 && l.miss > 0 {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}

func typed(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return fmt.Sprintf("(%v)%s", v.Type(), dump(v))
}
