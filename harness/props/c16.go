package props

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// slot is a variable of the states and what each state has to hold.
type slot struct {
	name  string // "" if the holder has no name of its own
	rType reflect.Type
	embed bool
	also  []string
	held  []reflect.Value
}

func (s *slot) label() string {
	if s.embed {
		return fmt.Sprintf("embedded %v", s.rType)
	}
	return s.name
}

func (s *slot) in(st *est.State) (reflect.Value, bool) {
	name := s.name
	if name == "" {
		var ok bool
		if name, ok = st.StateType.AnonymousHolder(s.rType); !ok {
			return reflect.Value{}, false
		}
	}
	return stateVar(st, name)
}

var otherTypes = []reflect.Type{reflect.TypeOf(Word("")), reflect.TypeOf(Num(0)), reflect.TypeOf(Words{}), reflect.TypeOf(Dict{}), reflect.TypeOf(Flag(false)), reflect.TypeOf((*Namer)(nil)).Elem(),
	reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf([]interface{}{}), reflect.TypeOf([]byte{}), reflect.TypeOf([0]int{}), reflect.TypeOf([1]*int{}), reflect.TypeOf([7]uint8{}),
	reflect.TypeOf(struct{ P *int }{}), reflect.TypeOf(struct{ F float64 }{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(new(*int)), reflect.PtrTo(tAny), reflect.TypeOf(&[]int{}), reflect.TypeOf(&map[string]int{}),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uintptr(0))}

func slotType(t *engine.T) reflect.Type {
	switch t.Weighted(4, 4, 2, 2, 2, 1) {
	case 0:
		return layoutTypes[t.Uint(uint64(len(layoutTypes)))]
	case 1:
		return worldTypes[t.Uint(uint64(len(worldTypes)))]
	case 2:
		return otherTypes[t.Uint(uint64(len(otherTypes)))]
	case 3:
		return wrapType(t, structType(t, 2))
	case 4:
		return containerType(t, 1)
	}
	return namedTypes[t.Uint(uint64(len(namedTypes)))]
}

// alike returns two types which print alike.
func alike() [2]reflect.Type {
	type Sort struct {
		SortA int
		SortB string
	}
	return [2]reflect.Type{reflect.TypeOf(struct{ Sort }{}), func() reflect.Type {
		type Sort struct {
			SortC []string
			SortD float64
		}
		return reflect.TypeOf(struct{ Sort }{})
	}()}
}

var theFuncs = []func(){func() {}, func() { _ = theChans }}
var theChans = []chan int{make(chan int), make(chan int, 1)}

func slotValue(t *engine.T, rt reflect.Type) reflect.Value {
	v := reflect.New(rt).Elem()
	switch {
	case rt.Kind() == reflect.Func:
		v.Set(reflect.ValueOf(engine.Pick(t, theFuncs...)))
	case rt.Kind() == reflect.Chan:
		v.Set(reflect.ValueOf(engine.Pick(t, theChans...)))
	case rt.Kind() == reflect.Complex128:
		v.SetComplex(complex(genFloat(t), genFloat(t)))
	case rt.Kind() == reflect.Interface && rt.NumMethod() > 0:
		switch {
		case t.Chance(1, 5):
		case rt == reflect.TypeOf((*error)(nil)).Elem():
			v.Set(reflect.ValueOf(fmt.Errorf("%s", genString(t))))
		default:
			v.Set(engine.Pick(t, reflect.ValueOf(&Acc{Name: genString(t)}), reflect.ValueOf(Word(genString(t)))))
		}
	default:
		return genValue(t, rt, 3)
	}
	return v
}

func nilable(rt reflect.Type) bool {
	switch rt.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		return true
	}
	return false
}

// sameHeader tells if values which refer to other memory refer to the same.
func sameHeader(x, y reflect.Value) bool {
	switch x.Kind() {
	case reflect.Slice:
		return x.Len() == y.Len() && x.Cap() == y.Cap() && x.Pointer() == y.Pointer()
	case reflect.Map, reflect.Ptr, reflect.Func, reflect.Chan:
		return x.Pointer() == y.Pointer()
	case reflect.Interface:
		return x.IsNil() == y.IsNil() && (x.IsNil() || x.Elem().Type() == y.Elem().Type() && sameHeader(x.Elem(), y.Elem()))
	}
	return true
}

type layout struct {
	slots []*slot
	ix    *World
	exec  *est.Execution
	reads []layoutRead
	defs  int
	state []*est.State
}

type layoutRead struct {
	path string
	from *slot
	at   []int
}

var seen struct {
	at     []int
	values []interface{}
}

func see(at int, v interface{}) string {
	seen.at = append(seen.at, at)
	seen.values = append(seen.values, v)
	return ""
}

// compare tells what differs between the states and the model.
func (l *layout) compare(t *engine.T, after string) {
	for i, st := range l.state {
		for _, s := range l.slots[:l.defs] {
			got, ok := s.in(st)
			if !ok {
				t.Fail("%s: state %d has no variable %s", after, i, s.label())
			}
			if got.Type() != s.rType {
				t.Fail("%s: state %d has variable %s of type %v, want %v", after, i, s.label(), got.Type(), s.rType)
			}
			if g, w := dump(got), dump(s.held[i]); g != w {
				t.Fail("%s: variable %s of state %d holds %s\n    want %s", after, s.label(), i, g, w)
			}
			if !sameHeader(got, s.held[i]) {
				t.Fail("%s: variable %s of state %d refers to other memory than the value set", after, s.label(), i)
			}
		}
	}
}

func (l *layout) execute(t *engine.T, i int) {
	seen.at, seen.values = nil, nil
	var err error
	if r, stack := engine.Protect(func() { err = l.exec.Exec(l.state[i]) }); r != nil {
		t.Fail("Exec panicked: %v\n%s", r, clipStack(stack))
	}
	if err != nil {
		t.Fail("Exec: %v", err)
	}
	n := 0
	for k, r := range l.reads {
		want, ok := walkAt(r.from.held[i], r.at)
		if !ok { // held by a nil pointer
			continue
		}
		if n >= len(seen.at) || seen.at[n] != k {
			t.Fail("state %d: read %d of %s was not done", i, k, r.path)
		}
		got := reflect.ValueOf(seen.values[n])
		n++
		if want.Kind() == reflect.Interface {
			want = want.Elem()
		}
		if got.IsValid() != want.IsValid() || got.IsValid() && got.Type() != want.Type() {
			t.Fail("state %d: $%s is %s\n    want %s", i, r.path, dump(got), dump(want))
		}
		if g, w := dump(got), dump(want); g != w {
			t.Fail("state %d: $%s is %s\n    want %s", i, r.path, g, w)
		}
		if got.IsValid() && !sameHeader(got, want) {
			t.Fail("state %d: $%s refers to other memory than the value set", i, r.path)
		}
	}
}

func walkAt(v reflect.Value, at []int) (reflect.Value, bool) {
	for _, i := range at {
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = v.Field(i)
	}
	return v, true
}

// set performs one operation on a state; it returns what it did.
func (l *layout) set(t *engine.T, i int) string {
	st := l.state[i]
	protect := func(f func() error) (err error) {
		if r, stack := engine.Protect(func() { err = f() }); r != nil {
			t.Fail("panic: %v\n%s", r, clipStack(stack))
		}
		return err
	}
	switch t.Weighted(12, 1, 1, 1) {
	case 1: // a name nobody defined
		name := l.unknownName(t)
		if name == "" {
			return ""
		}
		what := fmt.Sprintf("SetValue(%q) of state %d", name, i)
		t.Note("%s: no such variable", what)
		v := slotValue(t, slotType(t)).Interface()
		if err := protect(func() error { return st.SetValue(name, v) }); err == nil {
			t.Fail("%s: no error, but there is no such variable", what)
		}
		t.Class("unknown name")
		return what
	case 2: // a type nobody embedded
		if t.Chance(1, 10) {
			t.Note("EmbedValue(nil) of state %d", i)
			if err := protect(func() error { return st.EmbedValue(nil) }); err == nil {
				t.Fail("EmbedValue(nil) of state %d: no error", i)
			}
			t.Class("embedded nil")
			return "EmbedValue(nil)"
		}
		rt := engine.Pick(t, reflect.TypeOf(Unrelated{}), reflect.TypeOf(&Unrelated{}), reflect.TypeOf(struct{ Q1 int }{}), reflect.TypeOf(1), reflect.TypeOf("s"), tEmb, tEmbPtr, reflect.TypeOf(Holder{}), tSmall, tNode, genericTypes[t.Int(0, len(genericTypes)-1)])
		if t.Chance(1, 3) { // the type of a variable that is not embedded
			rt = l.slots[t.Int(0, len(l.slots)-1)].rType
		}
		for _, s := range l.slots[:l.defs] {
			if s.embed && derefOnce(s.rType) == derefOnce(rt) {
				return ""
			}
		}
		if rt.Kind() == reflect.Interface {
			return ""
		}
		what := fmt.Sprintf("EmbedValue(%v) of state %d", rt, i)
		t.Note("%s: not embedded", what)
		v := slotValue(t, rt).Interface()
		if err := protect(func() error { return st.EmbedValue(v) }); err == nil {
			t.Fail("%s: no error, but the type was not embedded", what)
		}
		t.Class("unknown type")
		return what
	}
	s := l.slots[t.Int(0, l.defs-1)]
	v := slotValue(t, s.rType)
	arg, form := v.Interface(), "exact"
	want := v
	switch t.Weighted(8, 2, 1, 2) {
	case 1:
		if nilable(s.rType) {
			want = reflect.Zero(s.rType)
			if s.embed {
				arg = want.Interface()
			} else {
				arg, form = nil, "nil"
			}
		}
	case 2: // a value for a pointer, or a pointer to the value
		switch {
		case s.rType.Kind() == reflect.Ptr && s.rType.Elem().Kind() != reflect.Interface && !(s.embed && s.name == ""):
			v = slotValue(t, s.rType.Elem())
			p := reflect.New(s.rType.Elem())
			p.Elem().Set(v)
			want, arg, form = p, v.Interface(), "value for pointer"
		case s.rType.Kind() != reflect.Interface && !(s.embed && s.name == ""):
			p := reflect.New(s.rType)
			p.Elem().Set(v)
			arg, form = p.Interface(), "pointer for value"
		}
	case 3: // something else
		rt := slotType(t)
		if s.embed || s.rType.Kind() == reflect.Interface || rt.Kind() == reflect.Interface || derefOnce(rt) == derefOnce(s.rType) {
			break
		}
		other := slotValue(t, rt)
		what := fmt.Sprintf("SetValue(%q, %v) of state %d (a %v)", s.name, rt, i, s.rType)
		t.Note("%s", what)
		var err error
		r, _ := engine.Protect(func() { err = st.SetValue(s.name, other.Interface()) })
		if r == nil && err == nil { // converted
			got, _ := s.in(st)
			s.held[i].Set(got)
			t.Class("set: converted")
		} else {
			t.Class("set: mismatch")
		}
		return what
	}
	t.Class("set: " + form)
	what := fmt.Sprintf("SetValue(%s) of state %d (%s)", s.label(), i, form)
	t.Note("%s: %s", what, dump(want))
	err := protect(func() error {
		if s.embed {
			return st.EmbedValue(arg)
		}
		return st.SetValue(s.name, arg)
	})
	if err != nil {
		t.Fail("%s: %v", what, err)
	}
	if form == "value for pointer" {
		if got, _ := s.in(st); got.Kind() == reflect.Ptr && !got.IsNil() { // a pointer of its own
			want = got
			if g, w := dump(got.Elem()), dump(v); g != w {
				t.Fail("%s: holds a pointer to %s\n    want %s", what, g, w)
			}
		}
	}
	s.held[i].Set(want)
	return what
}

// Unrelated is never embedded.
type Unrelated struct {
	Emb0 int
	S    string
}

func (l *layout) unknownName(t *engine.T) string {
	known := map[string]bool{}
	for _, s := range l.slots[:l.defs] {
		known[s.name] = true
		for _, a := range s.also {
			known[a] = true
		}
		if s.embed {
			for _, f := range promoted(derefOnce(s.rType)) {
				known[f.name] = true
			}
		}
	}
	base := engine.Pick(t, varNames...)
	if t.Chance(2, 3) {
		base = l.slots[t.Int(0, len(l.slots)-1)].name
	}
	name := base
	switch t.Weighted(2, 1, 1, 1, 1, 1, 1) {
	case 1:
		name = strings.ToUpper(base)
	case 2:
		name = base + engine.Pick(t, "1", "_", "x", " ", ".A", "___A", "___B")
	case 3:
		name = base[:len(base)/2]
	case 4:
		name = engine.Pick(t, "$", "{", "", " ", "_") + base
	case 5:
		name = strings.ToLower(base)
	case 6:
		name = ""
	}
	if known[name] || strings.HasPrefix(strings.ToLower(name), "_velty_") || strings.HasPrefix(strings.ToLower(name), "velty_") {
		return ""
	}
	return name
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C16",
		Rule: "up to 14 variables of generated types (every basic kind and width, arrays, structs made at run time, pointers, containers, named kinds, interfaces, functions, channels, recursive types, some with second names), in random order with embedded structs, with and without a name, by value and by pointer, " +
			"some defined after compiling; up to 4 states; histories of SetValue and EmbedValue (exact values, nil, pointers for values and values for pointers, other types, unknown names and types), executions and collections of garbage; after each operation all variables of all states are compared with the model, " +
			"each execution reads all variables and promoted fields in random order; non-trivial: at least 3 variables and 3 operations",
		Quick: 12000, Thorough: 3000000,
		Run: func(t *engine.T) {
			l := &layout{}
			names := map[string]bool{}
			fields := map[string]bool{}    // names of variables
			selectors := map[string]bool{} // names references begin with
			holders := map[reflect.Type]bool{}
			late := t.Chance(1, 5)
			total := 1
			for t.More(total, 14, 6) {
				total++
			}
			if t.Chance(1, 20) {
				total += t.Int(0, 40)
				if t.Chance(1, 12) {
					total += size(t, 5, 8)
				}
			}
			p := velty.New()
			if err := p.RegisterFunction("see", see); err != nil {
				t.Fail("RegisterFunction: %v", err)
			}
			define := func(n int) {
				if t.Chance(1, 5) {
					var rt reflect.Type
					switch t.Weighted(4, 2, 2, 1) {
					case 0:
						rt = structType(t, 2)
					case 1:
						rt = engine.Pick(t, tEmb, tEmbPtr, reflect.TypeOf(EmbPtr{}), reflect.PtrTo(tEmb))
					case 3:
						rt = alike()[t.Int(0, 1)]
					case 2:
						rt = engine.Pick(t, append(genericTypes, reflect.TypeOf(Holder{}), reflect.TypeOf(&Holder{}), tSmall, reflect.PtrTo(tSmall), tPair)...)
					}
					if derefOnce(rt).Kind() != reflect.Struct {
						return
					}
					if rt.Name() == "" && t.Chance(1, 3) && rt.Kind() == reflect.Struct {
						rt = reflect.PtrTo(rt)
					}
					clash := holders[derefOnce(rt)] || names[embeddedName(rt)]
					for _, f := range promoted(derefOnce(rt)) {
						clash = clash || names[f.name]
					}
					if name := embeddedName(rt); name != "" && fields[name] {
						t.Note("EmbedVariable(%v)", rt)
						t.Class("name taken")
						if err := p.EmbedVariable(definition("", n, rt, reflect.Value{})); err == nil {
							t.Fail("EmbedVariable(%v): no error, but the name is taken", rt)
						}
						return
					}
					if clash {
						return
					}
					holders[derefOnce(rt)] = true
					s := &slot{name: embeddedName(rt), rType: rt, embed: true}
					if s.name != "" {
						names[s.name], fields[s.name] = true, true
					}
					for _, f := range promoted(derefOnce(rt)) {
						names[f.name], selectors[f.name] = true, true
					}
					t.Note("EmbedVariable(%v)", rt)
					if err := p.EmbedVariable(definition("", n, rt, reflect.Value{})); err != nil {
						t.Fail("EmbedVariable(%v): %v", rt, err)
					}
					l.slots = append(l.slots, s)
					return
				}
				name := identifier(t)
				if t.Chance(1, 4) {
					name = engine.Pick(t, fieldPool...)
				}
				if t.Chance(1, 12) {
					name = engine.Pick(t, "Emb", "EmbPtr", "Holder", "Small", "Pair")
				}
				if fields[name] && !selectors[name] { // an embedded variable has it
					rt := slotType(t)
					t.Note("DefineVariable(%q, %v)", name, rt)
					t.Class("name taken")
					if err := p.DefineVariable(name, rt); err == nil {
						t.Fail("DefineVariable(%q, %v): no error, but the name is taken", name, rt)
					}
					return
				}
				if names[name] {
					name += strconv.Itoa(n)
				}
				if names[name] {
					return
				}
				names[name], fields[name], selectors[name] = true, true, true
				s := &slot{name: name, rType: slotType(t)}
				if t.Chance(1, 8) {
					if other := identifier(t); !names[other] {
						names[other], selectors[other] = true, true
						s.also = append(s.also, other)
					}
				}
				if len(l.slots) > 0 && t.Chance(1, 25) { // another name of a variable
					if other := l.slots[t.Int(0, len(l.slots)-1)]; !other.embed {
						t.Note("DefineVariable(%q, %v, %q)", name, s.rType, other.name)
						t.Class("additional name taken")
						if err := p.DefineVariable(name, definition(name, n, s.rType, reflect.Value{}), other.name); err == nil {
							t.Fail("DefineVariable(%q, %v, %q): no error, but the additional name is taken", name, s.rType, other.name)
						}
						return
					}
				}
				t.Note("DefineVariable(%q, %v, %v)", name, s.rType, s.also)
				if err := p.DefineVariable(name, definition(name, n, s.rType, reflect.Value{}), s.also...); err != nil {
					t.Fail("DefineVariable(%q, %v): %v", name, s.rType, err)
				}
				if t.Chance(1, 10) { // again
					if err := p.DefineVariable(name, definition(name, n, s.rType, reflect.Value{})); err != nil {
						t.Fail("DefineVariable(%q, %v) again: %v", name, s.rType, err)
					}
				}
				l.slots = append(l.slots, s)
			}
			for n := 0; n < total; n++ {
				define(n)
			}
			if len(l.slots) == 0 {
				return
			}
			l.defs = len(l.slots)
			for _, s := range l.slots {
				if !s.embed {
					l.reads = append(l.reads, layoutRead{s.name, s, nil})
					for _, a := range s.also {
						l.reads = append(l.reads, layoutRead{a, s, nil})
					}
					continue
				}
				for _, f := range promoted(derefOnce(s.rType)) {
					if s.rType.Kind() != reflect.Ptr && !hasPtr(s.rType, f.at) && t.Chance(1, 2) {
						l.reads = append(l.reads, layoutRead{f.name, s, f.at})
					}
				}
			}
			for i := range l.reads {
				k := t.Int(0, len(l.reads)-1-i)
				l.reads[i], l.reads[i+k] = l.reads[i+k], l.reads[i]
			}
			var b strings.Builder
			local := 0
			for i, r := range l.reads {
				if t.Chance(1, 8) { // a variable of the template between
					fmt.Fprintf(&b, "#set($local%d = %s)", local, engine.Pick(t, "1", `"s"`, "true", "0.5"))
					local++
				}
				if s := r.from; !s.embed && s.rType.Kind() != reflect.Interface && t.Chance(1, 6) { // through another variable
					fmt.Fprintf(&b, "#set($local%d = $%s)$see(%d, $local%d)", local, r.path, i, local)
					local++
					continue
				}
				fmt.Fprintf(&b, "$see(%d, $%s)", i, r.path)
			}
			t.Note("template: %q", b.String())
			exec, newState := compileOK(t, p, b.String())
			l.exec = exec
			for n := 0; n == 0 || t.More(n, 4, 1); n++ {
				l.state = append(l.state, newState())
			}
			for _, s := range l.slots {
				for range l.state {
					s.held = append(s.held, reflect.New(s.rType).Elem())
				}
			}
			l.compare(t, "at first")
			ops := 0
			for n := 0; n == 0 || t.More(n, 30, 8); n++ {
				i := t.Int(0, len(l.state)-1)
				what := l.set(t, i)
				if what != "" {
					l.compare(t, what)
					ops++
				}
				switch {
				case t.Chance(1, 8):
					t.Note("executing with state %d", i)
					l.execute(t, i)
					l.compare(t, "after the execution")
				case t.Chance(1, 40):
					runtime.GC()
					l.compare(t, "after the garbage collection")
				case late && t.Chance(1, 4): // defined now, the states don't have them
					before := len(l.slots)
					define(100 + n)
					if len(l.slots) == before || l.slots[before].name == "" || l.slots[before].rType.Size() == 0 { // nothing to write
						l.slots = l.slots[:before]
						break
					}
					s := l.slots[before]
					l.slots = l.slots[:before]
					var err error
					if r, stack := engine.Protect(func() {
						if s.embed {
							err = l.state[i].EmbedValue(slotValue(t, s.rType).Interface())
						} else {
							err = l.state[i].SetValue(s.name, slotValue(t, s.rType).Interface())
						}
					}); r != nil {
						t.Fail("setting a variable defined after the state was created panicked: %v\n%s", r, clipStack(stack))
					}
					if err == nil {
						t.Fail("setting a variable defined after the state was created: no error")
					}
					l.compare(t, "after an attempt to set a variable the state doesn't have")
					t.Class("defined late")
				}
			}
			for i := range l.state {
				t.Note("executing with state %d", i)
				l.execute(t, i)
			}
			t.Class(fmt.Sprintf("%d states", len(l.state)))
			for _, s := range l.slots {
				k := s.rType.Kind().String()
				if s.embed {
					k = "embedded " + k
				}
				t.Class("variable: " + k)
			}
			if len(l.slots) >= 3 && ops >= 3 {
				t.NonTrivial(strings.Join(t.Notes(), "\n"))
			}
		},
	})
}

// hasPtr tells if a field is held by an embedded pointer.
func hasPtr(rt reflect.Type, at []int) bool {
	for _, i := range at[:len(at)-1] {
		rt = rt.Field(i).Type
		if rt.Kind() == reflect.Ptr {
			return true
		}
	}
	return false
}
