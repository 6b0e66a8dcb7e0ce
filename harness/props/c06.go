package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// Types that hold themselves can't be made at run time.

type Tree struct {
	B     bool
	Val   int
	Left  *Tree
	C     int8
	Right *Tree
	Kids  []Tree
	Alt   []*Tree
	By    map[string]*Tree
	Name  string `velty:"name=Label"`
	In    Small
}

type Ping struct {
	U8   uint8
	Hit  int
	Pong *Pong
	Tail string
}

type Pong struct {
	F    float32
	Back *Ping `velty:"names=Back|Return"`
	Self *Pong
	Miss int64
}

type tagged struct {
	F1 string `velty:"name=F2"`
	F2 int    `velty:"name=F1"`
	F3 bool   `velty:"Third|t3|THIRD"`
	F4 int    `velty:"-"`
	F5 int16
}

type Holder struct {
	X      bool
	tagged `velty:"prefix=T_"`
	*Tagged
	Y tagged
}

type Tagged struct {
	N1 int8   `velty:"names=one|uno"`
	N2 string `velty:"-"`
	N3 *Small
}

var layoutTypes = []reflect.Type{tInt, tString, tBool, tFloat, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint8(0)),
	reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), ptrTo(0), ptrTo(""), ptrTo(true), ptrTo(0.5), ptrTo(int8(0)), reflect.TypeOf([3]byte{}), tTime, reflect.PtrTo(tTime), tAny,
	reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf(struct{}{}), tSmall, reflect.PtrTo(tSmall)}

var namedTypes = []reflect.Type{reflect.TypeOf(Holder{}), reflect.TypeOf(&Holder{}), reflect.TypeOf(Tree{}), reflect.TypeOf(&Tree{}), reflect.TypeOf(Ping{}), reflect.TypeOf(&Pong{}), tPair, tNode, reflect.TypeOf([]*Ping{}), reflect.PtrTo(tNode)}

var fieldPool = []string{"A", "B", "C", "Ab", "AB", "ABC", "Id", "ID", "Name", "Value", "X", "X1", "Foo_Bar", "Z_", "Len", "Data"}

var tagPool = []string{"a", "b", "NAME", "FOO_NAME", "x1", "id", "A", "B", "C", "Value", "Id", "n1_2"}

// structType makes a struct type; all names that can be used in templates are different within it.
func structType(t *engine.T, depth int) reflect.Type {
	var fields []reflect.StructField
	goNames, names := map[string]bool{}, map[string]bool{}
	for n := 0; n == 0 || t.More(n, 8, 3); n++ {
		name := engine.Pick(t, fieldPool...)
		if goNames[name] {
			name = name + strconv.Itoa(n)
		}
		goNames[name] = true
		f := reflect.StructField{Name: name}
		kind := t.Weighted(6, 3, 2, 1)
		if depth == 0 {
			kind = 0
		}
		switch kind {
		case 0:
			f.Type = layoutTypes[t.Uint(uint64(len(layoutTypes)))]
		case 1: // a struct
			f.Type = wrapType(t, structType(t, depth-1))
		case 2: // an embedded struct
			f.Type = structType(t, depth-1)
			if t.Chance(1, 3) {
				f.Type = reflect.PtrTo(f.Type)
			}
			f.Anonymous = true
			if t.Chance(1, 2) {
				f.Tag = reflect.StructTag(`velty:"prefix=` + engine.Pick(t, "P_", "FOO_", "x", "A") + `"`)
			}
		case 3:
			f.Type = namedTypes[t.Uint(uint64(len(namedTypes)))]
		}
		if !f.Anonymous {
			switch t.Weighted(6, 2, 2, 1, 1) {
			case 1:
				f.Tag = reflect.StructTag(engine.Pick(t, `velty:"name=`, `velty:"name=`, `velty:" name = `, `velty:"names=`, `velty:"Name=`) + engine.Pick(t, tagPool...) + `"`)
			case 2:
				var list []string
				for n := 0; n < 2 || t.More(n, 4, 1); n++ {
					list = append(list, engine.Pick(t, tagPool...))
				}
				f.Tag = reflect.StructTag(engine.Pick(t, `velty:"names=`, `velty:"`, `json:"q,omitempty" velty:"name=`) + strings.Join(list, "|") + `"`)
			case 3:
				f.Tag = engine.Pick(t, reflect.StructTag(`velty:"-"`), `velty:"-"`, `velty:"-"`, `velty:" - "`, `velty:"name=Omitted,-"`, `velty:"-,name=Omitted"`, `json:"Omitted" velty:"-"`)
			case 4: // the tag of something else
				f.Tag = engine.Pick(t, reflect.StructTag(`json:"-"`), `json:"a,omitempty" xml:"b"`, `velty:""`, `json:"x" velty:"name=NAME" xml:"y"`)
			}
		}
		probe := reflect.StructOf([]reflect.StructField{f})
		clash := false
		mine := map[string]bool{}
		for _, p := range promoted(probe) {
			clash = clash || names[p.name] || mine[p.name]
			mine[p.name] = true
		}
		if clash {
			continue
		}
		for k := range mine {
			names[k] = true
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

// clashType makes a struct type in which a name denotes two fields.
func clashType(t *engine.T) (reflect.Type, string) {
	rt := structType(t, 2)
	all := promoted(rt)
	if len(all) == 0 {
		return nil, ""
	}
	name := all[t.Uint(uint64(len(all)))].name
	f := reflect.StructField{Name: "Clash", Type: layoutTypes[t.Uint(uint64(len(layoutTypes)))]}
	if t.Bool() {
		f.Type = all[t.Uint(uint64(len(all)))].rType
	}
	if name[0] >= 'A' && name[0] <= 'Z' && t.Bool() {
		f.Name = name
	} else {
		f.Tag = reflect.StructTag(fmt.Sprintf(`velty:"name=%s"`, name))
	}
	for n := t.Weighted(2, 3, 1); n > 0; n-- { // promoted
		st := reflect.StructOf([]reflect.StructField{f})
		if t.Bool() {
			st = reflect.StructOf([]reflect.StructField{{Name: "Filler", Type: tInt, Tag: `velty:"-"`}, f})
		}
		if t.Bool() {
			st = reflect.PtrTo(st)
		}
		f = reflect.StructField{Name: fmt.Sprint("Clash", n), Type: st, Anonymous: true}
	}
	fields := []reflect.StructField{f}
	for i := 0; i < rt.NumField(); i++ {
		if rt.Field(i).Name == f.Name {
			return nil, ""
		}
		fields = append(fields, rt.Field(i))
		if t.Bool() {
			fields[i], fields[i+1] = fields[i+1], fields[i]
		}
	}
	for i := range fields {
		fields[i].Offset, fields[i].Index = 0, nil
	}
	rt = reflect.StructOf(fields)
	for n := t.Weighted(3, 1, 1); n > 0; n-- {
		rt = wrapType(t, rt)
		rt = reflect.StructOf([]reflect.StructField{{Name: "Y", Type: tString}, {Name: "X", Type: rt}})
	}
	return rt, name
}

// chainType makes structs in structs up to 20 deep, or a wide one.
func chainType(t *engine.T) reflect.Type {
	leaf := func() reflect.Type { return layoutTypes[t.Uint(uint64(len(layoutTypes)))] }
	if t.Chance(1, 3) {
		var fields []reflect.StructField
		for n := size(t, 4, 7); n > 0; n-- {
			fields = append(fields, reflect.StructField{Name: engine.Pick(t, fieldPool...) + "w" + strconv.Itoa(n), Type: leaf()})
		}
		return reflect.StructOf(fields)
	}
	rt := reflect.StructOf([]reflect.StructField{{Name: "Last", Type: tInt}, {Name: "End", Type: tString}})
	for n := t.Int(4, 20); n > 0; n-- {
		var fields []reflect.StructField
		name := func() string { return engine.Pick(t, fieldPool...) + "_" + strconv.Itoa(len(fields)) + strconv.Itoa(n) }
		for t.Bool() && len(fields) < 3 {
			fields = append(fields, reflect.StructField{Name: name(), Type: leaf()})
		}
		f := reflect.StructField{Name: name(), Type: rt, Anonymous: t.Chance(1, 3)}
		if t.Chance(1, 3) {
			f.Type = reflect.PtrTo(rt)
		}
		if f.Anonymous && t.Chance(1, 4) {
			f.Tag = reflect.StructTag(fmt.Sprintf(`velty:"prefix=P%d"`, n))
		}
		fields = append(fields, f)
		if t.Bool() {
			fields = append(fields, reflect.StructField{Name: name(), Type: leaf()})
		}
		rt = reflect.StructOf(fields)
	}
	return rt
}

func wrapType(t *engine.T, s reflect.Type) reflect.Type {
	switch t.Weighted(4, 3, 1, 1, 1) {
	case 1:
		return reflect.PtrTo(s)
	case 2:
		return reflect.SliceOf(s)
	case 3:
		return reflect.SliceOf(reflect.PtrTo(s))
	case 4:
		return reflect.MapOf(tString, s)
	}
	return s
}

// badPath makes a path that doesn't exist out of one that does, or returns "".
func badPath(t *engine.T, g *gen) (string, string) {
	r := g.ref(4, func(v *genVar, s shape) bool {
		rt := derefOnce(s.rType)
		return rt.Kind() == reflect.Struct && rt != tTime
	})
	if r == nil {
		return "", ""
	}
	st := derefOnce(r.rType)
	known := map[string]bool{}
	var candidates []string
	for _, f := range promoted(st) {
		known[f.name] = true
	}
	why := "no such field"
	switch t.Weighted(3, 2, 2, 2) {
	case 0:
		candidates = append(append(candidates, fieldPool...), "Nope", "tagged", "B1", "Depth")
	case 1: // a field left out
		why = "field left out"
		for i := 0; i < st.NumField(); i++ {
			if _, _, omit := tagOf(st.Field(i)); omit {
				candidates = append(candidates, st.Field(i).Name, "Omitted")
			}
		}
	case 2: // a promoted field without the prefix
		why = "missing prefix"
		for i := 0; i < st.NumField(); i++ {
			f := st.Field(i)
			if _, prefix, _ := tagOf(f); f.Anonymous && prefix != "" && deref(f.Type).Kind() == reflect.Struct {
				for _, p := range promoted(deref(f.Type)) {
					candidates = append(candidates, p.name)
				}
			}
		}
	case 3: // a field of a field
		why = "field of a field"
		for _, f := range promoted(st) {
			if rt := derefOnce(f.rType); rt.Kind() == reflect.Struct && rt != tTime {
				for _, p := range promoted(rt) {
					candidates = append(candidates, p.name)
				}
			}
		}
	}
	var names []string
	for _, c := range candidates {
		_, inGo := st.FieldByName(c)
		if !known[c] && (!inGo || why != "no such field") && isPlainName(c) {
			names = append(names, c)
		}
	}
	if len(names) == 0 {
		return "", ""
	}
	p := &printer{}
	return p.path(r) + "." + names[t.Uint(uint64(len(names)))], why
}

func isPlainName(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isIdentByte(s[i]) {
			return false
		}
	}
	return true
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C06",
		Rule: "struct types generated at run time (up to 8 fields of any kind and width, nested and embedded structs and pointers to them up to 3 deep, slices and maps of them, name, names, prefix and - tags, names crossing over, types holding themselves), " +
			"defined under one or two names or embedded, with random values and nil patterns; up to 8 random paths are read into typed variables and rendered, and compared with the value found by reflection; one in 5 cases appends a path that doesn't exist and has to be rejected, one in 20 defines a type in which a name denotes two fields and has to be refused; " +
			"non-trivial: some path has at least 2 steps, or is promoted or renamed",
		Quick: 80000, Thorough: 4000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.w.setup = nil
			g.w.escape = t.Chance(1, 8)
			if t.Chance(1, 20) {
				rt, name := clashType(t)
				if rt == nil {
					return
				}
				p := g.w.planner(t)
				var err error
				if t.Chance(1, 4) {
					err = p.EmbedVariable(rt)
				} else {
					err = p.DefineVariable("v", rt)
				}
				t.Note("%v\n%q denotes two fields: %v", rt, name, err)
				t.Class("ambiguous name")
				if err == nil {
					t.Fail("a type in which %q denotes two fields is accepted: %v", name, rt)
				}
				t.NonTrivial(rt.String())
				return
			}
			names := map[string]bool{"ix": true}
			embeddedTypes := map[string]bool{}
			chain := 0
			var chained []*genVar
			for n := 0; n == 0 || t.More(n, 4, 1); n++ {
				var rt reflect.Type
				isChain, depth := false, 5
				if t.Chance(1, 8) {
					rt = engine.Pick(t, append(namedTypes, genericTypes...)...)
				} else if t.Chance(1, 120) {
					rt = chainType(t)
					chain, isChain, depth = 22, true, 27
					g.feature("deep or wide")
				} else {
					rt = structType(t, 3)
				}
				if t.Chance(1, 4) && deref(rt).Kind() == reflect.Struct {
					clash := embeddedTypes[rt.String()] || names[embeddedName(rt)]
					for _, f := range promoted(deref(rt)) {
						clash = clash || names[f.name]
					}
					if clash {
						continue
					}
					embeddedTypes[rt.String()] = true
					if t.Chance(1, 3) && rt.Kind() != reflect.Ptr {
						rt = reflect.PtrTo(rt)
					}
					// what is embedded has no name of its own
					name := embeddedName(rt)
					if name == "" {
						name = "?" + strconv.Itoa(n)
					}
					names[name] = true
					v := &Var{name: name, rType: rt, embed: true, value: genValue(t, rt, depth), unset: t.Chance(1, 12)}
					g.w.vars = append(g.w.vars, v)
					for _, f := range promoted(deref(rt)) {
						names[f.name] = true
						g.vars = append(g.vars, &genVar{name: f.name, rType: f.rType, embedded: true})
						if isChain {
							chained = append(chained, g.vars[len(g.vars)-1])
						}
					}
					g.feature("embedded variable")
					continue
				}
				rt = wrapType(t, rt)
				name := identifier(t)
				if names[name] {
					continue
				}
				names[name] = true
				v := &Var{name: name, rType: rt, value: genValue(t, rt, depth), unset: t.Chance(1, 12)}
				if t.Chance(1, 6) {
					if other := identifier(t); !names[other] {
						names[other] = true
						v.also = append(v.also, other)
						g.vars = append(g.vars, &genVar{name: other, rType: rt})
						g.feature("second name")
					}
				}
				g.w.vars = append(g.w.vars, v)
				g.vars = append(g.vars, &genVar{name: name, rType: rt})
				if isChain {
					chained = append(chained, g.vars[len(g.vars)-1])
				}
			}
			ix := &Var{name: "ix", rType: tInt, value: reflect.ValueOf(t.Weighted(6, 2, 1))}
			g.w.vars = append(g.w.vars, ix)
			g.vars = append(g.vars, &genVar{name: "ix", rType: tInt, reserved: true})
			g.noIndex = t.Bool()

			if t.Chance(1, 5) {
				path, why := badPath(t, g)
				if path == "" {
					return
				}
				tmpl := fmt.Sprintf(engine.Pick(t, "$%s", "${%s}", "a $%s b", "#set($r = $%s)", "#if($%s)x#end", "#foreach($q in $%s)x#end", "#set($r = $%s + 1)", "#set($%s = 1)"), path)
				noteWorld(t, g.w, tmpl)
				t.Note("types:\n%s", showTypes(g.w))
				t.Class("rejected: " + why)
				if c := compileAny(t, g.w.planner(t), tmpl); c.ok {
					t.Fail("a path that doesn't exist is accepted: %s (%s)", path, why)
				}
				t.NonTrivial(tmpl + showTypes(g.w))
				return
			}

			var body []Stmt
			interesting := false
			for n := 0; n == 0 || t.More(n, 8, 4); n++ {
				want := t.Int(0, 4)
				depth := 4
				if len(chained) > 0 && t.Bool() {
					want, depth = t.Int(0, chain), chain
				}
				all := g.vars
				if depth > 4 {
					g.vars = chained
				}
				r := g.ref(depth, func(v *genVar, s shape) bool { return len(s.steps) >= want || want > 2 && len(s.steps) == 2 })
				g.vars = all
				if r == nil {
					r = g.ref(4, func(*genVar, shape) bool { return true })
				}
				if len(r.steps) >= 2 {
					interesting = true
				}
				g.feature(strconv.Itoa(len(r.steps)) + " steps")
				g.feature("read " + r.rType.Kind().String())
				switch {
				case t.Chance(1, 3) && isBasic(r.rType):
					body = append(body, &Render{r}, &Text{"|"})
				case r.rType.Kind() == reflect.Slice && t.Chance(1, 4):
					item := g.freshName()
					body = append(body, &Foreach{item: item, src: r, body: []Stmt{&Text{"."}}})
					g.feature("foreach")
				case t.Chance(1, 5) && jsonable(r.rType):
					body = append(body, &Render{r}, &Text{"|"})
				default:
					body = append(body, &Set{&Ref{root: g.freshName(), rType: r.rType}, r})
				}
			}
			tmpl := printBody(&style{t}, body)
			t.Note("types:\n%s", showTypes(g.w))
			noteWorld(t, g.w, tmpl)
			e := modelEnv(g.w, body)
			want := runModel(e, body)
			for _, v := range g.w.vars {
				if v.embed && strings.HasPrefix(v.name, "?") {
					delete(e.vars, v.name)
				}
			}
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			var st *est.State
			st = newState()
			setVars(t, st, g.w.vars, newCloner())
			checkRun(t, g.w, e, want, st, exec)
			g.classes()
			if interesting || g.features["embedded variable"] {
				t.NonTrivial(tmpl + showTypes(g.w))
			}
		},
	})
}

// jsonable: rendering uses Go's JSON encoding.
func jsonable(t reflect.Type) bool { return t.Kind() != reflect.Interface }

func showTypes(w *World) string {
	var b strings.Builder
	for _, v := range w.vars {
		fmt.Fprintf(&b, "  %s %v\n", v.name, v.rType)
	}
	return b.String()
}
