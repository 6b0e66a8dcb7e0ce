package props

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/viant/velty"
	"velty.verif/harness/engine"
)

// Grade decodes itself.
type Grade struct {
	n    int
	text string
}

func (g Grade) MarshalJSON() ([]byte, error) { return json.Marshal([]interface{}{g.n, g.text}) }

func (g *Grade) UnmarshalJSON(data []byte) error {
	var n json.Number
	list := []interface{}{&n, &g.text}
	if err := json.Unmarshal(data, &list); err != nil {
		return err
	}
	i, err := n.Int64()
	if err != nil || len(list) != 2 {
		return errors.New("no grade")
	}
	g.n = int(i)
	return nil
}

var tGrade = reflect.TypeOf(Grade{})

var jsonLeaves = []reflect.Type{tInt, tString, tBool, tFloat, tInt, tString, tAny, tTime, tSmall, tLeaf, tNode, tPair, tGrade, reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf([]byte{}), reflect.TypeOf(Word("")), reflect.TypeOf(Num(0)),
	reflect.TypeOf([2]int{}), reflect.TypeOf(json.Number("")), reflect.TypeOf(json.RawMessage{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf([]interface{}{})}

// jsonType draws a type JSON texts are decoded into.
func jsonType(t *engine.T, depth int) reflect.Type {
	if depth == 0 || t.Chance(2, 5) {
		return jsonLeaves[t.Uint(uint64(len(jsonLeaves)))]
	}
	switch t.Weighted(3, 3, 3, 5, 1) {
	case 0:
		return reflect.SliceOf(jsonType(t, depth-1))
	case 1:
		return reflect.MapOf(engine.Pick(t, tString, tString, tString, tInt, reflect.TypeOf(uint8(0)), reflect.TypeOf(Word("")), reflect.TypeOf(int64(0))), jsonType(t, depth-1))
	case 2:
		return reflect.PtrTo(jsonType(t, depth-1))
	case 3:
		var fields []reflect.StructField
		for n := 0; n == 0 || t.More(n, 6, 3); n++ {
			f := reflect.StructField{Name: string(rune('A'+n)) + engine.Pick(t, "", "x", "Name", "b_c"), Type: jsonType(t, depth-1)}
			switch t.Weighted(6, 2, 1, 1, 1) {
			case 1:
				f.Tag = reflect.StructTag(fmt.Sprintf(`json:"%s%d"`, engine.Pick(t, "f", "some_", "A", "é"), n))
			case 2:
				f.Tag = `json:",omitempty"`
			case 3:
				f.Tag = `json:",string"`
			case 4:
				f.Tag = `json:"-"`
			}
			fields = append(fields, f)
		}
		if t.Chance(1, 6) {
			fields = append(fields, reflect.StructField{Name: "Base", Type: reflect.TypeOf(Base{}), Anonymous: true})
		}
		return reflect.StructOf(fields)
	}
	return reflect.ArrayOf(t.Int(0, 3), jsonType(t, depth-1))
}

// jsonText draws a text to be decoded into the type.
func jsonText(t *engine.T, rt reflect.Type) string {
	from := rt
	if t.Chance(1, 8) {
		from = jsonType(t, 2)
	}
	data, err := json.Marshal(genValue(t, from, 4).Interface())
	if err != nil {
		data = []byte("null")
	}
	if t.Chance(1, 8) {
		var b bytes.Buffer
		if json.Indent(&b, data, engine.Pick(t, "", " "), engine.Pick(t, "\t", "  ", "")) == nil {
			data = b.Bytes()
		}
	}
	switch t.Weighted(24, 2, 2, 1, 1, 1, 1) {
	case 1: // cut
		data = data[:t.Int(0, len(data)-1)]
	case 2: // one byte changed
		if len(data) > 0 {
			data[t.Int(0, len(data)-1)] = engine.Pick(t, byte('"'), '{', '}', '[', ']', ',', ':', '0', '-', '.', 'e', ' ', 'n', 0, 0xff, '\\')
		}
	case 3:
		return engine.Pick(t, "", " ", "null", "true", "0", "-1", "1.5", "1e3", "300", "99999999999999999999", "\"\"", "\"a\"", "\"\\u00e9\\ud83d\\ude00\"", "\"\\ud800\"", "[]", "{}", "[null]", "[1,2,3,4]", "{\"a\":1}", "{\"A\":1,\"a\":2,\"A\":3}", "nul", "01", "[1,]", "{1:2}", "'a'", "\"2020-01-02T03:04:05Z\"", "// x", "[[[[]]]]", "NaN", "\xef\xbb\xbf1")
	case 4:
		data = append(data, engine.Pick(t, " ", "\n", "x", "1", "{}", ",", "}", "\x00")...)
	case 5:
		data = append([]byte(engine.Pick(t, " ", "\n\t", "x", "[", "-", "\"")), data...)
	case 6: // one member more
		if n := len(data); n > 2 && data[n-1] == '}' {
			data = append(data[:n-1], engine.Pick(t, `,"zz":1}`, `,"A":null}`, `,"a":0}`, `,"Ax":{}}`, `,"B":"1"}`)...)
		}
	}
	return string(data)
}

type brokenReader struct{}

func (brokenReader) Read([]byte) (int, error) { return 0, errors.New("broken reader") }

// source makes what the text is decoded from. The reader, if it is one, has to be made before each execution.
type jsonSource struct {
	name string
	text string
	kind int
}

func (s *jsonSource) reader() interface{} {
	switch s.kind {
	case 0:
		return strings.NewReader(s.text)
	case 1:
		return bytes.NewBufferString(s.text)
	case 2:
		return iotest.OneByteReader(strings.NewReader(s.text))
	case 3:
		return iotest.DataErrReader(strings.NewReader(s.text))
	}
	return brokenReader{}
}

var readerType = reflect.TypeOf((*io.Reader)(nil)).Elem()

type jsonRun struct {
	t       *engine.T
	g       *gen
	st      *style
	tmpl    strings.Builder
	readers []*jsonSource
	types   []reflect.Type
	want    []reflect.Value
	out     strings.Builder // what has to be rendered
	escape  bool
	bad     bool // the template has to fail
	useless bool // with nothing but nulls decoded
	good    int
	vars    int
}

func (r *jsonRun) print(x Expr) string {
	p := &printer{st: r.st}
	return p.capture(func() { x.print(p, 0) })
}

// source spells the text; ok tells whether it can be read.
func (r *jsonRun) source(text string) (src string, ok bool) {
	t := r.t
	switch t.Weighted(6, 3, 3, 3, 1) {
	case 1:
		t.Class("source *string")
		if t.Chance(1, 10) {
			return "$" + r.g.newVar(reflect.ValueOf((*string)(nil))).root, false
		}
		return r.print(r.g.spell(reflect.ValueOf(&text), tAny)), true
	case 2:
		t.Class("source []byte")
		if t.Chance(1, 10) {
			return "$" + r.g.newVar(reflect.ValueOf([]byte(nil))).root, false
		}
		return r.print(r.g.spell(reflect.ValueOf([]byte(text)), tAny)), true
	case 3:
		t.Class("source reader")
		s := &jsonSource{text: text, kind: t.Weighted(4, 4, 2, 2, 1)}
		v := reflect.ValueOf(s.reader())
		if t.Chance(1, 2) || v.Type().Kind() != reflect.Ptr {
			v = reflect.New(engine.Pick(t, tAny, readerType)).Elem()
			v.Set(reflect.ValueOf(s.reader()))
		}
		s.name = r.g.newVar(reflect.Zero(v.Type())).root
		r.g.w.vars[len(r.g.w.vars)-1].unset = true
		r.readers = append(r.readers, s)
		return "$" + s.name, s.kind != 4
	case 4:
		t.Class("source: bad")
		v := engine.Pick(t, reflect.ValueOf(7), reflect.ValueOf(true), reflect.ValueOf(0.5), reflect.ValueOf(Small{}), reflect.ValueOf([]int{1}), reflect.ValueOf(map[string]int{}), reflect.ValueOf([]string{"1"}), reflect.Zero(tAny))
		return r.print(r.g.spell(v, tAny)), false
	}
	t.Class("source string")
	return r.print(r.g.spell(reflect.ValueOf(text), tAny)), true
}

// typeName names the type; literal tells whether the template knows it.
func (r *jsonRun) typeName(rt reflect.Type) (name string, literal bool) {
	t := r.t
	id := len(r.types)
	r.types = append(r.types, rt)
	name = engine.Pick(t, "T", "*T", "[]T ", "map[string]t") + strconv.Itoa(id)
	if t.Chance(2, 3) {
		return `"` + name + `"`, true
	}
	x := r.g.spell(reflect.ValueOf(name), tString)
	if _, literal = x.(*Lit); literal { // in parentheses it would be looked up at run time
		return `"` + name + `"`, true
	}
	return r.print(x), false
}

func (r *jsonRun) parse(name string) (reflect.Type, error) {
	id, err := strconv.Atoi(strings.TrimLeft(name, "*T []mapstring"))
	if err != nil || id >= len(r.types) {
		return nil, fmt.Errorf("unknown type %v", name)
	}
	return r.types[id], nil
}

func (r *jsonRun) parser() velty.TypeParser { return r.parse }

// see writes a probe for the expression.
func (r *jsonRun) see(ref string, want reflect.Value) {
	fmt.Fprintf(&r.tmpl, "$see(%d, $%s)", len(r.want), ref)
	r.want = append(r.want, want)
}

// render writes the reference as text.
func (r *jsonRun) render(ref string, v reflect.Value) {
	r.tmpl.WriteString("{$" + ref + "}")
	r.out.WriteString("{" + renderModel(v, r.escape) + "}")
}

// unmarshal writes a call decoding a text and uses of what it yields.
func (r *jsonRun) unmarshal() {
	t := r.t
	rt := jsonType(t, t.Int(0, 3))
	text := jsonText(t, rt)
	src, ok := r.source(text)
	name, literal := r.typeName(rt)
	p := reflect.New(rt)
	decoded := p.Elem()
	if err := json.Unmarshal([]byte(text), p.Interface()); err != nil {
		ok = false
	}
	sp := r.st.sp
	call := fmt.Sprintf("json.UnmarshalInto(%s%s%s,%s%s%s)", sp(), src, sp(), sp(), name, sp())
	if !ok {
		r.bad = true
		t.Class("error")
		decoded = reflect.Zero(rt)
		if rt.Kind() == reflect.Interface || !literal {
			decoded = reflect.Zero(tAny)
		}
	} else {
		r.good++
	}
	result := decoded
	if !literal {
		result = reflect.New(tAny).Elem()
		if ok {
			result.Set(decoded)
		}
		t.Class("type name at run time")
	} else {
		t.Class("type name literal")
	}
	switch t.Weighted(3, 2, 5) {
	case 0:
		r.see(call, result)
		return
	case 1:
		if renderable(result) {
			r.render(call, result)
			return
		}
	}
	v := fmt.Sprintf("u%d", r.vars)
	r.vars++
	fmt.Fprintf(&r.tmpl, "#set($%s%s=%s$%s)", v, sp(), sp(), call)
	r.use(v, result)
	if !r.bad && t.Chance(1, 2) {
		r.marshalRef(v, result)
	}
}

// use probes the variable and the values it reaches.
func (r *jsonRun) use(v string, result reflect.Value) {
	t := r.t
	r.see(v, result)
	at, path := result, v
	for n := 0; n < 5; n++ {
		switch at.Kind() {
		case reflect.Ptr:
			if at.IsNil() || at.Type().Elem().Kind() != reflect.Struct {
				return
			}
			at = at.Elem()
			continue
		case reflect.Struct:
			var fields []int
			for i := 0; i < at.NumField(); i++ {
				if f := at.Type().Field(i); f.PkgPath == "" && !f.Anonymous && f.Name != "" {
					fields = append(fields, i)
				}
			}
			if len(fields) == 0 || at.Type() == tTime {
				return
			}
			i := fields[t.Int(0, len(fields)-1)]
			path += "." + at.Type().Field(i).Name
			at = at.Field(i)
			t.Class("field of decoded")
		case reflect.Slice:
			if at.Len() == 0 || at.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			if at.Type().Elem().Kind() != reflect.Interface && n == 0 && t.Chance(1, 2) {
				k := len(r.want)
				fmt.Fprintf(&r.tmpl, "#foreach($it%d in $%s)$see(%d, $it%d)#end", k, path, k, k)
				for i := 0; i < at.Len(); i++ {
					r.want = append(r.want, at.Index(i))
				}
				t.Class("loop over decoded")
				return
			}
			i := t.Int(0, at.Len()-1)
			path += fmt.Sprintf("[%d]", i)
			at = at.Index(i)
			t.Class("element of decoded")
		case reflect.Map:
			keys := sortedValues(at.MapKeys())
			if len(keys) == 0 {
				return
			}
			k := keys[t.Int(0, len(keys)-1)]
			switch {
			case k.Kind() == reflect.String:
				path += "[$" + r.g.newVar(reflect.ValueOf(k.String())).root + "]"
			default:
				path += "[$" + r.g.newVar(reflect.ValueOf(k.Interface())).root + "]"
			}
			at = at.MapIndex(k)
			t.Class("entry of decoded")
		default:
			return
		}
		if t.Chance(1, 2) {
			r.see(path, at)
		} else if renderable(at) {
			r.render(path, at)
		}
	}
}

// renderable: not a nil pointer to a time in an interface, nor pointers printed as addresses.
func renderable(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface:
		return v.IsNil() || v.Elem().Type().Kind() <= reflect.Float64 || v.Elem().Type() == tString
	case reflect.Invalid:
		return false
	}
	return true
}

// marshalRef writes a call encoding what the path refers to.
func (r *jsonRun) marshalRef(path string, v reflect.Value) {
	data, err := json.Marshal(v.Interface())
	if err != nil {
		r.bad = true
		data = nil
	} else {
		r.good++
	}
	r.t.Class("marshal")
	call := fmt.Sprintf("json.Marshal(%s$%s)", r.st.sp(), path)
	if r.bad || r.t.Chance(1, 2) {
		r.see(call, reflect.ValueOf(string(data)))
		return
	}
	r.render(call, reflect.ValueOf(string(data)))
}

// marshal writes a call encoding a generated value.
func (r *jsonRun) marshal() {
	t := r.t
	var v reflect.Value
	switch t.Weighted(8, 1) {
	case 0:
		v = genValue(t, jsonType(t, t.Int(0, 3)), 4)
	case 1: // can't be encoded, or hardly
		t.Class("marshal: odd")
		v = engine.Pick(t, reflect.ValueOf(math.NaN()), reflect.ValueOf(math.Inf(1)), reflect.ValueOf(make(chan int)), reflect.ValueOf(func() {}), reflect.ValueOf(complex(1, 2)), reflect.ValueOf(map[bool]int{true: 1}),
			reflect.ValueOf([]float64{1, math.NaN()}), reflect.ValueOf(&Small{}), reflect.ValueOf((*Small)(nil)), reflect.ValueOf("\xff<&>\u2028"), reflect.ValueOf(float32(0.1)), reflect.ValueOf(1e21), reflect.ValueOf(uint64(math.MaxUint64)))
	}
	x := r.g.spell(v, tAny)
	if l, ok := x.(*Lit); ok {
		v = l.v
	}
	if v.Kind() == reflect.Func || v.Kind() == reflect.Chan {
		x = r.g.newVar(v)
	}
	data, err := json.Marshal(v.Interface())
	if err != nil {
		r.bad = true
		t.Class("error")
	} else {
		r.good++
	}
	t.Class("marshal")
	text := r.print(x)
	call := fmt.Sprintf("json.Marshal(%s%s%s)", r.st.sp(), text, r.st.sp())
	switch t.Weighted(2, 2, 3) {
	case 0:
		r.see(call, reflect.ValueOf(string(data)))
	case 1:
		if r.bad {
			r.see(call, reflect.ValueOf(""))
			return
		}
		r.render(call, reflect.ValueOf(string(data)))
	case 2: // and back
		if r.bad {
			r.see(call, reflect.ValueOf(""))
			return
		}
		p := reflect.New(v.Type())
		if json.Unmarshal(data, p.Interface()) != nil {
			r.see(call, reflect.ValueOf(string(data)))
			return
		}
		t.Class("round trip")
		name, literal := r.typeName(v.Type())
		result := p.Elem()
		if !literal {
			result = reflect.New(tAny).Elem()
			result.Set(p.Elem())
		}
		if t.Bool() {
			r.see(fmt.Sprintf("json.UnmarshalInto($%s, %s)", call, name), result)
			return
		}
		n := r.vars
		r.vars++
		fmt.Fprintf(&r.tmpl, "#set($d%d = $%s)#set($u%d = $json.UnmarshalInto($d%d, %s))", n, call, n, n, name)
		r.use(fmt.Sprintf("u%d", n), result)
		back, err := json.Marshal(result.Interface())
		if err == nil && string(back) == string(data) {
			fmt.Fprintf(&r.tmpl, "#if($json.Marshal($u%d) == $d%d)same#end", n, n)
			r.out.WriteString("same")
		}
	}
}

func jsonRejected(t *engine.T) {
	g := newGen(t)
	g.w.cache = -1
	s := g.newVar(reflect.ValueOf("{}")).root
	name := engine.Pick(t, `"Foo"`, `"int"`, `""`, `"[]*x.Y"`)
	mode := t.Int(0, 4)
	call := fmt.Sprintf("$json.UnmarshalInto($%s, %s)", s, name)
	runtime := false
	if t.Bool() {
		call = fmt.Sprintf("$json.UnmarshalInto($%s, $%s)", s, g.newVar(reflect.ValueOf(strings.Trim(name, `"`))).root)
		runtime = true
	}
	switch mode {
	case 0: // no parser
	case 1:
		g.w.parser = func(string) (reflect.Type, error) { return nil, errors.New("not known") }
	case 2:
		g.w.parser = func(string) (reflect.Type, error) { return nil, nil }
	case 3:
		g.w.parser = func(string) (reflect.Type, error) { return tSmall, nil }
		call, runtime = fmt.Sprintf("$json.UnmarshalInto($%s)", s), false
	case 4:
		g.w.parser = func(string) (reflect.Type, error) { return tSmall, nil }
		call, runtime = fmt.Sprintf("$json.UnmarshalInto($%s, %s, 1)", s, name), false
	}
	tmpl := engine.Pick(t, "a%sb", "#set($x = %s)$x", "#if(true)%s#end", "#foreach($y in %s)#end")
	if runtime {
		tmpl = engine.Pick(t, "a%sb", "#set($x = %s)$x", "#if(true)%s#end")
	}
	tmpl = strings.Replace(tmpl, "%s", call, 1)
	noteWorld(t, g.w, tmpl)
	t.Class("rejected type")
	var err error
	p := g.w.planner(t)
	if r, stack := engine.Protect(func() {
		exec, newState, e := p.Compile([]byte(tmpl))
		if err = e; err != nil {
			return
		}
		st := newState()
		setVars(t, st, g.w.vars, newCloner())
		err = exec.Exec(st)
	}); r != nil {
		t.Fail("panicked: %v\n%s", r, clipStack(stack))
	}
	if err == nil {
		t.Fail("no error")
	}
	t.NonTrivial(tmpl + strconv.Itoa(mode))
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C21",
		Rule: "up to 4 calls of json.Marshal and json.UnmarshalInto: 31 leaf types, generated slices, maps, pointers, arrays and tagged structs of them; texts encoded from generated values, of other types, indented, cut, mutated, extended, or odd; read from strings, pointers, bytes and readers of 5 kinds (or from what can't be read), spelled as literals, variables, fields, elements, interfaces, expressions and calls; " +
			"the type named by a literal or at run time; results passed to a function, rendered, assigned, read by fields, indexes, keys and loops, encoded again; compared with encoding/json; non-trivial: at least two calls that succeed, or one that has to fail",
		Quick: 150000, Thorough: 4000000,
		Run: func(t *engine.T) {
			if t.Chance(1, 40) {
				jsonRejected(t)
				return
			}
			g := newGen(t)
			r := &jsonRun{t: t, g: g, st: &style{t}}
			g.w.escape = t.Chance(1, 4)
			r.escape = g.w.escape
			g.w.stop = t.Chance(1, 6)
			g.w.parser = r.parser()
			g.w.setup = func(p *velty.Planner) {
				registerPure(p)
				registerIdentities(p)
				if err := p.RegisterFunction("see", see); err != nil {
					t.Fail("RegisterFunction: %v", err)
				}
			}
			for n := 0; (n == 0 || t.More(n, 4, 2)) && !r.bad; n++ {
				if t.Chance(2, 3) {
					r.unmarshal()
				} else {
					r.marshal()
				}
			}
			tmpl := r.tmpl.String()
			noteWorld(t, g.w, tmpl)
			for i, rt := range r.types {
				t.Note("T%d: %v", i, rt)
			}
			for _, s := range r.readers {
				t.Note("$%s reads %q (reader %d)", s.name, s.text, s.kind)
			}
			exec, newState := compileOK(t, g.w.planner(t), tmpl)
			for n := 0; n == 0 || n == 1 && t.Chance(1, 4); n++ {
				st := newState()
				setVars(t, st, g.w.vars, newCloner())
				for _, s := range r.readers {
					if err := st.SetValue(s.name, s.reader()); err != nil {
						t.Fail("SetValue(%s): %v", s.name, err)
					}
				}
				seen.at, seen.values = nil, nil
				var err error
				if p, stack := engine.Protect(func() { err = exec.Exec(st) }); p != nil {
					t.Fail("Exec panicked: %v\n%s", p, clipStack(stack))
				}
				if r.bad != (err != nil) {
					t.Fail("Exec returned error %v, an error is due: %v", err, r.bad)
				}
				want := r.want
				if g.w.stop && r.bad {
					if len(seen.values) > len(want) {
						t.Fail("%d results, want at most %d", len(seen.values), len(want))
					}
					want = want[:len(seen.values)]
				}
				if len(seen.values) != len(want) {
					t.Fail("%d results, want %d", len(seen.values), len(want))
				}
				for i, w := range want {
					got := reflect.ValueOf(seen.values[i])
					if w.IsValid() && w.Kind() == reflect.Interface {
						w = w.Elem()
					}
					if got.IsValid() != w.IsValid() || got.IsValid() && got.Type() != w.Type() || dump(got) != dump(w) {
						t.Fail("result %d (of see(%d)) is %s\n    want %s", i, seen.at[i], typed(got), typed(w))
					}
				}
				if got := st.Buffer.String(); !r.bad && got != r.out.String() {
					t.Fail("output %q\n    want %q", got, r.out.String())
				}
				for _, v := range g.w.vars {
					got, _ := stateVar(st, v.name)
					if !v.unset && dump(got) != dump(v.value) {
						t.Fail("variable %s was changed to %s", v.name, dump(got))
					}
				}
			}
			if r.good > 1 || r.bad {
				t.NonTrivial(tmpl + show(g.w))
			}
		},
	})
}
