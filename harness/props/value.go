// Package props holds the properties: a generator and an oracle for each, and the reference model they share.
package props

import (
	"encoding/json"
	"fmt"
	"html"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"

	"velty.verif/harness/engine"
)

var (
	tInt    = reflect.TypeOf(0)
	tFloat  = reflect.TypeOf(0.0)
	tString = reflect.TypeOf("")
	tBool   = reflect.TypeOf(true)
	tAny    = reflect.TypeOf((*interface{})(nil)).Elem()
	tTime   = reflect.TypeOf(time.Time{})
)

// Leaf has a field of every basic kind, pointers, slices and maps.
type Leaf struct {
	I   int
	F   float64
	S   string
	B   bool
	I8  int8
	I16 int16
	I32 int32
	I64 int64
	U   uint
	U8  uint8
	U16 uint16
	U32 uint32
	U64 uint64
	F32 float32
	PI  *int
	PF  *float64
	PS  *string
	PB  *bool
	Is  []int
	Fs  []float64
	Ss  []string
	Bs  []bool
	MS  map[string]string
	MI  map[string]int
	IM  map[int]string
	Any interface{}
}

// Small is a struct with few fields of mixed width.
type Small struct {
	B  bool
	I  int
	C  int8
	S  string
	F  float64
	F3 float32
	E  bool
}

// Base is embedded by value, Link by pointer.
type Base struct {
	Flag bool
	Code int
	Kind string
}

type Link struct {
	W      uint16
	Rate   float64
	Remote string
	Depth  Small
}

type Node struct {
	T   bool
	L   Leaf
	P   *Leaf
	Sm  Small
	PSm *Small
	Base
	*Link
	Ls  []Leaf
	Ps  []*Leaf
	Sms []Small
	M   map[string]Small
	MP  map[string]*Small
	MI  map[string][]int
	II  [][]int
	X   int
}

// Emb and EmbP are embedded into states.
type Emb struct {
	EmbI  int
	EmbS  string
	EmbB  bool
	EmbC  int8
	EmbF  float64
	EmbSm Small
	EmbP  *Leaf
	EmbIs []int
	EmbM  map[string]int
}

type EmbPtr struct {
	PtrB  bool
	PtrI  int
	PtrU  uint16
	PtrS  string
	PtrF  float64
	PtrSm Small
	PtrN  *Small
	PtrSs []string
}

// Gen is a generic type: the embedded field is called Gen, whatever its argument.
type Gen[T any] struct {
	GenB bool
	GenV T
	GenC int8
	GenP *T
}

var genericTypes = []reflect.Type{reflect.TypeOf(Gen[int]{}), reflect.TypeOf(&Gen[string]{}), reflect.TypeOf(Gen[Small]{}), reflect.TypeOf(&Gen[*Small]{}),
	reflect.TypeOf(Gen[map[string]int]{}), reflect.TypeOf(Gen[[]float64]{}), reflect.TypeOf(&Gen[uint16]{})}

// embeddedName is the name of the field which holds an embedded value of the type.
func embeddedName(t reflect.Type) string {
	name, _, _ := strings.Cut(deref(t).Name(), "[")
	return name
}

var (
	tEmb    = reflect.TypeOf(Emb{})
	tEmbPtr = reflect.TypeOf(&EmbPtr{})
	tLeaf   = reflect.TypeOf(Leaf{})
	tSmall  = reflect.TypeOf(Small{})
	tNode   = reflect.TypeOf(Node{})
)

// ---- values ----

var interestingInts = []int64{0, 1, 2, 3, -1, -2, 7, 9, 10, 42, 99, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, 65535, 65536,
	999999, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, 1 << 40, math.MaxInt64, math.MinInt64, 1<<53 + 1}

func genInt(t *engine.T) int64 {
	switch t.Weighted(6, 3, 1) {
	case 0:
		return int64(t.Int(0, 12)) - 2
	case 1:
		return engine.Pick(t, interestingInts...)
	}
	return int64(t.Bits() >> uint(t.Int(0, 63)))
}

var interestingFloats = []float64{0, 1, 0.5, 2.5, -1.5, 0.1, 0.25, 3, 100, 1e6, 123456.789, 1e21, 1e-7, -0.75, math.MaxInt64, 1.0 / 3, math.MaxFloat64,
	math.SmallestNonzeroFloat64, math.Copysign(0, -1)}

func genFloat(t *engine.T) float64 {
	switch t.Weighted(6, 3, 1) {
	case 0:
		return float64(t.Int(0, 40)-8) / 4
	case 1:
		return engine.Pick(t, interestingFloats...)
	}
	f := math.Float64frombits(t.Bits())
	if math.IsNaN(f) {
		return 0.125
	}
	return f
}

var stringPieces = []string{"a", "b", "Z", "0", "7", " ", "-", "_", "é", "日", "<", ">", "&", "'", "\"", "(", ")", "[", "]", "{", "}", ".", ",", ";", "!", "|",
	"=", "$", "#", "$x", "#end", "##", "\n", "\t", "\\", "/", "%d", "<b>", "&amp;", "\x00", "\xff", "😀", "@", "*", "+", "?", ":", "~", "`", "^"}

func genString(t *engine.T) string {
	if t.Chance(1, 30) {
		n := t.Int(1, 300)
		if n > 290 {
			n = size(t, 8, 13)
		}
		if t.Bool() {
			return sparseString(t, n)
		}
		return strings.Repeat(engine.Pick(t, stringPieces...), n)
	}
	var b strings.Builder
	for n := 0; t.More(n, 12, 2); n++ {
		b.WriteString(engine.Pick(t, stringPieces...))
	}
	return b.String()
}

// sparseString makes a string of n bytes that are all the same, but for a few pieces.
func sparseString(t *engine.T, n int) string {
	s := strings.Repeat(engine.Pick(t, "a", " ", "0"), n)
	for k := 0; k == 0 || t.More(k, 3, 1); k++ {
		at := t.Int(0, len(s))
		s = s[:at] + engine.Pick(t, stringPieces...) + s[at:]
	}
	return s
}

// genLiteralString makes a string that can stand between quotes in a template and isn't just a reference.
func genLiteralString(t *engine.T) string {
	s := strings.NewReplacer("\"", "'", "\\", "/").Replace(genString(t))
	if strings.HasPrefix(s, "$") {
		if t.Bool() {
			return s + engine.Pick(t, " ", "-", "%", " $x") // not just a reference either
		}
		s = " " + s
	}
	return s
}

var mapKeys = []string{"k", "key", "a b", "x", "", "K", "é"}

func genValue(t *engine.T, rType reflect.Type, depth int) reflect.Value {
	v := reflect.New(rType).Elem()
	switch rType.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(t))
		if v.OverflowInt(genInt0(v)) {
			panic("unreachable")
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(genInt(t)))
	case reflect.Float64:
		v.SetFloat(genFloat(t))
	case reflect.Float32:
		v.SetFloat(float64(t.Int(0, 80)-20) / 8)
	case reflect.String:
		v.SetString(genString(t))
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Ptr:
		if depth > 0 && !t.Chance(1, 4) {
			p := reflect.New(rType.Elem())
			p.Elem().Set(genValue(t, rType.Elem(), depth-1))
			v.Set(p)
		}
	case reflect.Slice:
		if depth > 0 && !t.Chance(1, 8) {
			n := t.Weighted(1, 3, 3, 3)
			if t.Chance(1, 150) {
				n = t.Int(4, 70)
			}
			s := reflect.MakeSlice(rType, n, n+engine.Pick(t, 0, 0, 1, n))
			for i := 0; i < n; i++ {
				s.Index(i).Set(genValue(t, rType.Elem(), depth-1))
			}
			v.Set(fillSpare(t, s))
		}
	case reflect.Map:
		if depth > 0 && !t.Chance(1, 6) {
			m := reflect.MakeMap(rType)
			n := t.Int(0, 3)
			if t.Chance(1, 150) {
				n = t.Int(4, 40)
			}
			for ; n > 0; n-- {
				m.SetMapIndex(genMapKey(t, rType.Key()), genValue(t, rType.Elem(), depth-1))
			}
			v.Set(m)
		}
	case reflect.Struct:
		if rType == tTime {
			v.Set(reflect.ValueOf(time.Unix(int64(t.Int(0, 2000000000)), 0).UTC()))
			return v
		}
		// most fields of a big struct stay zero in most cases, so that cases stay small
		for i := 0; i < rType.NumField(); i++ {
			if rType.Field(i).PkgPath != "" {
				continue
			}
			if rType.NumField() > 8 && t.Chance(1, 2) {
				continue
			}
			d := depth - 1
			if rType.Field(i).Anonymous {
				d = depth
			}
			v.Field(i).Set(genValue(t, rType.Field(i).Type, d))
		}
	case reflect.Array:
		for i := 0; i < rType.Len(); i++ {
			v.Index(i).Set(genValue(t, rType.Elem(), depth-1))
		}
	case reflect.Interface:
		if rType.NumMethod() == 0 && depth > 0 && !t.Chance(1, 6) {
			v.Set(genValue(t, engine.Pick(t, tString, tInt, tBool, tFloat, reflect.TypeOf(int8(0)), reflect.TypeOf([]int{}),
				reflect.TypeOf(map[string]int{}), tSmall, tTime), depth-1))
		}
	}
	return v
}

func genInt0(v reflect.Value) int64 { return v.Int() }

func genMapKey(t *engine.T, rType reflect.Type) reflect.Value {
	v := reflect.New(rType).Elem()
	switch rType.Kind() {
	case reflect.String:
		v.SetString(engine.Pick(t, mapKeys...))
	case reflect.Interface:
		v.Set(engine.Pick(t, reflect.ValueOf(1), reflect.ValueOf("k"), reflect.ValueOf(true)))
	case reflect.Bool:
		v.SetBool(t.Bool())
	case reflect.Float64:
		v.SetFloat(float64(t.Int(0, 4)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(t.Int(0, 3)))
	default:
		v.SetInt(int64(t.Int(0, 4) - 1))
	}
	return v
}

// spareOf returns the elements of a slice of basic values between its length and its capacity.
func spareOf(v reflect.Value) reflect.Value {
	if v.Kind() != reflect.Slice || v.Len() == v.Cap() || !isBasic(v.Type().Elem()) {
		return reflect.Value{}
	}
	return v.Slice(v.Len(), v.Cap())
}

// fillSpare gives values to the elements of the slice behind its end: nobody may touch them.
func fillSpare(t *engine.T, v reflect.Value) reflect.Value {
	if spare := spareOf(v); spare.IsValid() {
		for i := 0; i < spare.Len(); i++ {
			spare.Index(i).Set(genValue(t, v.Type().Elem(), 1))
		}
	}
	return v
}

// cloner copies values deeply, keeping which pointers, maps and slices are shared.
type cloner struct{ seen map[cloneKey]reflect.Value }

type cloneKey struct {
	t   reflect.Type
	ptr uintptr
	n   int
}

func newCloner() *cloner { return &cloner{map[cloneKey]reflect.Value{}} }

func (c *cloner) clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		k := cloneKey{v.Type(), v.Pointer(), 0}
		if p, ok := c.seen[k]; ok {
			return p
		}
		p := reflect.New(v.Type().Elem())
		c.seen[k] = p
		p.Elem().Set(c.clone(v.Elem()))
		return p
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		k := cloneKey{v.Type(), v.Pointer(), v.Len()}
		if s, ok := c.seen[k]; ok && v.Len() > 0 {
			return s
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
		c.seen[k] = s
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(c.clone(v.Index(i)))
		}
		if spare := spareOf(v); spare.IsValid() {
			reflect.Copy(spareOf(s), spare)
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		k := cloneKey{v.Type(), v.Pointer(), 0}
		if m, ok := c.seen[k]; ok {
			return m
		}
		m := reflect.MakeMap(v.Type())
		c.seen[k] = m
		for _, key := range v.MapKeys() {
			m.SetMapIndex(key, c.clone(v.MapIndex(key)))
		}
		return m
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(c.clone(v.Elem()))
		}
		return out
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				out.Field(i).Set(c.clone(v.Field(i)))
			}
		}
		return out
	}
	out.Set(v)
	return out
}

// dump shows a value in full, following pointers; two values are taken to be equal if their dumps are.
func dump(v reflect.Value) string {
	var b strings.Builder
	dumpTo(&b, v, 0)
	return b.String()
}

func dumpTo(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("<invalid>")
		return
	}
	if depth > 40 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "(%v)", v.Elem().Type())
		dumpTo(b, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == tTime && v.CanInterface() {
			fmt.Fprintf(b, "%v", v.Interface())
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			dumpTo(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpTo(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
		if spare := spareOf(v); spare.IsValid() {
			for i := 0; i < spare.Len(); i++ {
				if !spare.Index(i).IsZero() {
					fmt.Fprintf(b, " and unused %v", spare)
					break
				}
			}
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var items []string
		for _, k := range v.MapKeys() {
			items = append(items, dump(k)+":"+dump(v.MapIndex(k)))
		}
		sort.Strings(items)
		fmt.Fprintf(b, "map[%s]", strings.Join(items, " "))
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(b, "%v@%x", v.Kind(), v.Pointer())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// ---- how values are rendered ----

func escapeIf(escape bool, s string) string {
	if escape {
		return html.EscapeString(s)
	}
	return s
}

func renderModel(v reflect.Value, escape bool) string {
	switch v.Kind() {
	case reflect.Int:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.String:
		return escapeIf(escape, v.String())
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'f', -1, 64)
	case reflect.Interface:
		return renderIface(v.Interface(), escape)
	}
	data, _ := json.Marshal(v.Interface())
	return escapeIf(escape, string(data))
}

func renderIface(i interface{}, escape bool) string {
	switch actual := i.(type) {
	case string:
		return escapeIf(escape, actual)
	case int:
		return strconv.Itoa(actual)
	case float64:
		return strconv.FormatFloat(actual, 'f', -1, 64)
	case bool:
		return strconv.FormatBool(actual)
	case time.Time:
		return escapeIf(escape, actual.Format(time.RFC3339))
	case *time.Time:
		if actual == nil {
			return escapeIf(escape, "<nil>")
		}
		return escapeIf(escape, actual.Format(time.RFC3339))
	}
	return escapeIf(escape, fmt.Sprintf("%v", i))
}

func fieldAt(mem unsafe.Pointer, t reflect.Type, offset uintptr) reflect.Value {
	return reflect.NewAt(t, unsafe.Pointer(uintptr(mem)+offset)).Elem()
}
