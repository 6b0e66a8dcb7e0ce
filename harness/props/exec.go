package props

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"velty.verif/harness/engine"
)

// Var is a variable defined on the planner before compiling.
type Var struct {
	name  string
	rType reflect.Type
	value reflect.Value
	unset bool     // the state is left with the zero value
	embed bool     // its fields are the variables
	also  []string // more names
}

// World is the set of defined variables and the planner options.
type World struct {
	vars    []*Var
	escape  bool
	bufSize int
	cache   int
	setup   func(p *velty.Planner) // registers functions
	stop    bool                   // PanicOnError
	parser  velty.TypeParser
	fuel    int // of the model: loop iterations
}

func (w *World) options() []velty.Option {
	var opts []velty.Option
	if w.escape {
		opts = append(opts, velty.EscapeHTML(true))
	}
	if w.bufSize >= 0 {
		opts = append(opts, velty.BufferSize(w.bufSize))
	}
	if w.cache > 0 {
		opts = append(opts, velty.CacheSize(w.cache))
	}
	if w.stop {
		opts = append(opts, velty.PanicOnError(true))
	}
	if w.parser != nil {
		opts = append(opts, w.parser)
	}
	return opts
}

// definition returns what a variable of the type is defined with: the type, or a value of it.
// It depends on the name and the number only, planners are also made concurrently.
func definition(name string, n int, rt reflect.Type, value reflect.Value) interface{} {
	h := fnv.New32a()
	fmt.Fprint(h, name, n, rt)
	kind := h.Sum32() >> 5 % 6
	if kind > 1 {
		return rt
	}
	if !value.IsValid() || kind == 0 {
		value = reflect.Zero(rt)
	}
	if rt.Kind() == reflect.Interface { // its value has another type
		return rt
	}
	v := value.Interface()
	if _, ok := v.(reflect.Type); ok {
		return rt
	}
	return v
}

func (w *World) planner(t *engine.T) *velty.Planner {
	p := velty.New(w.options()...)
	for _, v := range w.vars {
		if v.embed {
			if err := p.EmbedVariable(definition(v.name, len(w.vars), v.rType, v.value)); err != nil {
				t.Fail("EmbedVariable(%v): %v", v.rType, err)
			}
			continue
		}
		if err := p.DefineVariable(v.name, definition(v.name, len(w.vars), v.rType, v.value), v.also...); err != nil {
			t.Fail("DefineVariable(%q, %v): %v", v.name, v.rType, err)
		}
	}
	if w.setup != nil {
		w.setup(p)
	}
	return p
}

func setVars(t *engine.T, st *est.State, vars []*Var, c *cloner) {
	for _, v := range vars {
		if v.unset {
			continue
		}
		if v.embed {
			if err := st.EmbedValue(c.clone(v.value).Interface()); err != nil {
				t.Fail("EmbedValue(%v): %v", v.rType, err)
			}
			continue
		}
		if err := st.SetValue(v.name, c.clone(v.value).Interface()); err != nil {
			t.Fail("SetValue(%q, %v): %v", v.name, v.rType, err)
		}
	}
}

// modelEnv is the environment holding copies of the variables.
func modelEnv(w *World, body []Stmt) *env {
	e := newEnv()
	e.escape = w.escape
	e.stopOnError = w.stop
	e.fuel += w.fuel
	c := newCloner()
	for _, v := range w.vars {
		s := reflect.New(v.rType).Elem()
		if !v.unset {
			s.Set(c.clone(v.value))
		}
		e.define(v, s)
	}
	declareAll(e, body)
	return e
}

type outcome struct {
	out       string
	panicked  bool
	stopped   bool
	panicWhy  string
	discarded string
}

// runModel executes the program in the reference interpreter.
func runModel(e *env, body []Stmt) (o outcome) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case modelPanic:
			o.panicked, o.panicWhy = true, r.why
		case stopped:
			o.stopped = true
		case discard:
			o.discarded = r.why
		default:
			panic(r)
		}
		o.out = e.out.String()
	}()
	run(body, e)
	return o
}

func stateVar(st *est.State, name string) (reflect.Value, bool) {
	f, ok := st.StateType.ValueAccessor(name)
	if !ok {
		return reflect.Value{}, false
	}
	return reflect.NewAt(f.Type, f.Pointer(st.MemPtr)).Elem(), true
}

func show(w *World) string {
	var b strings.Builder
	for _, v := range w.vars {
		val := "unset"
		if !v.unset {
			val = dump(v.value)
		}
		fmt.Fprintf(&b, "  %s %v = %s\n", v.name, v.rType, val)
	}
	return b.String()
}

func noteWorld(t *engine.T, w *World, tmpl string) {
	t.Note("template: %q", tmpl)
	t.Note("escapeHTML=%v bufferSize=%d cacheSize=%d panicOnError=%v", w.escape, w.bufSize, w.cache, w.stop)
	t.Note("variables:\n%s", show(w))
}

// compileOK compiles a template that has to be accepted.
func compileOK(t *engine.T, p *velty.Planner, tmpl string) (*est.Execution, func() *est.State) {
	var exec *est.Execution
	var newState func() *est.State
	var err error
	text := []byte(tmpl)
	if r, stack := engine.Protect(func() { exec, newState, err = p.Compile(text) }); r != nil {
		t.Fail("Compile panicked: %v\n%s", r, clipStack(stack))
	}
	if err != nil {
		t.Fail("Compile rejected a valid template: %v", err)
	}
	if string(text) != tmpl {
		t.Fail("Compile changed the template to %q", text)
	}
	for i := range text { // the caller may use the slice for something else
		text[i] = '!'
	}
	return exec, newState
}

func clipStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// check runs the program with velty and compares output and data with the model. It returns the model outcome.
func check(t *engine.T, w *World, body []Stmt, tmpl string) outcome {
	noteWorld(t, w, tmpl)
	e := modelEnv(w, body)
	want := runModel(e, body)
	if want.discarded != "" {
		t.Class("discarded: " + want.discarded)
		return want
	}
	p := w.planner(t)
	exec, newState := compileOK(t, p, tmpl)
	st := newState()
	setVars(t, st, w.vars, newCloner())
	checkRun(t, w, e, want, st, exec)
	return want
}

func checkRun(t *engine.T, w *World, e *env, want outcome, st *est.State, exec *est.Execution) {
	var err error
	r, stack := engine.Protect(func() { err = exec.Exec(st) })
	switch {
	case want.panicked:
		t.Class("panic: " + want.panicWhy)
		if r == nil {
			t.Fail("the execution has to panic (%s), but it rendered %q", want.panicWhy, st.Buffer.String())
		}
		if got := st.Buffer.String(); got != want.out {
			t.Fail("rendered %q before the panic\n    want %q", got, want.out)
		}
		compareState(t, e, st)
		return
	case r != nil:
		t.Fail("Exec panicked: %v, want %q\n%s", r, want.out, clipStack(stack))
	case err != nil && len(e.errs) == 0:
		t.Fail("Exec returned error %v, want output %q", err, want.out)
	}
	if got := st.Buffer.String(); got != want.out {
		t.Fail("rendered %q\n    want %q", got, want.out)
	}
	compareState(t, e, st)
}

func compareState(t *engine.T, e *env, st *est.State) {
	for name, v := range e.vars {
		if e.also[name] {
			continue // has no value of its own
		}
		got, ok := stateVar(st, name)
		if !ok {
			t.Fail("the state has no variable %q after the execution", name)
		}
		if g, want := dump(got), dump(v); g != want {
			t.Fail("after the execution variable %q holds %s\n    want %s", name, g, want)
		}
	}
}
