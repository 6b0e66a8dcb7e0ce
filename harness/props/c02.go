package props

import (
	"math"
	"regexp"
	"strings"

	"github.com/viant/velty"
	"github.com/viant/velty/est"
	"github.com/viant/velty/parser"
	"velty.verif/harness/engine"
)

var soupTokens = []string{"#if(", "#if (", "#elseif(", "#else", "#{else}", "#end", "#{end}", "#set(", "#foreach(", "#for(", "#evaluate(", ")", "(", "[", "]", "{", "}", "${", "$!{", "$!", "$",
	"$a", "$b", "$ab", "$x", "$x1", "$item", "${a}", "${x.I}", "$undef", "$undef.x", "$strings.ToUpper(", "$math.Max(", "$slices.", "$addi(", "$inc(1)", ".I", ".S", ".Is", ".Ss[0]", ".M[\"k\"]", ".Base", ".Code", "[0]", "[1]",
	"[$ix]", "[\"k\"]", " in ", " in", "in", "$v in [0...3]", "[1...", "[0...4294967296]", "[-9223372036854775808...9223372036854775807]", "...", "..", "1", "0", "-1", "2.5", "1.", ".5", "1e5", "99999999999999999999", "\"", "\"s\"", "\"$a\"", "\"${x.I}\"", "'", "`", "true", "false", "null",
	"==", "!=", "<", "<=", ">", ">=", "=", "+", "-", "*", "/", "&&", "||", "!", "++", "--", "+=", "-=", "*=", "/=", ";", ",", ",,", ";;", " ", "  ", "\n", "\t", "\\", "\\\"", "##", "## c\n", "#[[", "]]#", "#", "##\n",
	"text", "é", "\x00", "\xff", "_", "a", "in $x.Is", "$i = 0; $i < 3; $i++", "$item in $x.Is, $ix", "set", "end", "if", "#include(\"x\")", ".Len()", ".HasKey(\"k\")", ".IndexBy(\"I\")", "$a.b.c.d", "%", "@"}

// soup draws templates without any structure in mind.
func soup(t *engine.T) string {
	var b strings.Builder
	if t.Chance(1, 40) { // deep or long
		rep := engine.Pick(t, "(", "((", "[", "{", "!", "#if(true)", "#foreach($q in [0...2])", "$a[", "$a.", "${", "1+", "$inc(", "(1+", "\"", "#if($a == ", "#set($a = ", "-", "#else", "#end", "$a.b", "$x.Is[$x.I", "#evaluate(")
		n := t.Int(1, 120)
		b.WriteString(strings.Repeat(rep, n))
		if t.Bool() {
			b.WriteString(engine.Pick(t, "1", "$a", "x", "true"))
			b.WriteString(strings.Repeat(engine.Pick(t, ")", "))", "]", "}", "#end", ")#end", "+1)", "\""), n))
		}
		if t.Bool() {
			b.WriteString(engine.Pick(t, ")", "#end", ")x#end"))
		}
		return b.String()
	}
	for n := 0; n == 0 || t.More(n, 40, 8); n++ {
		if t.Chance(1, 30) {
			b.WriteByte(byte(t.Uint(256)))
			continue
		}
		b.WriteString(engine.Pick(t, soupTokens...))
	}
	return b.String()
}

// mutate changes a few bytes or tokens.
func mutate(t *engine.T, s string) string {
	b := []byte(s)
	for n := t.Int(1, 4); n > 0; n-- {
		at := int(t.Uint(uint64(len(b) + 1)))
		switch t.Weighted(4, 4, 3, 2, 2) {
		case 0: // delete a stretch
			end := at + t.Small(12) + 1
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:at:at], b[end:]...)
		case 1: // insert a token
			b = append(b[:at:at], append([]byte(engine.Pick(t, soupTokens...)), b[at:]...)...)
		case 2: // change a byte
			if at < len(b) {
				b[at] = engine.Pick(t, "()[]{}$#\"',.;!=<>+-*/&| \nae0\\"[t.Uint(29)], byte(t.Uint(256)))
			}
		case 3: // duplicate a stretch
			end := at + t.Small(20) + 1
			if end > len(b) {
				end = len(b)
			}
			b = append(b[:end:end], b[at:]...)
		case 4: // cut off
			b = b[:at]
		}
	}
	return string(b)
}

var addresses = regexp.MustCompile("0x[0-9a-f]+")

type compiled struct {
	err  string
	ok   bool
	exec *est.Execution
}

func compileAny(t *engine.T, p *velty.Planner, tmpl string) compiled {
	var c compiled
	var err error
	var newState func() *est.State
	input := []byte(tmpl)
	if r, stack := engine.Protect(func() { c.exec, newState, err = p.Compile(input) }); r != nil {
		t.Fail("Compile panicked: %v\n%s", r, clipStack(stack))
	}
	if string(input) != tmpl {
		t.Fail("Compile changed its input to %q", input)
	}
	if err != nil {
		c.err = addresses.ReplaceAllString(err.Error(), "0x")
		return c
	}
	if c.exec == nil || newState == nil {
		t.Fail("Compile returned neither a plan nor an error")
	}
	c.ok = true
	if r, stack := engine.Protect(func() { newState() }); r != nil {
		t.Fail("creating a state panicked: %v\n%s", r, clipStack(stack))
	}
	return c
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C02",
		Rule: "token soup, mutated valid programs and deep repetitions compiled twice against random variables (no panic, no hang, same outcome, also for the parser alone); " +
			"random well-formed programs that have to be accepted, and the same with an #end removed, or an #end, #else or #elseif added where nothing is open, that have to be rejected; walks of openings and closings of up to 1000 blocks, accepted only if they end at none; " +
			"non-trivial: a template with at least one '$' or '#' construct",
		Quick: 100000, Thorough: 5000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls = true
			g.world(4)
			st := &style{t}
			if t.Chance(1, 40) {
				blockWalk(t)
				return
			}
			switch t.Weighted(4, 3, 4) {
			case 0:
				tmpl := soup(t)
				t.Class("soup")
				anyTemplate(t, g.w, tmpl)
			case 1:
				body := g.stmts(3)
				tmpl := mutate(t, printBody(st, body))
				t.Class("mutated program")
				anyTemplate(t, g.w, tmpl)
			case 2:
				balance(t, g, st)
			}
		},
	})
}

func anyTemplate(t *engine.T, w *World, tmpl string) {
	noteWorld(t, w, tmpl)
	var perr [2]error
	for i := range perr {
		if r, stack := engine.Protect(func() { _, perr[i] = parser.Parse([]byte(tmpl)) }); r != nil {
			t.Fail("Parse panicked: %v\n%s", r, clipStack(stack))
		}
	}
	if (perr[0] == nil) != (perr[1] == nil) {
		t.Fail("Parse returned %v, then %v", perr[0], perr[1])
	}
	p := w.planner(t)
	first := compileAny(t, p, tmpl)
	second := compileAny(t, w.planner(t), tmpl)
	if first.ok != second.ok || first.err != second.err {
		t.Fail("compiling twice gave %q, then %q", first.err, second.err)
	}
	if perr[0] != nil && first.ok {
		t.Fail("the parser rejects (%v) what Compile accepts", perr[0])
	}
	if first.ok {
		t.Class("accepted")
	} else {
		t.Class("rejected")
	}
	if strings.ContainsAny(tmpl, "$#") {
		t.NonTrivial(tmpl)
	}
}

// blockWalk opens and closes many blocks.
func blockWalk(t *engine.T) {
	openers := []string{"#if(true)", "#if(1 == 2)", "#foreach($i in [0...1])", "#for($j = 0; $j < 1; $j++)"}
	var b strings.Builder
	var open []bool // which blocks may have an #else
	bad := ""
	depth := 0
	put := func(what int) {
		switch what {
		case 0:
			k := t.Uint(uint64(len(openers)))
			b.WriteString(openers[k])
			open = append(open, k < 2)
			if len(open) > depth {
				depth = len(open)
			}
		case 1:
			if len(open) == 0 {
				bad = "there is an #end too many"
			} else {
				open = open[:len(open)-1]
			}
			b.WriteString(engine.Pick(t, "#end", "#end", "#{end}"))
		case 2:
			if len(open) == 0 || !open[len(open)-1] {
				return
			}
			open[len(open)-1] = false
			b.WriteString(engine.Pick(t, "#else", "#{else}"))
		default:
			b.WriteString(engine.Pick(t, "x", " ", "\n", "$i", "end", "a#b", "$"))
			b.WriteString(" ")
		}
	}
	top := size(t, 0, 10)
	if top > 70 { // each of the other ones adds to the type of the states, and types stay in memory
		openers = []string{"#if(true)", "#if(false)", "#foreach($i in [0...1])"}
	}
	for n := 0; n < top; n++ { // down
		put(0)
		for t.Chance(1, 3) {
			put(t.Weighted(1, 2, 1, 4))
			if bad != "" {
				break
			}
		}
		if bad != "" {
			break
		}
	}
	if bad == "" { // and up
		left := 0
		switch t.Weighted(3, 1, 1) {
		case 1:
			left = t.Int(1, 3)
		case 2:
			left = 1 << uint(t.Int(0, 10))
		}
		for len(open) > left {
			put(t.Weighted(1, 12, 3, 4))
		}
		if t.Chance(1, 5) {
			for n := 1 << uint(t.Int(0, 9)); n > 0 && len(open) <= left; n-- {
				put(1)
			}
		}
	}
	if len(open) > 0 && bad == "" {
		bad = "blocks are left open"
	}
	tmpl := b.String()
	t.Note("%d deep, %d open at the end, %s\n%q", depth, len(open), bad, tmpl)
	t.Class("walk: " + bad)
	if depth > 100 {
		t.Class("walk: deep")
	}
	t.NonTrivial(tmpl)
	if _, err := parser.Parse([]byte(tmpl)); (err == nil) != (bad == "") {
		t.Fail("%s, Parse returned %v", bad, err)
	}
	if c := compileAny(t, velty.New(), tmpl); c.ok != (bad == "") {
		t.Fail("%s, Compile returned %v", bad, c.err)
	}
}

// blocks lists all statement lists of a program that are the body of something, and whether an #else may stand there.
type blockRef struct {
	body   *[]Stmt
	inIf   bool
	closed *bool // set to leave out the #end
}

func collect(body *[]Stmt, inIf bool, out *[]blockRef) {
	*out = append(*out, blockRef{body: body, inIf: inIf})
	for _, s := range *body {
		switch s := s.(type) {
		case *If:
			for i := range s.branches {
				collect(&s.branches[i].body, true, out)
			}
			if s.hasElse {
				collect(&s.els, true, out)
			}
		case *Foreach:
			collect(&s.body, false, out)
		case *For:
			collect(&s.body, false, out)
		}
	}
}

func containers(body []Stmt, out *[]Stmt) {
	for _, s := range body {
		switch s := s.(type) {
		case *If:
			*out = append(*out, s)
			for i := range s.branches {
				containers(s.branches[i].body, out)
			}
			containers(s.els, out)
		case *Foreach:
			*out = append(*out, s)
			containers(s.body, out)
		case *For:
			*out = append(*out, s)
			containers(s.body, out)
		}
	}
}

// Stray is a directive word that belongs to nothing.
type Stray struct{ word string }

func (s *Stray) exec(*env) {}
func (s *Stray) print(p *printer) {
	if strings.HasPrefix(s.word, "#elseif") {
		p.text(s.word)
		return
	}
	p.bare(strings.TrimPrefix(s.word, "#"))
}

// Open is a block without its #end.
type Open struct{ s Stmt }

func (s *Open) exec(*env) {}
func (s *Open) print(p *printer) {
	s.s.print(p)
	p.chunks = p.chunks[:len(p.chunks)-1]
	p.text(" ")
}

func balance(t *engine.T, g *gen, st *style) {
	g.budget = 20
	body := g.stmts(4)
	if t.Chance(1, 8) { // ranges that can't be held in memory
		bound := func() int {
			return engine.Pick(t, 0, 1, 1<<31, 1<<32, 1<<40, 1<<62, math.MaxInt64, math.MinInt64, -1<<33, t.Int(0, 1<<50))
		}
		body = append(body, &Foreach{item: g.freshName(), a: bound(), b: bound(), body: g.stmts(1)})
		t.Class("wide range")
	}
	valid := printBody(st, body)
	noteWorld(t, g.w, valid)
	if c := compileAny(t, g.w.planner(t), valid); !c.ok {
		t.Fail("a well-formed template is rejected: %v", c.err)
	}
	t.Class("well-formed")
	t.NonTrivial(valid)

	what := ""
	switch t.Weighted(2, 2, 3) {
	case 0:
		var cs []Stmt
		containers(body, &cs)
		if len(cs) == 0 {
			return
		}
		victim := cs[t.Uint(uint64(len(cs)))]
		var blocks []blockRef
		collect(&body, false, &blocks)
		for _, b := range blocks {
			for i, s := range *b.body {
				if s == victim {
					(*b.body)[i] = &Open{s}
				}
			}
		}
		what = "a block is left open"
	case 1:
		at := int(t.Uint(uint64(len(body) + 1)))
		body = append(body[:at:at], append([]Stmt{&Stray{"#end"}}, body[at:]...)...)
		what = "there is an #end too many"
	case 2:
		var blocks, ok []blockRef
		collect(&body, false, &blocks)
		for _, b := range blocks {
			if !b.inIf {
				ok = append(ok, b)
			}
		}
		b := ok[t.Uint(uint64(len(ok)))]
		word := engine.Pick(t, "#else", "#elseif(true)", "#elseif(1 == 1)")
		at := int(t.Uint(uint64(len(*b.body) + 1)))
		old := *b.body
		*b.body = append(old[:at:at], append([]Stmt{&Stray{word}}, old[at:]...)...)
		what = word + " stands outside of any #if"
	}
	broken := printBody(st, body)
	t.Note("broken template: %q", broken)
	t.Class(what)
	if _, err := parser.Parse([]byte(broken)); err == nil {
		t.Fail("%s, but the parser accepts the template", what)
	}
	if c := compileAny(t, g.w.planner(t), broken); c.ok {
		t.Fail("%s, but Compile accepts the template", what)
	}
}
