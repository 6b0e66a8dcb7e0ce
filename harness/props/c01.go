package props

import (
	"strings"

	"velty.verif/harness/engine"
)

// Undef is a reference to a variable that isn't defined.
type Undef struct{ s, after string }

func (s *Undef) exec(e *env) {
	e.out.WriteString(s.s + s.after) // a text of the template, not a value
}

func (s *Undef) print(p *printer) { p.text(s.s + s.after) }

// pieces that contain '$' and '#' without introducing anything; each may be followed by any other text.
var inertPieces = []string{"$ ", "$1", "$-", "$.", "$,", "$\n", "$\"", "$'", "$(", "$)", "$[", "$]", "$}", "$=", "$<", "$é", "$\x00", "$\xff", "$! ", "$!1", "$!-", "$!(",
	"$_", "$!_x", "$$ ", "$$$1", "${}", "${1}", "${ x}", "${-}", "$!{}", "$!{ }", "${a b}", "$!{1x}", "${$}", "${#}", "#x", "#1", "#-", "#.", "#(", "#)", "#[x", "#[ [", "#]", "#'",
	"#\"", "#é", "#\x00", "#,", "#=", "# x", "#\nx", "#$ ", "#{}", "#{x}", "#{ }", "#{1}", "#{if}", "#{set}", "#unknown(1)", "#include", "#_", "#if x", "#if,", "#set x", "#set =", "#for you",
	"#foreach.", "#evaluate ,", "#elephant", "#Else", "#END", "#If(true)", "#i", "#e", "#en", "#els", "#fo", "#se", "#ev", "$#-", "#!", "#@", "1#2", "a$", "100%"}

var undefNames = []string{"undef", "missing_1", "Nope", "x9y", "undef.name", "undef.Name.x", "undef[0]", "undef[12].Foo", "nope.a.b.c",
	"undef(\"<b>\")", "undef.Do(\"a&b\", 1)", "nope[\"k\"]", "nope[\"'<'\"].Foo", "undef(1, 2.5, true)", "undef.a(1 < 2).b", "missing_1(\"x\" + \"y\" != \"<\")", "nope.a(\"(\", \")\")", "nope()"}

// inert draws text of any bytes in which '$' and '#' introduce nothing.
func inert(t *engine.T) string {
	var b strings.Builder
	for n := 0; n == 0 || t.More(n, 12, 3); n++ {
		switch t.Weighted(4, 5, 3, 1) {
		case 0:
			b.WriteString(engine.Pick(t, plainText...))
		case 1:
			b.WriteString(engine.Pick(t, inertPieces...))
		case 2:
			for k := t.Int(1, 6); k > 0; k-- {
				c := byte(t.Uint(256))
				if c == '$' || c == '#' {
					c = '%'
				}
				b.WriteByte(c)
			}
		case 3:
			b.WriteString(strings.Repeat(engine.Pick(t, "x", " ", "\n", "<p>", "é", "line of text\n", "}"), t.Int(1, 400)))
		}
	}
	return settle(b.String())
}

// settle keeps neighbours of '$' and '#' harmless where pieces met.
func settle(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if s[i] != '$' && s[i] != '#' {
			continue
		}
		rest := s[i+1:]
		switch {
		case rest == "":
			b.WriteByte('%') // what follows is not known here
		case s[i] == '$':
			r := strings.TrimPrefix(rest, "!")
			if r == "" || isLetterByte(r[0]) {
				b.WriteByte('%')
			} else if r[0] == '{' {
				end := strings.IndexByte(r, '}')
				if end < 0 || inertBlock(r[1:end]) == false {
					b.WriteByte('%')
				}
			}
		default:
			if rest[0] == '#' || strings.HasPrefix(rest, "[[") {
				b.WriteByte('%')
				break
			}
			if rest[0] == '{' {
				end := strings.IndexByte(rest, '}')
				if end < 0 || !inertHash(rest[1:end]+"}") || strings.ContainsAny(rest[1:end], "'\"`\\{$#") {
					b.WriteByte('%')
				}
				break
			}
			if !inertHash(rest) {
				b.WriteByte('%')
			}
		}
	}
	out := b.String()
	if i := strings.LastIndexAny(out, "#$"); i >= 0 && strings.Trim(out[i+1:], "abcdefghijklmnopqrstuvwxyz! \t\r\n\v\f\x85\x40") == "" {
		out += "%"
	}
	return out
}

func inertBlock(s string) bool {
	if strings.ContainsAny(s, "'\"`\\{") {
		return false
	}
	if s == "" || !isLetterByte(s[0]) {
		return s == "" || s[0] != '!'
	}
	return s == "a b"
}

// inertHash says whether the text behind '#' certainly is no directive.
func inertHash(rest string) bool {
	r := strings.TrimLeft(rest, " \t\r\n\v\f\x85\x40")
	for _, word := range []string{"if", "set", "foreach", "for", "evaluate"} {
		if strings.HasPrefix(r, word) {
			after := strings.TrimLeft(r[len(word):], " \t\r\n\v\f\x85\x40")
			if after == "" || after[0] == '(' || word == "for" && strings.HasPrefix(after, "each") {
				return false
			}
		}
	}
	if r == "" || strings.HasPrefix(r, "else") || strings.HasPrefix(r, "end") {
		return false
	}
	return !strings.HasPrefix(r, "{")
}

func isLetterByte(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func (g *gen) literalText() Stmt {
	if g.t.Chance(1, 6) {
		g.feature("undefined reference")
		name := engine.Pick(g.t, undefNames...)
		switch g.t.Uint(3) {
		case 0:
			name = "$" + name
		case 1:
			name = "${" + name + "}"
		case 2:
			name = "$!" + name
		}
		return &Undef{name, engine.Pick(g.t, " ", ", ", ". ", "-", "<br>", "\n", "/", ")", "|", "&", "\"", "'", "%", ";", "é")}
	}
	g.feature("text")
	return &Text{inert(g.t)}
}

func init() {
	engine.Register(&engine.Prop{
		ID: "C01",
		Rule: "random programs dominated by literal text (any bytes, '$' and '#' that introduce nothing, undefined references, raw blocks, '##' comments) inside and around directives, " +
			"rendered and compared byte for byte with the text the reference interpreter copies; non-trivial: text with '$' or '#' or a raw block or comment, or next to a directive or reference",
		Quick: 120000, Thorough: 5000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.textFn = g.literalText
			g.textW = 24
			g.noSet = t.Bool()
			switch t.Weighted(3, 1) {
			case 0:
				g.world(3)
			case 1: // nothing defined
				g.w.escape = t.Chance(1, 4)
				g.w.bufSize = engine.Pick(t, -1, 0, 1, 3, 100)
			}
			var body []Stmt
			if len(g.vars) > 0 {
				body = g.stmts(3)
			} else {
				for n := 0; n == 0 || t.More(n, 10, 2); n++ {
					switch t.Weighted(5, 1, 1) {
					case 0:
						body = append(body, g.literalText())
					case 1:
						body = append(body, &Raw{rawText(t)})
						g.feature("raw")
					case 2:
						body = append(body, &Comment{commentText(t)})
						g.feature("comment")
					}
				}
			}
			tmpl := printBody(&style{t}, body)
			// a template may end right after '$', '#', a comment or an undefined reference
			if last, ok := lastText(body); ok && last != "" && t.Chance(1, 6) {
				tail := engine.Pick(t, "$", "#", "$!", "#-", "##", "## comment without a newline", "$undef", "#[[", "#[[ open", "${", "#{", "${x", "$undef.", "$undef.5", "#set(", "$$", "# ", "#if", "#foreach")
				want := tail
				if strings.HasPrefix(tail, "##") {
					want = ""
				}
				tmpl += tail
				body = append(body, &Text{want})
				g.feature("tail")
			}
			o := check(t, g.w, body, tmpl)
			g.classes()
			if o.discarded == "" && (strings.ContainsAny(tmpl, "$#")) {
				t.NonTrivial(tmpl)
			}
		},
	})
}

func lastText(body []Stmt) (string, bool) {
	if len(body) == 0 {
		return "", false
	}
	s, ok := body[len(body)-1].(*Text)
	if !ok || strings.HasSuffix(s.s, "$") || strings.HasSuffix(s.s, "#") {
		return "", false
	}
	return s.s, true
}

// commentText draws the text of a line comment.
func commentText(t *engine.T) string {
	if t.Chance(1, 5) {
		b := make([]byte, t.Int(1, 8))
		for i := range b {
			if b[i] = byte(t.Uint(256)); b[i] == '\n' {
				b[i] = '\r'
			}
		}
		return string(b)
	}
	return engine.Pick(t, "", " comment", "#", " $a #set($zz = 1) #end", "x", " [[ ]]# ", "\"", " é\t", "\r", " note\r", " a\rb", "\\", " #[[ ]]# ", "}", "\x00", "\v\f", "(", "*", "#*")
}

func rawText(t *engine.T) string {
	var b strings.Builder
	for n := 0; t.More(n, 8, 2); n++ {
		b.WriteString(engine.Pick(t, "a", "$x", "${x}", "#end", "#if(true)", "## no comment\n", "[", "]", "[[", "(", "\"", "'", "\\", "#", "$", "]]", "]#", "{", "}", "<b>", "&", " ", "\n", "#set($a = 1)", "é"))
	}
	s := b.String()
	for strings.Contains(s+"]]#", "]]#") && strings.Index(s+"]]#", "]]#") != len(s) {
		i := strings.Index(s+"]]#", "]]#")
		s = s[:i] + "-" + s[i+1:]
	}
	return s
}
