package props

import "velty.verif/harness/engine"

func init() {
	engine.Register(&engine.Prop{
		ID: "C04",
		Rule: "random programs of nested if/elseif/else, foreach over slices and ranges, for loops, text, references and assignments over random variables, " +
			"compared with a reference interpreter (output and all variables afterwards); non-trivial: the program uses at least 3 different language features and its behaviour is specified",
		Quick: 80000, Thorough: 3000000,
		Run: func(t *engine.T) {
			g := newGen(t)
			g.calls = t.Bool()

			if t.Chance(1, 4) {
				g.types = renderTypes
			}
			g.longB = 12
			g.world(5)
			body := g.stmts(4)
			if t.Chance(1, 10) {
				body = g.deep(body)
			}
			st := &style{t}
			tmpl := printBody(st, body)
			o := check(t, g.w, body, tmpl)
			g.nontrivial(tmpl, o)
		},
	})
}
