package main

import (
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() { modes["spell"] = spellMode }

// spellMode: two spellings; for each the verdict, tree, bracketing and formula.
func spellMode(c caseIn, v map[string]bool) J {
	r := base(c)
	one := func(s string) J {
		j := J{"ok": false, "tree": nilJ(), "br": []int{}, "fo": []int{}, "kind": "", "quote": false}
		var text *ast.Text
		note(r, "text", guard(func() {
			t, err := ast.NewParser(s).Text()
			if err == nil {
				j["ok"], text = true, t
			}
		}))
		if text == nil {
			return j
		}
		note(r, "tree", guard(func() {
			j["tree"] = dumper{}.node(text)
			j["br"] = cps(ast.BracesString(text))
		}))
		p := guard(func() {
			st := logic.Interpret(text)
			if st == nil {
				j["kind"] = "none"
				return
			}
			f := logic.String(st)
			j["kind"], j["fo"], j["quote"] = "formula", cps(f), strings.ContainsAny(f, "‹›«»\"“”")
		})
		if p != "" {
			j["kind"] = "stop"
		}
		return j
	}
	r["a"] = one(c.text("s"))
	r["b"] = one(c.text("s2"))
	return r
}
