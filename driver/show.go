package main

import (
	"github.com/eaburns/pretty"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	modes["dump"] = dumpMode
	modes["fdump"] = fdumpMode
}

// dumpMode: the dumps of a tree and of the modifiers in it.
func dumpMode(c caseIn, v map[string]bool) J {
	r := base(c)
	text := parse(r, c.text("s"))
	r["tree"] = treeOf(text, dumper{})
	out := [][]int{}
	r["dumps"] = out
	if text == nil {
		return r
	}
	add := func(n ast.Node) {
		if len(out) < 20 {
			note(r, "dump", guard(func() { out = append(out, cps(pretty.String(n))) }))
		}
	}
	add(text)
	for _, n := range allNodes(text) {
		switch n.(type) {
		case *ast.Parenthetical, *ast.Incidental, *ast.Vocative, *ast.Interjection, *ast.Space:
			add(n)
		}
	}
	r["dumps"] = out
	return r
}

// fdumpMode: the dump of a formula without its origins.
func fdumpMode(c caseIn, v map[string]bool) J {
	r := base(c)
	delete(r, "g")
	n := formulaOf(c, r)
	r["have"] = n != nil
	r["f"], r["dump"] = nilJ(), []int{}
	if n == nil {
		return r
	}
	note(r, "NillOutAST", guard(func() { logic.NillOutAST(n) }))
	r["f"] = newFdumper().node(n)
	note(r, "dump", guard(func() { r["dump"] = cps(pretty.String(n)) }))
	return r
}
