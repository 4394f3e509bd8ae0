package main

import (
	"strings"

	"github.com/eaburns/toaq/ast"
)

func init() { modes["long"] = longMode }

// longMode: a text repeated n times and followed by another. The parts of the
// discourse are many: only some of them are recorded, each with its index.
func longMode(c caseIn, v map[string]bool) J {
	r := base(c)
	s := strings.Repeat(c.text("s"), c.num("n")) + c.text("s2")
	r["ok"], r["tok"], r["off"], r["toff"], r["cnt"], r["picks"] = false, false, -1, -1, 0, []J{}
	note(r, "text", guard(func() {
		text, err := ast.NewParser(s).Text()
		if err != nil {
			r["off"] = err.ByteOffset()
			return
		}
		r["ok"] = true
		n := len(text.Discourse)
		r["cnt"] = n
		picks := []J{}
		last := -1
		for _, i := range []int{0, 1, 2, 3, n / 2, n/2 + 1, n - 8, n - 7, n - 6, n - 5, n - 4, n - 3, n - 2, n - 1} {
			if i > last && i < n {
				t := nilJ()
				if x := text.Discourse[i]; len(allNodes(x)) < 600 {
					if d := (dumper{}).node(x); depth(d) < 80 {
						t = d
					}
				}
				picks = append(picks, J{"j": i + 1, "t": t})
				last = i
			}
		}
		r["picks"] = picks
	}))
	note(r, "tree", guard(func() {
		t, err := ast.NewParser(s).Tree()
		r["tok"] = err == nil
		if err != nil {
			r["toff"] = err.ByteOffset()
		} else if t.Text != s {
			r["panic"] = "the parse tree does not span the text"
		}
	}))
	return r
}

func depth(j J) int {
	n := 0
	for _, c := range j["c"].([]J) {
		if d := depth(c); d > n {
			n = d
		}
	}
	return n + 1
}
