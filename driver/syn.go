package main

import (
	"crypto/sha256"
	"fmt"
	"reflect"
	"strings"

	"github.com/eaburns/peggy/peg"
	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/tone"
)

func init() {
	modes["syn"] = syn
	modes["peg"] = pegMode
	modes["visit"] = visitMode
	modes["equal"] = equalMode
	modes["braces"] = bracesMode
	modes["ascii"] = asciiMode
	modes["tone"] = toneMode
	modes["word"] = wordMode
	modes["hist"] = histMode
	modes["err"] = errMode
}

// base starts a record: everything of the case is passed through.
func base(c caseIn) J {
	r := J{"panic": ""}
	for k, v := range c {
		r[k] = v
	}
	return r
}

func note(r J, where, p string) {
	if p != "" && r["panic"] == "" {
		r["panic"] = where + ":" + p
	}
}

func parse(r J, s string) (text *ast.Text) {
	r["ok"] = false
	note(r, "text", guard(func() {
		t, err := ast.NewParser(s).Text()
		if err == nil {
			text = t
		}
		r["ok"] = err == nil
	}))
	if mu, ok := r["mu"].(float64); ok && mu > 0 && text != nil {
		prefix(reflect.ValueOf(text), int(mu))
	}
	return text
}

// prefix puts prefix words before word predicates, which the parser never does:
// 1 to 3, before those at certain offsets; 4, before each; 5, two before each.
func prefix(v reflect.Value, mu int) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			prefix(v.Elem(), mu)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			prefix(v.Field(i), mu)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			prefix(v.Index(i), mu)
		}
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		prefix(v.Elem(), mu)
		w, ok := v.Interface().(*ast.WordPredicate)
		if !ok {
			return
		}
		t := []string{"mu", "M\u00fa"}[w.S%2]
		wrap := func(p ast.Predicate) *ast.PrefixedPredicate {
			return &ast.PrefixedPredicate{MU: ast.Word{T: t, S: w.S, E: w.S}, Predicate: p}
		}
		switch {
		case mu == 5:
			v.Set(reflect.ValueOf(wrap(wrap(w))))
		case mu == 4 || w.S%3 == mu-1:
			v.Set(reflect.ValueOf(wrap(w)))
		}
	}
}

func treeOf(text *ast.Text, d dumper) J {
	if text == nil {
		return nilJ()
	}
	return d.node(text)
}

// syn: verdicts and the syntax tree of a text.
func syn(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	text := parse(r, s)
	if v["tok"] {
		r["tok"] = false
		note(r, "tree", guard(func() {
			_, err := ast.NewParser(s).Tree()
			r["tok"] = err == nil
		}))
	}
	if v["ast"] || v["ext"] {
		r["tree"] = treeOf(text, dumper{ext: v["ext"]})
	}
	return r
}

// pegTree dumps a parse tree; a chain of nodes with one child each and the
// same text becomes one node.
func pegTree(n *peg.Node) J {
	for len(n.Kids) == 1 && n.Kids[0].Text == n.Text {
		n = n.Kids[0]
	}
	kids := make([]J, len(n.Kids))
	for i, k := range n.Kids {
		kids[i] = pegTree(k)
	}
	return J{"t": cps(n.Text), "c": kids}
}

func pegMode(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	r["tree"] = J{"t": []int{}, "c": []J{}}
	r["ok"] = false
	note(r, "tree", guard(func() {
		t, err := ast.NewParser(s).Tree()
		if err == nil {
			r["tree"] = pegTree(t)
			r["ok"] = true
		}
	}))
	return r
}

// kindOf names a node as in the dumps, with the offset of its first word.
func kindOf(n ast.Node) []interface{} {
	t := dumper{}.node(n)
	return []interface{}{t["k"], firstWord(t)}
}

// allNodes lists the nodes of a tree in the order of the dump (not using Visit).
func allNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	var walk func(x reflect.Value, top bool)
	nodeT := reflect.TypeOf((*ast.Node)(nil)).Elem()
	add := func(n ast.Node) { out = append(out, n) }
	var visit func(n ast.Node)
	word := func(w *ast.Word) {
		if w != nil {
			add(w)
			visit(w.M)
		}
	}
	cop := func(n *ast.CoP) {
		add(n)
		if n.TO0 != nil {
			word(n.TO0)
			word(&n.RU)
			visit(n.Left)
			word(n.TO1)
		} else {
			visit(n.Left)
			word(&n.RU)
		}
		visit(n.Right)
	}
	lu := func(n *ast.LUPhrase) {
		add(n)
		word(&n.LU)
		visit(n.Statement)
	}
	_ = walk
	_ = nodeT
	visit = func(n ast.Node) {
		if n == nil {
			return
		}
		if v := reflect.ValueOf(n); (v.Kind() == reflect.Ptr || v.Kind() == reflect.Slice) && v.IsNil() {
			return
		}
		if w, ok := n.(*ast.Word); ok {
			word(w)
			return
		}
		if p, ok := n.(*ast.CoP); ok {
			cop(p)
			return
		}
		if p, ok := n.(*ast.LUPhrase); ok {
			lu(p)
			return
		}
		add(n)
		switch n := n.(type) {
		case *ast.Text:
			visit(n.Leading)
			visit(&n.Discourse)
		case *ast.Discourse:
			for _, k := range *n {
				visit(k)
			}
		case *ast.StatementSentence:
			word(n.JE)
			visit(n.Statement)
			word(n.DA)
		case *ast.CoPSentence:
			cop((*ast.CoP)(n))
		case *ast.Prenex:
			visit(n.Terms)
			word(&n.BI)
		case *ast.PrenexStatement:
			visit(&n.Prenex)
			visit(n.Statement)
		case *ast.Predication:
			visit(n.Predicate)
			visit(n.Terms)
			word(n.NA)
		case *ast.CoPStatement:
			cop((*ast.CoP)(n))
		case *ast.PrefixedPredicate:
			word(&n.MU)
			visit(n.Predicate)
		case *ast.SerialPredicate:
			visit(n.Left)
			visit(n.Right)
		case *ast.WordPredicate:
			word((*ast.Word)(n))
		case *ast.MIPredicate:
			word(&n.MI)
			visit(n.Phrase)
			word(n.GA)
		case *ast.POPredicate:
			word(&n.PO)
			visit(n.Argument)
			word(n.GA)
		case *ast.MOPredicate:
			word(&n.MO)
			visit(&n.Discourse)
			word(&n.TEO)
		case *ast.LUPredicate:
			lu((*ast.LUPhrase)(n))
		case *ast.CoPPredicate:
			cop((*ast.CoP)(n))
		case *ast.LinkedTerm:
			word(&n.GO)
			visit(n.Argument)
		case ast.Terms:
			for _, t := range n {
				visit(t)
			}
		case *ast.TermSet:
			cop((*ast.CoP)(n))
		case *ast.PredicateArgument:
			word(n.Focus)
			word(n.Quantifier)
			visit(n.Predicate)
			visit(n.Relative)
		case *ast.CoPArgument:
			cop((*ast.CoP)(n))
		case *ast.PredicationRelative:
			visit(&n.Predication)
		case *ast.LURelative:
			lu((*ast.LUPhrase)(n))
		case *ast.CoPRelative:
			cop((*ast.CoP)(n))
		case *ast.PredicateAdverb:
			visit(n.Predicate)
		case *ast.CoPAdverb:
			cop((*ast.CoP)(n))
		case *ast.PredicationPreposition:
			visit(n.Predicate)
			visit(n.Argument)
		case *ast.CoPPreposition:
			cop((*ast.CoP)(n))
		case *ast.PredicationContent:
			visit(&n.Predication)
		case *ast.LUContent:
			lu((*ast.LUPhrase)(n))
		case *ast.CoPContent:
			cop((*ast.CoP)(n))
		case *ast.Parenthetical:
			word(&n.KIO)
			visit(&n.Discourse)
			word(&n.KI)
		case *ast.Incidental:
			word(&n.JU)
			visit(n.Statement)
		case *ast.Vocative:
			word(&n.HU)
			visit(n.Argument)
		case *ast.Interjection:
			word((*ast.Word)(n))
		case *ast.Space:
			word((*ast.Word)(n))
		}
	}
	visit(n)
	return out
}

// A tracer is a visitor with an identity. The policy of the case says for
// which calls it returns nothing (prune) or a new visitor.
type tracer struct {
	id int
	st *traceState
}

type traceState struct {
	ev    [][]interface{}
	calls int
	next  int
	prune int // prune the calls whose number is a multiple of this, when positive
	fresh int // likewise, for which calls a new visitor is returned
}

func (t *tracer) Visit(n ast.Node) ast.Visitor {
	if n == nil {
		t.st.ev = append(t.st.ev, []interface{}{t.id, "nil", -1})
		return nil
	}
	k := kindOf(n)
	t.st.ev = append(t.st.ev, []interface{}{t.id, k[0], k[1]})
	t.st.calls++
	if p := t.st.prune; p > 0 && t.st.calls%p == 0 {
		return nil
	}
	if p := t.st.fresh; p > 0 && t.st.calls%p == 0 {
		t.st.next++
		return &tracer{t.st.next, t.st}
	}
	return t
}

func visitMode(c caseIn, v map[string]bool) J {
	r := base(c)
	text := parse(r, c.text("s"))
	r["ev"] = [][]interface{}{}
	r["at0"] = c.num("at")
	r["at"] = "nil"
	if text == nil {
		return r
	}
	nodes := allNodes(text)
	root := nodes[c.num("at")%len(nodes)]
	r["at"] = kindOf(root)[0]
	st := &traceState{prune: c.num("p"), fresh: c.num("q"), ev: [][]interface{}{}}
	note(r, "visit", guard(func() { ast.Visit(root, &tracer{0, st}) }))
	r["ev"] = st.ev
	return r
}

func equalMode(c caseIn, v map[string]bool) J {
	r := base(c)
	a := parse(r, c.text("s"))
	ok1 := r["ok"]
	b := parse(r, c.text("s2"))
	r["ok2"] = r["ok"]
	r["ok"] = ok1
	r["eq"] = [][]int{}
	if a == nil || b == nil {
		return r
	}
	na, nb := allNodes(a), allNodes(b)
	pick := func(ns []ast.Node, k int) []ast.Node {
		if len(ns) <= k {
			return ns
		}
		return ns[:k]
	}
	pa, pb := pick(na, 24), pick(nb, 24)
	m := make([][]int, len(pa))
	note(r, "equal", guard(func() {
		for i, x := range pa {
			m[i] = make([]int, len(pb))
			for j, y := range pb {
				if ast.Equal(x, y) {
					m[i][j] |= 1
				}
				if ast.Equal(y, x) {
					m[i][j] |= 2
				}
			}
		}
		r["self"] = ast.Equal(a, a) && ast.Equal(b, b)
		r["nils"] = ast.Equal(nil, nil) && !ast.Equal(a, nil) && !ast.Equal(nil, b)
	}))
	r["eq"] = m
	return r
}

func bracesMode(c caseIn, v map[string]bool) J {
	r := base(c)
	text := parse(r, c.text("s"))
	r["br"] = [][]int{}
	if text == nil {
		return r
	}
	out := [][]int{}
	for _, n := range allNodes(text) {
		n := n
		out = append(out, nil)
		note(r, "braces", guard(func() { out[len(out)-1] = cps(ast.BracesString(n)) }))
		if out[len(out)-1] == nil {
			out[len(out)-1] = []int{}
		}
		if len(out) >= 40 {
			break
		}
	}
	r["br"] = out
	return r
}

func concat(j J) string {
	s := ""
	if t, ok := j["T"]; ok {
		s = uncps(t.([]int))
	}
	for _, c := range j["c"].([]J) {
		s += concat(c)
	}
	return s
}

func asciiMode(c caseIn, v map[string]bool) J {
	r := base(c)
	text := parse(r, c.text("s"))
	for _, k := range []string{"asc", "asc2", "re"} {
		r[k] = nilJ()
	}
	r["str"], r["reok"] = []int{}, false
	if text == nil {
		return r
	}
	note(r, "ascii", guard(func() {
		ast.ToASCII(text)
		t := dumper{}.node(text)
		r["asc"] = t
		str := concat(t)
		r["str"] = cps(str)
		p, err := ast.NewParser(str).Text()
		if err == nil {
			r["reok"] = true
			r["re"] = dumper{}.node(p)
		}
		ast.ToASCII(text)
		r["asc2"] = dumper{}.node(text)
	}))
	return r
}

// tones of the words of the case, in the order of the specification.
var toneRunes = []rune{0, '-', '/', 'V', '?', '^', '\\', '~'}

func toneMode(c caseIn, v map[string]bool) J {
	r := base(c)
	ws, _ := c["ws"].([]interface{})
	out := []J{}
	note(r, "tone", guard(func() {
		for _, w := range ws {
			s := uncps(toInts(w))
			with := [][]int{}
			for _, t := range toneRunes {
				with = append(with, cps(tone.WithTone(s, t)))
			}
			out = append(out, J{"asc": cps(tone.ToASCII(s)), "strip": cps(tone.Strip(s)), "tone": int(tone.Tone(s)), "with": with})
		}
	}))
	r["res"] = out
	return r
}

func wordRes(p *ast.Parser, off int) J {
	j := J{"ok": false, "n": 0, "w": nilJ(), "panic": "", "eoff": -1, "fp": ""}
	j["panic"] = guard(func() {
		w, n, err := p.Word(off)
		if err == nil {
			j["ok"], j["n"], j["w"] = true, n, dumper{}.word(w)
			scramble(w)
		} else {
			j["eoff"] = err.ByteOffset()
			j["fp"] = failPrint(err)
		}
	})
	return j
}

// wordMode: the word at every byte offset, each from a fresh parser.
func wordMode(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	ws := []J{}
	for off := 0; off <= len(s); off++ {
		ws = append(ws, wordRes(ast.NewParser(s), off))
	}
	r["ws"] = ws
	return r
}

func digest(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:16] }

// failPrint is a fingerprint of an error: its message and its tree of failures.
func failPrint(err ast.Error) string {
	var b strings.Builder
	b.WriteString(err.Error())
	seen := map[*peg.Fail]int{}
	var walk func(f *peg.Fail)
	walk = func(f *peg.Fail) {
		if n, ok := seen[f]; ok {
			fmt.Fprintf(&b, "#%d", n)
			return
		}
		seen[f] = len(seen)
		fmt.Fprintf(&b, "(%s %d %s", f.Name, f.Pos, f.Want)
		for _, k := range f.Kids {
			walk(k)
		}
		b.WriteString(")")
	}
	walk(err.Tree())
	return digest(b.String())
}

func scrambleFail(f *peg.Fail, seen map[*peg.Fail]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	for _, k := range f.Kids {
		scrambleFail(k, seen)
	}
	f.Name, f.Pos, f.Want = "scrambled", 9999, "scrambled"
	for i := range f.Kids {
		f.Kids[i] = nil
	}
	f.Kids = nil
}

func pegPrint(n *peg.Node, b *strings.Builder) {
	fmt.Fprintf(b, "(%s %q", n.Name, n.Text)
	for _, k := range n.Kids {
		pegPrint(k, b)
	}
	b.WriteString(")")
}

func scramblePeg(n *peg.Node, seen map[*peg.Node]bool) {
	if n == nil || seen[n] {
		return
	}
	seen[n] = true
	for _, k := range n.Kids {
		scramblePeg(k, seen)
	}
	n.Name, n.Text = "scrambled", "scrambled"
	for i := range n.Kids {
		n.Kids[i] = nil
	}
	n.Kids = n.Kids[:0]
}

// scramble overwrites everything reachable from a syntax tree.
func scramble(x interface{}) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				if v.Index(i).CanSet() {
					v.Index(i).Set(reflect.Zero(v.Index(i).Type()))
				}
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if !f.CanSet() {
					continue
				}
				switch f.Kind() {
				case reflect.String:
					f.SetString("scrambled")
				case reflect.Int:
					f.SetInt(12345)
				case reflect.Ptr, reflect.Interface, reflect.Slice:
					f.Set(reflect.Zero(f.Type()))
				}
			}
		}
	}
	walk(reflect.ValueOf(x))
}

func histOp(p *ast.Parser, op []interface{}) J {
	j := J{"ok": false, "n": 0, "v": nilJ(), "panic": "", "eoff": -1, "fp": ""}
	fail := func(err ast.Error) {
		j["eoff"] = err.ByteOffset()
		j["fp"] = failPrint(err)
		scrambleFail(err.Tree(), map[*peg.Fail]bool{})
	}
	j["panic"] = guard(func() {
		switch op[0].(string) {
		case "text":
			t, err := p.Text()
			if err != nil {
				fail(err)
				return
			}
			j["ok"], j["v"] = true, dumper{}.node(t)
			scramble(t)
		case "tree":
			t, err := p.Tree()
			if err != nil {
				fail(err)
				return
			}
			var b strings.Builder
			pegPrint(t, &b)
			j["ok"], j["fp"] = true, digest(b.String())
			scramblePeg(t, map[*peg.Node]bool{})
		case "word":
			w, n, err := p.Word(int(op[1].(float64)))
			if err != nil {
				fail(err)
				return
			}
			j["ok"], j["n"], j["v"] = true, n, dumper{}.word(w)
			scramble(w)
		}
	})
	return j
}

// histMode: a sequence of requests on one parser, and each on a fresh parser.
func histMode(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	p := ast.NewParser(s)
	got, fresh := []J{}, []J{}
	ops, _ := c["ops"].([]interface{})
	for _, o := range ops {
		op := o.([]interface{})
		got = append(got, histOp(p, op))
		fresh = append(fresh, histOp(ast.NewParser(s), op))
	}
	r["got"], r["fresh"] = got, fresh
	return r
}

// errMode: everything about the errors of a text.
func errMode(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	one := func(where string, f func() (ast.Error, bool)) J {
		j := J{"ok": true, "off": -1, "line": -1, "col": -1, "leaf": -1, "min": -1, "msg": ""}
		note(r, where, guard(func() {
			err, ok := f()
			if ok {
				return
			}
			j["ok"] = false
			j["off"] = err.ByteOffset()
			j["msg"] = err.Error()
			var line, col int
			if _, e := fmt.Sscanf(err.Error(), ":%d.%d:", &line, &col); e == nil {
				j["line"], j["col"] = line, col
			}
			leaf := -1
			bad := 0
			seen := map[*peg.Fail]bool{}
			var walk func(f *peg.Fail, top int)
			walk = func(f *peg.Fail, top int) {
				if f.Pos < top {
					bad = 1
				}
				if seen[f] {
					return
				}
				seen[f] = true
				if len(f.Kids) == 0 && f.Pos > leaf {
					leaf = f.Pos
				}
				for _, k := range f.Kids {
					walk(k, f.Pos)
				}
			}
			walk(err.Tree(), err.Tree().Pos)
			j["leaf"], j["min"] = leaf, bad
		}))
		return j
	}
	r["text"] = one("text", func() (ast.Error, bool) { _, err := ast.NewParser(s).Text(); return err, err == nil })
	r["tree"] = one("tree", func() (ast.Error, bool) { _, err := ast.NewParser(s).Tree(); return err, err == nil })
	words := []J{}
	for _, o := range c.ints("offs") {
		o := o
		words = append(words, one("word", func() (ast.Error, bool) { _, _, err := ast.NewParser(s).Word(o); return err, err == nil }))
	}
	r["words"] = words
	return r
}
