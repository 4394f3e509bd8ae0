package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

// J is a JSON object.
type J map[string]interface{}

// cps returns the code points of a string; an invalid byte b becomes 1114112+b,
// which is outside Unicode.
func cps(s string) []int {
	out := []int{}
	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)
		if r == utf8.RuneError && w == 1 {
			out = append(out, 1114112+int(s[0]))
		} else {
			out = append(out, int(r))
		}
		s = s[w:]
	}
	return out
}

func uncps(c []int) string {
	var b []byte
	for _, r := range c {
		if r >= 1114112 {
			b = append(b, byte(r-1114112))
		} else {
			b = append(b, []byte(string(rune(r)))...)
		}
	}
	return string(b)
}

func nilJ() J { return J{"k": "nil", "c": []J{}} }

// A dumper turns syntax trees into their abstract form.
// If ext is set, each node also gets x: [Start(), End()].
type dumper struct{ ext bool }

func (d dumper) mk(n ast.Node, k string, c ...J) J {
	if c == nil {
		c = []J{}
	}
	j := J{"k": k, "c": c}
	if d.ext {
		j["x"] = extent(n)
	}
	return j
}

func extent(n ast.Node) (x []int) {
	defer func() {
		if r := recover(); r != nil {
			x = []int{-1, -1}
		}
	}()
	return []int{n.Start(), n.End()}
}

func (d dumper) word(w *ast.Word) J {
	if w == nil {
		return nilJ()
	}
	j := J{"k": "Word", "c": []J{d.node(w.M)}, "T": cps(w.T), "S": w.S, "E": w.E}
	if d.ext {
		j["x"] = extent(w)
	}
	return j
}

func (d dumper) terms(n ast.Terms) J {
	if n == nil {
		return nilJ()
	}
	c := make([]J, len(n))
	for i, t := range n {
		c[i] = d.node(t)
	}
	return d.mk(n, "Terms", c...)
}

func (d dumper) cop(n *ast.CoP) J {
	if n.TO0 == nil && n.TO1 == nil {
		return d.mk(n, "CoP", d.node(n.Left), d.word(&n.RU), d.node(n.Right))
	}
	return d.mk(n, "CoP", d.word(n.TO0), d.word(&n.RU), d.node(n.Left), d.word(n.TO1), d.node(n.Right))
}

func (d dumper) lu(n *ast.LUPhrase) J {
	return d.mk(n, "LUPhrase", d.word(&n.LU), d.node(n.Statement))
}

func (d dumper) node(n ast.Node) J {
	switch n := n.(type) {
	case nil:
		return nilJ()
	case *ast.Text:
		return d.mk(n, "Text", d.node(n.Leading), d.node(&n.Discourse))
	case *ast.Discourse:
		c := make([]J, len(*n))
		for i, k := range *n {
			c[i] = d.node(k)
		}
		return d.mk(n, "Discourse", c...)
	case *ast.StatementSentence:
		return d.mk(n, "StatementSentence", d.word(n.JE), d.node(n.Statement), d.word(n.DA))
	case *ast.CoPSentence:
		return d.mk(n, "CoPSentence", d.cop((*ast.CoP)(n)))
	case *ast.Prenex:
		return d.mk(n, "Prenex", d.terms(n.Terms), d.word(&n.BI))
	case *ast.PrenexStatement:
		return d.mk(n, "PrenexStatement", d.node(&n.Prenex), d.node(n.Statement))
	case *ast.Predication:
		return d.mk(n, "Predication", d.node(n.Predicate), d.terms(n.Terms), d.word(n.NA))
	case *ast.CoPStatement:
		return d.mk(n, "CoPStatement", d.cop((*ast.CoP)(n)))
	case *ast.PrefixedPredicate:
		return d.mk(n, "PrefixedPredicate", d.word(&n.MU), d.node(n.Predicate))
	case *ast.SerialPredicate:
		return d.mk(n, "SerialPredicate", d.node(n.Left), d.node(n.Right))
	case *ast.WordPredicate:
		return d.mk(n, "WordPredicate", d.word((*ast.Word)(n)))
	case *ast.MIPredicate:
		return d.mk(n, "MIPredicate", d.word(&n.MI), d.node(n.Phrase), d.word(n.GA))
	case *ast.POPredicate:
		return d.mk(n, "POPredicate", d.word(&n.PO), d.node(n.Argument), d.word(n.GA))
	case *ast.MOPredicate:
		return d.mk(n, "MOPredicate", d.word(&n.MO), d.node(&n.Discourse), d.word(&n.TEO))
	case *ast.LUPredicate:
		return d.mk(n, "LUPredicate", d.lu((*ast.LUPhrase)(n)))
	case *ast.CoPPredicate:
		return d.mk(n, "CoPPredicate", d.cop((*ast.CoP)(n)))
	case *ast.LinkedTerm:
		return d.mk(n, "LinkedTerm", d.word(&n.GO), d.node(n.Argument))
	case ast.Terms:
		return d.terms(n)
	case *ast.TermSet:
		return d.mk(n, "TermSet", d.cop((*ast.CoP)(n)))
	case *ast.PredicateArgument:
		return d.mk(n, "PredicateArgument", d.word(n.Focus), d.word(n.Quantifier), d.node(n.Predicate), d.node(n.Relative))
	case *ast.CoPArgument:
		return d.mk(n, "CoPArgument", d.cop((*ast.CoP)(n)))
	case *ast.PredicationRelative:
		return d.mk(n, "PredicationRelative", d.node(&n.Predication))
	case *ast.LURelative:
		return d.mk(n, "LURelative", d.lu((*ast.LUPhrase)(n)))
	case *ast.CoPRelative:
		return d.mk(n, "CoPRelative", d.cop((*ast.CoP)(n)))
	case *ast.PredicateAdverb:
		return d.mk(n, "PredicateAdverb", d.node(n.Predicate))
	case *ast.CoPAdverb:
		return d.mk(n, "CoPAdverb", d.cop((*ast.CoP)(n)))
	case *ast.PredicationPreposition:
		return d.mk(n, "PredicationPreposition", d.node(n.Predicate), d.node(n.Argument))
	case *ast.CoPPreposition:
		return d.mk(n, "CoPPreposition", d.cop((*ast.CoP)(n)))
	case *ast.PredicationContent:
		return d.mk(n, "PredicationContent", d.node(&n.Predication))
	case *ast.LUContent:
		return d.mk(n, "LUContent", d.lu((*ast.LUPhrase)(n)))
	case *ast.CoPContent:
		return d.mk(n, "CoPContent", d.cop((*ast.CoP)(n)))
	case *ast.Parenthetical:
		return d.mk(n, "Parenthetical", d.word(&n.KIO), d.node(&n.Discourse), d.word(&n.KI))
	case *ast.Incidental:
		return d.mk(n, "Incidental", d.word(&n.JU), d.node(n.Statement))
	case *ast.Vocative:
		return d.mk(n, "Vocative", d.word(&n.HU), d.node(n.Argument))
	case *ast.Interjection:
		return d.mk(n, "Interjection", d.word((*ast.Word)(n)))
	case *ast.Space:
		return d.mk(n, "Space", d.word((*ast.Word)(n)))
	case *ast.CoP:
		return d.cop(n)
	case *ast.LUPhrase:
		return d.lu(n)
	case *ast.Word:
		return d.word(n)
	default:
		return J{"k": fmt.Sprintf("unknown:%T", n), "c": []J{}}
	}
}

// firstWord returns the offset of the first word of a dumped tree, or -1.
func firstWord(j J) int {
	if s, ok := j["S"]; ok {
		return s.(int)
	}
	for _, c := range j["c"].([]J) {
		if o := firstWord(c); o >= 0 {
			return o
		}
	}
	return -1
}

// A formula dumper: binds numbers the distinct binding objects in the order met.
// nids numbers all node objects.
type fdumper struct {
	ids  map[*logic.Binding]int
	nids map[logic.Node]int
	ast  bool
}

func newFdumper() *fdumper {
	return &fdumper{ids: map[*logic.Binding]int{}, nids: map[logic.Node]int{}, ast: true}
}

func (d *fdumper) nid(n logic.Node) int {
	if i, ok := d.nids[n]; ok {
		return i
	}
	i := len(d.nids)
	d.nids[n] = i
	return i
}

func (d *fdumper) id(b *logic.Binding) int {
	if b == nil {
		return -1
	}
	if i, ok := d.ids[b]; ok {
		return i
	}
	i := len(d.ids)
	d.ids[b] = i
	return i
}

func quantName(q logic.Quantifier) string {
	switch q {
	case "ι":
		return "The"
	case "λ":
		return "Lambda"
	case "∀":
		return "Each"
	case "Λ":
		return "All"
	case "∃":
		return "Some"
	case "∄":
		return "None"
	case "¿":
		return "Hi"
	}
	return "other:" + string(q)
}

func conName(c logic.Connector) string {
	switch c {
	case "∧":
		return "And"
	case "∨":
		return "Or"
	case "?":
		return "Ri"
	}
	return "other:" + string(c)
}

// origin describes the AST field of a formula node: its kind and its first word.
func (d *fdumper) origin(j J, n ast.Node) J {
	if !d.ast {
		return j
	}
	if n == nil {
		j["a"] = []interface{}{"nil", -1}
		return j
	}
	t := dumper{}.node(n)
	j["a"] = []interface{}{t["k"], firstWord(t)}
	return j
}

func (d *fdumper) args(as []logic.Argument) []J {
	c := make([]J, len(as))
	for i, a := range as {
		c[i] = d.node(a)
	}
	return c
}

func (d *fdumper) node(n logic.Node) J {
	j := d.node1(n)
	if n != nil {
		j["u"] = d.nid(n)
	}
	return j
}

func (d *fdumper) node1(n logic.Node) J {
	switch n := n.(type) {
	case nil:
		return nilJ()
	case *logic.Binding:
		j := J{"k": "Binding", "q": quantName(n.Quantifier), "id": d.id(n), "n": n.N, "foc": n.Focus}
		var r, s J = nilJ(), nilJ()
		if n.Restriction != nil {
			r = d.node(n.Restriction)
		}
		if n.Scope != nil {
			s = d.node(n.Scope)
		}
		j["c"] = []J{r, s}
		return d.origin(j, n.AST)
	case *logic.Connection:
		j := J{"k": "Connection", "con": conName(n.Connector), "c": []J{d.node(n.Left), d.node(n.Right)}}
		return d.origin(j, n.AST)
	case *logic.Predication:
		j := J{"k": "Predication", "c": append([]J{d.node(n.Predicate)}, d.args(n.Arguments)...)}
		return d.origin(j, n.AST)
	case *logic.Variable:
		j := J{"k": "Variable", "n": n.N, "def": d.id(n.Def), "foc": n.Focus, "c": []J{}}
		return d.origin(j, n.AST)
	case *logic.Plurality:
		return d.origin(J{"k": "Plurality", "c": d.args(n.Arguments)}, n.AST)
	case *logic.Quote:
		return d.origin(J{"k": "Quote", "text": cps(n.Text), "full": n.FullText, "c": []J{}}, n.AST)
	case *logic.Pred:
		return d.origin(J{"k": "Pred", "name": cps(n.Name), "c": []J{}}, n.AST)
	case *logic.Abstraction:
		return d.origin(J{"k": "Abstraction", "c": []J{d.node(n.Statement)}}, n.AST)
	case *logic.Serial:
		return d.origin(J{"k": "Serial", "c": []J{d.node(n.Left), d.node(n.Right)}}, n.AST)
	case *logic.Swap:
		return d.origin(J{"k": "Swap", "pos": n.Pos, "c": []J{d.node(n.Predicate)}}, n.AST)
	default:
		return J{"k": fmt.Sprintf("unknown:%T", n), "c": []J{}}
	}
}
