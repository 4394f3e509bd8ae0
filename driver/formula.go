package main

import (
	"encoding/json"
	"strings"

	"github.com/eaburns/toaq/ast"
	"github.com/eaburns/toaq/logic"
)

func init() {
	modes["logic"] = logicMode
	modes["print"] = printMode
	modes["fvisit"] = fvisitMode
}

func js(x interface{}) string {
	b, err := json.Marshal(x)
	check(err)
	return string(b)
}

// interpret gives a formula (nil if none) and how it went:
// formula, none, stop (with a message) or fault.
func interpret(text *ast.Text) (st logic.Statement, kind, msg string) {
	p := guard(func() { st = logic.Interpret(text) })
	switch {
	case strings.HasPrefix(p, "string:"):
		return nil, "stop", strings.TrimPrefix(p, "string:")
	case p != "":
		return nil, "fault", p
	case st == nil:
		return nil, "none", ""
	}
	return st, "formula", ""
}

func formulaDump(st logic.Statement) J {
	if st == nil {
		return nilJ()
	}
	return newFdumper().node(st)
}

// logicMode: the formula of a text, whether it comes out the same every time,
// and whether the syntax tree is left as it was.
func logicMode(c caseIn, v map[string]bool) J {
	s := c.text("s")
	r := base(c)
	text := parse(r, s)
	r["kind"], r["msg"], r["f"], r["same"], r["kept"] = "none", []int{}, nilJ(), true, true
	if text == nil {
		return r
	}
	before := js(dumper{ext: true}.node(text))
	st, kind, msg := interpret(text)
	r["kind"], r["msg"] = kind, cps(msg)
	r["f"] = formulaDump(st)
	first := js(J{"k": kind, "m": msg, "f": r["f"]})
	again := func(t *ast.Text) {
		st, kind, msg := interpret(t)
		if js(J{"k": kind, "m": msg, "f": formulaDump(st)}) != first {
			r["same"] = false
		}
	}
	again(text)
	again(text)
	if t, err := ast.NewParser(s).Text(); err == nil {
		again(t)
	}
	if js(dumper{ext: true}.node(text)) != before {
		r["kept"] = false
	}
	return r
}

func strs(r J, st logic.Node) {
	r["str"], r["pretty"] = []int{}, []int{}
	note(r, "String", guard(func() { r["str"] = cps(logic.String(st)) }))
	note(r, "PrettyString", guard(func() { r["pretty"] = cps(logic.PrettyString(st)) }))
}

// formulaOf gives the formula of a case: described in it, or that of its text.
func formulaOf(c caseIn, r J) logic.Node {
	if f, ok := c["g"].(map[string]interface{}); ok {
		r["ok"] = true
		b := builder{binds: map[int]*logic.Binding{}}
		n := b.node(f)
		b.patch()
		return n
	}
	text := parse(r, c.text("s"))
	if text == nil {
		return nil
	}
	st, kind, _ := interpret(text)
	if kind != "formula" {
		return nil
	}
	return st
}

func printMode(c caseIn, v map[string]bool) J {
	r := base(c)
	delete(r, "g")
	n := formulaOf(c, r)
	r["have"] = n != nil
	r["f"] = nilJ()
	if n == nil {
		r["str"], r["pretty"] = []int{}, []int{}
		return r
	}
	r["f"] = newFdumper().node(n)
	strs(r, n)
	return r
}

func fvisitMode(c caseIn, v map[string]bool) J {
	r := base(c)
	delete(r, "g")
	n := formulaOf(c, r)
	r["have"] = n != nil
	r["f"], r["g"], r["ev"] = nilJ(), nilJ(), []int{}
	if n == nil {
		return r
	}
	d := newFdumper()
	r["f"] = d.node(n)
	ev := []int{}
	note(r, "Visit", guard(func() {
		n.Visit(func(x logic.Node) {
			if i, ok := d.nids[x]; ok {
				ev = append(ev, i)
			} else {
				ev = append(ev, -1)
			}
		})
	}))
	r["ev"] = ev
	note(r, "NillOutAST", guard(func() { logic.NillOutAST(n) }))
	r["g"] = d.node(n)
	return r
}

// A builder makes formulas from descriptions.
type builder struct {
	binds map[int]*logic.Binding
	vars  []pending
}

type pending struct {
	v   *logic.Variable
	def int
}

func (b *builder) patch() {
	for _, p := range b.vars {
		if p.def >= 0 {
			p.v.Def = b.binds[p.def]
		}
	}
}

func num(x interface{}) int { f, _ := x.(float64); return int(f) }

var quants = map[string]logic.Quantifier{"The": logic.The, "Lambda": logic.Lambda, "Each": logic.Each, "All": logic.All,
	"Some": logic.Some, "None": logic.None, "Hi": logic.Hi}
var conns = map[string]logic.Connector{"And": logic.And, "Or": logic.Or, "Ri": logic.Ri}

func (b *builder) node(f map[string]interface{}) logic.Node {
	kid := func(i int) map[string]interface{} {
		return f["c"].([]interface{})[i].(map[string]interface{})
	}
	stmt := func(i int) logic.Statement {
		if n := b.node(kid(i)); n != nil {
			return n.(logic.Statement)
		}
		return nil
	}
	args := func(from int) []logic.Argument {
		c := f["c"].([]interface{})
		out := []logic.Argument{}
		for i := from; i < len(c); i++ {
			if kid(i)["k"] == "again" {
				out = append(out, out[len(out)-1])
				continue
			}
			if n := b.node(kid(i)); n != nil {
				out = append(out, n.(logic.Argument))
			} else {
				out = append(out, nil)
			}
		}
		return out
	}
	// Some node to record as origin.
	var org ast.Node = &ast.Word{T: "x"}
	text := func(k string) string { return uncps(toInts(f[k])) }
	switch f["k"] {
	case "nil":
		return nil
	case "Binding":
		x := &logic.Binding{Quantifier: quants[f["q"].(string)], N: num(f["n"]), AST: org}
		b.binds[num(f["id"])] = x
		x.Restriction = stmt(0)
		x.Scope = stmt(1)
		return x
	case "Connection":
		x := &logic.Connection{Connector: conns[f["con"].(string)], Left: stmt(0), AST: org}
		if x.Right = x.Left; kid(1)["k"] != "again" {
			x.Right = stmt(1)
		}
		return x
	case "Predication":
		return &logic.Predication{Predicate: b.node(kid(0)).(logic.Predicate), Arguments: args(1), AST: org}
	case "Variable":
		x := &logic.Variable{N: num(f["n"]), AST: org}
		b.vars = append(b.vars, pending{x, num(f["def"])})
		return x
	case "Plurality":
		return &logic.Plurality{Arguments: args(0), AST: org}
	case "Quote":
		return &logic.Quote{Text: text("text"), FullText: f["full"].(bool), AST: org}
	case "Pred":
		return &logic.Pred{Name: text("name"), AST: org}
	case "Abstraction":
		return &logic.Abstraction{Statement: stmt(0), AST: org}
	case "Serial":
		x := &logic.Serial{Left: b.node(kid(0)).(logic.Predicate), AST: org}
		if x.Right = x.Left; kid(1)["k"] != "again" {
			x.Right = b.node(kid(1)).(logic.Predicate)
		}
		return x
	case "Swap":
		return &logic.Swap{Predicate: b.node(kid(0)).(logic.Predicate), Pos: num(f["pos"]), AST: org}
	}
	panic("builder: " + js(f))
}
