From df27d5dce5ca6a96951b115b5f559bddfe222b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:03 +0000
Subject: [PATCH 01/37] fix: extent of a predication without terms and of an
 empty text

---
 ast/ast.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 79e9909..8ed5cc0 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -34,15 +34,40 @@ type Text struct {
 	Discourse Discourse
 }
 
-func (n *Text) Start() int         { return n.Discourse.Start() }
-func (n *Text) End() int           { return n.Discourse.End() }
+func (n *Text) Start() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.Start()
+	}
+	return n.Discourse.Start()
+}
+
+func (n *Text) End() int {
+	if len(n.Discourse) == 0 && n.Leading != nil {
+		return n.Leading.End()
+	}
+	return n.Discourse.End()
+}
+
 func (n Text) modNode(m *Mod) Node { n.Discourse = *n.Discourse.mod(m); return &n }
 
 // A Discourse is a non-empty sequence of sentences and/or fragments.
 type Discourse []Node
 
-func (n *Discourse) Start() int { return (*n)[0].Start() }
-func (n *Discourse) End() int   { return (*n)[len(*n)-1].End() }
+// Start returns 0 for the Discourse of an empty Text.
+func (n *Discourse) Start() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[0].Start()
+}
+
+// End returns 0 for the Discourse of an empty Text.
+func (n *Discourse) End() int {
+	if len(*n) == 0 {
+		return 0
+	}
+	return (*n)[len(*n)-1].End()
+}
 
 func (n Discourse) modNode(m *Mod) Node { return n.mod(m) }
 
@@ -157,8 +182,15 @@ type Predication struct {
 	NA        *Word
 }
 
-func (n *Predication) Start() int                   { return n.Predicate.Start() }
-func (n *Predication) End() int                     { return end(n.NA, n.Terms) }
+func (n *Predication) Start() int { return n.Predicate.Start() }
+
+func (n *Predication) End() int {
+	if n.Terms == nil {
+		return end(n.NA, n.Predicate)
+	}
+	return end(n.NA, n.Terms)
+}
+
 func (n Predication) modNode(m *Mod) Node           { return n.mod(m) }
 func (n Predication) modStatement(m *Mod) Statement { return n.mod(m) }
 
-- 
2.43.0


From bf0ad63dcd3ce5b466cfbcd06cf84ad0eb74cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 02/37] fix: a failed Word request reports where the word
 failed, whatever was asked before

---
 ast/parser.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index db2add7..953ee12 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -52,7 +52,7 @@ func NewParser(text string) *Parser {
 
 // Tree returns the full parse tree of the text.
 func (p *Parser) Tree() (*peg.Node, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, t := _full_textNode(p._Parser, 0)
@@ -66,7 +66,7 @@ func (p *Parser) Tree() (*peg.Node, Error) {
 // Word returns the word at the given byte-offset into the text
 // with any trailing whitespace attached and the number of bytes parsed.
 func (p *Parser) Word(offs int) (*Word, int, Error) {
-	if err := p.parse(_wordAccepts, offs); err != nil {
+	if err := p.parse(_wordAccepts, _wordFail, offs); err != nil {
 		return nil, 0, err
 	}
 	pos, t := _wordAction(p._Parser, offs)
@@ -79,7 +79,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 
 // Text returns the AST of the text.
 func (p *Parser) Text() (*Text, Error) {
-	if err := p.parse(_full_textAccepts, 0); err != nil {
+	if err := p.parse(_full_textAccepts, _full_textFail, 0); err != nil {
 		return nil, err
 	}
 	_, txt := _full_textAction(p._Parser, 0)
@@ -90,12 +90,20 @@ func (p *Parser) Text() (*Text, Error) {
 	return txt, nil
 }
 
-func (p *Parser) parse(rule func(*_Parser, int) (int, int), start int) Error {
-	pos, perr := rule(p._Parser, start)
-	if pos >= 0 {
+func (p *Parser) parse(
+	accepts func(*_Parser, int) (int, int),
+	fail func(*_Parser, int, int) (int, *peg.Fail),
+	start int,
+) Error {
+	dpos, derr := accepts(p._Parser, start)
+	if dpos >= 0 {
 		return nil
 	}
-	_, failTree := _full_textFail(p._Parser, 0, perr)
+	_, failTree := fail(p._Parser, start, start+derr)
+	// Reset so a subsequent failure builds its own tree:
+	// failures are memoized without the error position they were made for,
+	// and the caller may modify the returned tree.
+	p._Parser.fail = make(map[_key]*peg.Fail)
 	return &parseError{
 		fail: failTree,
 		err:  peg.SimpleError(p._Parser.text, failTree),
-- 
2.43.0


From 341d38d71d5a3a0ad0de265d8b488018d13183f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 03/37] fix: the Word returned by Parser.Word belongs to the
 caller

---
 ast/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/parser.go b/ast/parser.go
index 953ee12..2397106 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -73,7 +73,7 @@ func (p *Parser) Word(offs int) (*Word, int, Error) {
 	// Reset so a subsequent call returns a different tree.
 	// This allows the caller to modify the returned tree
 	// without affecting the tree made by subsequent calls.
-	p._Parser.node = make(map[_key]*peg.Node)
+	p._Parser.act = make(map[_key]interface{})
 	return *t, pos - offs, nil
 }
 
-- 
2.43.0


From edacdeedf08dab3e566f64004a7163c9c9200036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 04/37] fix: interpreting one branch of connected arguments no
 longer changes the terms of another

---
 logic/interp.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 85573fb..be86ef8 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -515,7 +515,6 @@ func (interp *interpreter) poArgument(n ast.Node, pred Predicate, arg0 Argument,
 }
 
 // prenexStatement interprets a prenex statement using the given term list.
-// This function modifies the contents of the terms slice.
 func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatement, terms ast.Terms) Statement {
 	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
 
@@ -1088,10 +1087,9 @@ func goPos(w ast.Word) int {
 	panic("impossible: " + w.T)
 }
 
-// withTerm0 sets ts[0] to t and returns ts.
+// withTerm0 returns a copy of ts with ts[0] set to t.
 func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
-	ts[0] = t
-	return ts
+	return ts[1:].Prepend(t)
 }
 
 // hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-- 
2.43.0


From 8f9d0ade7b862c1845c41e68ea512ab2f1bd3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 05/37] fix: connected arguments of a preposition use both
 arguments

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index be86ef8..adb72be 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -680,7 +680,7 @@ func (interp *interpreter) predicationPreposition(p ast.Predicate, arg0 interfac
 		return &Connection{
 			Connector: connector(arg1.RU),
 			Left:      interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
-			Right:     interp.predicationPreposition(p, arg0, arg1.Left.(ast.Argument)),
+			Right:     interp.predicationPreposition(p, arg0, arg1.Right.(ast.Argument)),
 			AST:       arg1,
 		}
 	default:
-- 
2.43.0


From 5b98346c97bdb689e453a920447d692efbe90374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 06/37] fix: what follows a parenthetical is attached after its
 ki

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 8ed5cc0..8125de5 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -651,7 +651,7 @@ func (n Parenthetical) modNode(m *Mod) Node         { return n.mod(m) }
 func (n Parenthetical) modFragment(m *Mod) Fragment { return n.mod(m) }
 
 func (n Parenthetical) mod(m *Mod) Mod {
-	n.Discourse = *n.Discourse.mod(m)
+	n.KI = *n.KI.mod(m)
 	return &n
 }
 
-- 
2.43.0


From 4f70b67cbdc1fcc3dbd11f9f45bbd4ad08c4ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 07/37] fix: a tone digit at the end of a syllable no longer
 panics

---
 ast/nodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/nodes.go b/ast/nodes.go
index 1c3c4cd..3ee2bae 100644
--- a/ast/nodes.go
+++ b/ast/nodes.go
@@ -131,6 +131,9 @@ func endParen(p Parenthetical, s *Mod, ki Word) *Parenthetical {
 // addTone swaps the first letter of des with its diacritic variant given the tone rune.
 func addTone(des, ton string) string {
 	t, _ := utf8.DecodeRuneInString(ton)
+	if '1' <= t && t <= '7' {
+		t = rune(`-/V?^\~`[t-'1'])
+	}
 	_, w := utf8.DecodeRuneInString(des)
 	return tone.Diacritic[t][des[:w]][0] + des[w:]
 }
-- 
2.43.0


From 8fe3ef97c3deefa7a23f1c963084701732115c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 08/37] fix: Equal is defined for CoP and LUPhrase nodes

---
 ast/equal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ast/equal.go b/ast/equal.go
index 4e36931..01b2be0 100644
--- a/ast/equal.go
+++ b/ast/equal.go
@@ -185,6 +185,14 @@ func Equal(a, b Node) bool {
 		b, ok := b.(*Space)
 		return ok && wordEqual((*Word)(a), (*Word)(b))
 
+	case *CoP:
+		b, ok := b.(*CoP)
+		return ok && copEqual(a, b)
+
+	case *LUPhrase:
+		b, ok := b.(*LUPhrase)
+		return ok && wordEqual(&a.LU, &b.LU) && Equal(a.Statement, b.Statement)
+
 	case *Word:
 		b, ok := b.(*Word)
 		return ok && wordEqual(a, b)
-- 
2.43.0


From c5c252639eb9e44bf8e1a3f961cfde49b79c426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 09/37] fix: variable words may begin with a capital letter

---
 logic/interp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index adb72be..19de062 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1155,7 +1155,7 @@ var oLetters, oTones = func() ([]rune, []rune) {
 // If the text does not begin with "do" in any tone,
 // then false is returned.
 func splitVar(txt string) (rune, string, bool) {
-	if len(txt) < 1 || txt[0] != 'd' || txt[0] == 'D' {
+	if len(txt) < 1 || txt[0] != 'd' && txt[0] != 'D' {
 		return tone.None, "", false
 	}
 	r, w := utf8.DecodeRuneInString(txt[1:])
-- 
2.43.0


From 92298be83509d8585ec4306f125ed1e69d4b659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:54 +0000
Subject: [PATCH 10/37] fix: the tone mark of a syllable ending in capital Q
 goes after the Q

---
 tone/tone.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tone/tone.go b/tone/tone.go
index ce1893b..add95ae 100644
--- a/tone/tone.go
+++ b/tone/tone.go
@@ -160,7 +160,7 @@ func ToASCII(txt string) string {
 			continue
 		}
 		if t != None {
-			if !strings.ContainsRune(vowels, r) && r != 'q' {
+			if !strings.ContainsRune(vowels, r) && r != 'q' && r != 'Q' {
 				s.WriteRune(t)
 				t = None
 			}
-- 
2.43.0


From 508e2c7e734abbd8e8ced537f9773d97e7b21b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:49 +0000
Subject: [PATCH 11/37] fix: dotted, dotless and capital i are the same letter
 in variable words

---
 logic/interp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/interp.go b/logic/interp.go
index 19de062..45acefb 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -1176,7 +1176,8 @@ func splitVar(txt string) (rune, string, bool) {
 			return tone.None, "", false
 		}
 	}
-	return oTones[i], strings.ToLower("do" + txt[w:]), true
+	v := strings.ToLower("do" + txt[w:])
+	return oTones[i], strings.Replace(v, "ı", "i", -1), true
 }
 
 func toString(node ast.Node) string {
-- 
2.43.0


From e9901f272a3af9bc9c4650a2183926af433199bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 12/37] fix: a predicate abstraction with a skipped argument is
 not reduced

---
 logic/simplify.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 514b385..76da592 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -209,10 +209,11 @@ func swap(s *state, n *Predication, swap *Swap) Statement {
 }
 
 func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
-	var nargs int
+	nargs := len(n.Arguments)
 	for _, a := range n.Arguments {
-		if a != nil {
-			nargs++
+		if a == nil {
+			// An argument was skipped; we cannot substitute it.
+			return nil
 		}
 	}
 	var nlambda int
-- 
2.43.0


From 5e1adc3a18a63263b1425d026f0ace2552128274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 13/37] fix: only an equation about the bound variable defines
 it

---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index 76da592..249a7a1 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -157,6 +157,10 @@ func sub(s *state, n *Binding) bool {
 			return false
 		}
 	}
+	if l.Def != n {
+		// The equation is about some other variable.
+		return false
+	}
 	if s.predVars[l.N] {
 		// This variable is used as a predicate; we cannot substitute it.
 		return false
-- 
2.43.0


From 85d0439decf0c04725a82eca1f5dd7b5b179c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 14/37] fix: a variable that appears in several places of a
 formula keeps one number

---
 logic/simplify.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/logic/simplify.go b/logic/simplify.go
index 249a7a1..16d3eb5 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -11,17 +11,26 @@ func simplify(n Statement) Statement {
 
 func sequenceVarNums(n Statement) {
 	var i int
+	// The same node can appear in several places of the formula;
+	// it is numbered only once.
+	seen := make(map[Node]bool)
+	number := func(n Node, N *int) {
+		if !seen[n] {
+			seen[n] = true
+			*N = i
+			i++
+		}
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
-			n.N = i
-			i++
+			number(n, &n.N)
 		case *Variable:
 			if n.Def != nil {
+				number(n.Def, &n.Def.N)
 				n.N = n.Def.N
 			} else {
-				n.N = i
-				i++
+				number(n, &n.N)
 			}
 		}
 	})
-- 
2.43.0


From 152c8bd9afaa7f6bde1d9a37dca018f4e2105f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 15/37] fix: formulas with an unused binding are printed with
 proper variable names

---
 logic/string.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/logic/string.go b/logic/string.go
index 218228e..bbab510 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -111,17 +111,27 @@ func print(pr *printer, n Node) error {
 	runes := make(map[string][]int)
 	seen := make(map[int]bool)
 	max := -1
-	n.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok || seen[v.N] {
+	see := func(N int, def *Binding) {
+		if seen[N] {
 			return
 		}
-		seen[v.N] = true
-		if v.N > max {
-			max = v.N
+		seen[N] = true
+		if N > max {
+			max = N
+		}
+		r := varRune(def)
+		runes[r] = append(runes[r], N)
+	}
+	n.Visit(func(n Node) {
+		if v, ok := n.(*Variable); ok {
+			see(v.N, v.Def)
+		}
+	})
+	// Bound, but never used.
+	n.Visit(func(n Node) {
+		if b, ok := n.(*Binding); ok {
+			see(b.N, b)
 		}
-		r := varRune(v)
-		runes[r] = append(runes[r], v.N)
 	})
 	if max >= len(seen) {
 		// The variable numbers aren't in sequence.
@@ -163,11 +173,11 @@ func print(pr *printer, n Node) error {
 	return err
 }
 
-func varRune(v *Variable) string {
-	if v.Def == nil {
+func varRune(def *Binding) string {
+	if def == nil {
 		return "U"
 	}
-	pred := leftPredication(v.Def.Restriction)
+	pred := leftPredication(def.Restriction)
 	if pred == nil {
 		return "X"
 	}
-- 
2.43.0


From 45cc12ee0618cf1503cc6cdc6c9296815df5bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 16/37] fix: a statement connected to a content or relative
 clause no longer panics

---
 logic/interp.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 45acefb..87b6f2b 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -391,8 +391,8 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	case *ast.CoPContent:
 		return &predConnection{
 			con:   connector(n.RU),
-			left:  interp.predicate(n.Left.(ast.Predicate)),
-			right: interp.predicate(n.Right.(ast.Predicate)),
+			left:  interp.contentPredicate(n.Left),
+			right: interp.contentPredicate(n.Right),
 			AST:   n,
 		}
 	case *ast.LUContent:
@@ -406,6 +406,16 @@ func (interp *interpreter) predicate(n ast.Predicate) interface{} {
 	}
 }
 
+// contentPredicate interprets one side of connected content clauses,
+// which is either a content clause or a statement.
+func (interp *interpreter) contentPredicate(n ast.Node) interface{} {
+	if p, ok := n.(ast.Predicate); ok {
+		return interp.predicate(p)
+	}
+	sub := interp.subordinateStatement(n.(ast.Statement))
+	return interp.makeContentPred(n, sub)
+}
+
 func (interp *interpreter) makeContentPred(n ast.Node, st Statement) Predicate {
 	equal := &Pred{Name: Equal, AST: n}
 	content := &Abstraction{Statement: st, AST: n}
@@ -952,8 +962,8 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	case *ast.CoPRelative:
 		return &Connection{
 			Connector: connector(n.RU),
-			Left:      interp.relativeClause(nil, n.Left.(ast.Relative)),
-			Right:     interp.relativeClause(nil, n.Right.(ast.Relative)),
+			Left:      interp.connectedRelative(n.Left),
+			Right:     interp.connectedRelative(n.Right),
 			AST:       n,
 		}
 	default:
@@ -961,6 +971,15 @@ func (interp *interpreter) relativeClause(b *Binding, n ast.Relative) Statement
 	}
 }
 
+// connectedRelative interprets one side of connected relative clauses,
+// which is either a relative clause or a statement.
+func (interp *interpreter) connectedRelative(n ast.Node) Statement {
+	if r, ok := n.(ast.Relative); ok {
+		return interp.relativeClause(nil, r)
+	}
+	return interp.subordinateStatement(n.(ast.Statement))
+}
+
 func (interp *interpreter) makePredication(pred ast.Predicate, args ...Argument) Statement {
 	var as arguments
 	for _, a := range args {
-- 
2.43.0


From a79c07de6cbdfd0631e396c1b696fe9873154d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 17/37] fix: only a description that depends on no enclosing
 binding is lifted to the top

---
 logic/interp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index 87b6f2b..c8194d4 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -595,7 +595,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 		return bindScope(b, st)
 	case ast.Preposition:
 		sub := interp.prenexStatement(args, n, terms[1:])
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			return interp.preposition(t, &statementTail{args, n, terms[1:]})
 		}
 		x := interp.newVar()
@@ -618,7 +618,7 @@ func (interp *interpreter) prenexStatement(args arguments, n *ast.PrenexStatemen
 			Arguments: []Argument{a},
 			AST:       t,
 		}
-		if hasFreeVars(sub) {
+		if interp.hasFreeVars(sub) {
 			b.Quantifier = All
 			return bindScope(b, interp.adverb(t, a))
 		}
@@ -833,7 +833,7 @@ func (interp *interpreter) predicateArgument(n *ast.PredicateArgument) (*Binding
 	}
 
 	if b.Quantifier == The {
-		if hasFreeVars(b) {
+		if interp.hasFreeVars(b) {
 			b.Quantifier = All
 			return b, a
 		}
@@ -1111,16 +1111,20 @@ func withTerm0(t ast.Term, ts ast.Terms) ast.Terms {
 	return ts[1:].Prepend(t)
 }
 
-// hasFreeVars returns whether a logic-sub-tree has un-bound variables.
-func hasFreeVars(n Node) bool {
+// hasFreeVars returns whether a logic-sub-tree has variables
+// that are bound neither within it nor at the top-most scope.
+func (interp *interpreter) hasFreeVars(n Node) bool {
 	free := false
 	binds := make(map[*Binding]bool)
+	for _, b := range interp.theScope {
+		binds[b] = true
+	}
 	n.Visit(func(n Node) {
 		switch n := n.(type) {
 		case *Binding:
 			binds[n] = true
 		case *Variable:
-			if n.Def != nil && n.Def.Quantifier != The && !binds[n.Def] {
+			if n.Def != nil && !binds[n.Def] {
 				free = true
 			}
 		}
-- 
2.43.0


From 01a9542d45f92d956be5a70faa6bab1a38fd3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 18/37] fix: a lifted hi-question keeps the variables it is not
 lifted over

---
 logic/interp.go | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/logic/interp.go b/logic/interp.go
index c8194d4..1ff8ee7 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -167,13 +167,10 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 
 	st := f()
 
-	scope := interp.varScope
 	hiScope := interp.hiScope[len(interp.hiScope)-1]
 	for i := len(hiScope) - 1; i >= 0; i-- {
-		hi := hiScope[i]
-		scope = append(scope, varScope{"", hi})
-		interp.clearHiFreeVarDefs(scope, hi)
-		st = bindScope(hi, st)
+		interp.clearHiFreeVarDefs(hiScope[:i], hiScope[i])
+		st = bindScope(hiScope[i], st)
 	}
 	return st
 }
@@ -181,20 +178,28 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 // clearHiFreeVarDefs clears the .Def field
 // and assigns a new, unique number
 // to all Variables over which the hi-binding was lifted.
-func (interp *interpreter) clearHiFreeVarDefs(scope []varScope, hi *Binding) {
-	hi.Visit(func(n Node) {
-		v, ok := n.(*Variable)
-		if !ok {
-			return
+// The outer argument contains the lifted hi-bindings
+// that will be in scope of this hi-binding.
+func (interp *interpreter) clearHiFreeVarDefs(outer []*Binding, hi *Binding) {
+	inScope := make(map[*Binding]bool)
+	for _, s := range interp.varScope {
+		inScope[s.def] = true
+	}
+	for _, bs := range [][]*Binding{interp.hoaScope, interp.theScope, outer} {
+		for _, b := range bs {
+			inScope[b] = true
 		}
-		for _, s := range scope {
-			if v.Def == s.def {
-				return
+	}
+	hi.Visit(func(n Node) {
+		switch n := n.(type) {
+		case *Binding:
+			inScope[n] = true
+		case *Variable:
+			if n.Def != nil && !inScope[n.Def] {
+				n.Def = nil
+				n.N = interp.newVar()
 			}
 		}
-		v.Def = nil
-		v.N = interp.n
-		interp.n++
 	})
 }
 
-- 
2.43.0


From bc4b1d2237ef3074bdf34f70f8c08f6322f4ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 19/37] fix: a clause interpreted once per branch binds its
 hi-questions in every branch

---
 logic/interp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index 1ff8ee7..cdd6f7f 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -171,6 +171,9 @@ func (interp *interpreter) subordinate(f func() Statement) Statement {
 	for i := len(hiScope) - 1; i >= 0; i-- {
 		interp.clearHiFreeVarDefs(hiScope[:i], hiScope[i])
 		st = bindScope(hiScope[i], st)
+		// It is out of scope from here on,
+		// so if this clause is interpreted again, it needs a new binding.
+		delete(interp.liftedScope, hiScope[i].AST.(ast.Argument))
 	}
 	return st
 }
-- 
2.43.0


From 42ad9cc5b11b6505fa91634906123a22a3291b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 20/37] fix: Load returns an error when the service omits the
 data or the error

---
 dict/dict.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/dict.go b/dict/dict.go
index 25e3946..9926928 100644
--- a/dict/dict.go
+++ b/dict/dict.go
@@ -3,6 +3,7 @@ package dict
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"net/http"
 	"strings"
@@ -41,8 +42,14 @@ func Load(url string, query string) (map[string]Word, error) {
 		return nil, err
 	}
 	if !response.Success {
+		if response.Error == nil {
+			return nil, errors.New("Toadua returned an unspecified error")
+		}
 		return nil, fmt.Errorf("Toadua returned error: %s", *response.Error)
 	}
+	if response.Entries == nil {
+		return nil, errors.New("Toadua returned no data")
+	}
 	entries := *response.Entries
 	ws := make(map[string]Word)
 	for _, e := range entries {
-- 
2.43.0


From f2415e666c2a859ab37cbac8d5dbedb0147f7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 21/37] fix: the server reports every failed interpretation as
 a bug

---
 server/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/server.go b/server/server.go
index bf6a6b7..3a4746a 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,7 +2,7 @@ package main
 
 import (
 	"encoding/json"
-	"errors"
+	"fmt"
 	"html/template"
 	"io/ioutil"
 	"net/http"
@@ -86,8 +86,8 @@ func rootHandler(w http.ResponseWriter, req *http.Request) {
 // on some things that are unimplemented.
 func safeInterp(text *ast.Text) (st logic.Statement, err error) {
 	defer func() {
-		if str, ok := recover().(string); ok {
-			err = errors.New("bug: " + str)
+		if r := recover(); r != nil {
+			err = fmt.Errorf("bug: %v", r)
 		}
 	}()
 	return logic.Interpret(text), nil
-- 
2.43.0


From d6c22fb97ca3a0a8ac5c1bab161405a42e86ebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:50 +0000
Subject: [PATCH 22/37] fix: the bot survives a message whose interpretation is
 unimplemented

---
 bot/bot.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bot/bot.go b/bot/bot.go
index 2bc85ea..89a0d68 100644
--- a/bot/bot.go
+++ b/bot/bot.go
@@ -79,14 +79,23 @@ func parse(input string) string {
 	if parse != "" {
 		parse += "\n"
 	}
-	var math string
+	return parse + interpret(text)
+}
+
+// interpret returns the interpretation of the text.
+// The interpreter should not panic, but currently it does
+// on some things that are unimplemented.
+func interpret(text *ast.Text) (math string) {
+	defer func() {
+		if r := recover(); r != nil {
+			math = fmt.Sprintf("bug: %v", r)
+		}
+	}()
 	stmt := logic.Interpret(text)
 	if stmt == nil {
-		math = "fragment"
-	} else {
-		math = logic.PrettyString(stmt)
+		return "fragment"
 	}
-	return parse + math
+	return logic.PrettyString(stmt)
 }
 
 func fixBridgeMessage(msg *chat.Message) {
-- 
2.43.0


From 039053da7cfbd736d5e8b2fbdc5a50d99b2f6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 23/37] fix: the definition of a variable used in a serial
 predicate is kept

---
 go.sum            |  4 ++++
 logic/simplify.go | 19 ++++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/go.sum b/go.sum
index 7adfe2f..d890762 100644
--- a/go.sum
+++ b/go.sum
@@ -1,7 +1,11 @@
 github.com/eaburns/peggy v0.0.0-20180405011029-d685ddd3cbcb h1:VNtdhXiCNFtQkeRwcS8XW2+gyxollG4Kc4wnHbzGpP8=
 github.com/eaburns/peggy v0.0.0-20180405011029-d685ddd3cbcb/go.mod h1:5tfPwI6ukiK3W5vJzkj5MBQKHHY9Gcy2y6k1FC/23Xk=
+github.com/eaburns/peggy v1.0.0 h1:cvZIO5GGq2Qy1l1Va0Mte6LFVTY6GtAGbzSvouFcjUk=
+github.com/eaburns/peggy v1.0.0/go.mod h1:X2pbl0EV5erfnK8kSGwo0lBCgMGokvR1E6KerAoDKXg=
 github.com/eaburns/pretty v0.0.0-20170305202417-362524b72369 h1:C/RhDONMNTxvyaQNWbxj2RAyHOGVYoq+kP5j9hdnYOk=
 github.com/eaburns/pretty v0.0.0-20170305202417-362524b72369/go.mod h1:iW/TU1T4mA4w2KzqNbBCjacPFdJ9PfGvNSxr8ajT/iM=
+github.com/eaburns/pretty v1.0.0 h1:00W1wrrtMXUSqLPN0txS8j7g9qFXy6nA5vZVqVQOo6w=
+github.com/eaburns/pretty v1.0.0/go.mod h1:retcK8A0KEgdmb0nuxhvyxixwCmEPO7SKlK0IJhjg8A=
 github.com/google/go-cmp v0.3.1 h1:Xye71clBPdm5HgqGwUkwhbynsUJZhDbS20FvLhQ2izg=
 github.com/google/go-cmp v0.3.1/go.mod h1:8QqcDgzrUqlUb/G2PQTWiueGozuR1884gddMywk6iLU=
 github.com/gorilla/websocket v1.4.1 h1:q7AeDBpnBk8AogcD4DSag/Ukw/KV+YhzLj2bP5HvKCM=
diff --git a/logic/simplify.go b/logic/simplify.go
index 16d3eb5..e75e521 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -120,15 +120,20 @@ func newState(n Statement) *state {
 		predVars: make(map[int]bool),
 	}
 	n.Visit(func(n Node) {
-		p, ok := n.(*Predication)
-		if !ok {
-			return
+		var preds []Predicate
+		switch n := n.(type) {
+		case *Predication:
+			preds = []Predicate{n.Predicate}
+		case *Serial:
+			preds = []Predicate{n.Left, n.Right}
+		case *Swap:
+			preds = []Predicate{n.Predicate}
 		}
-		v, ok := p.Predicate.(*Variable)
-		if !ok {
-			return
+		for _, p := range preds {
+			if v, ok := p.(*Variable); ok {
+				s.predVars[v.N] = true
+			}
 		}
-		s.predVars[v.N] = true
 	})
 	return s
 }
-- 
2.43.0


From 3ddf6f26fef1c81ba1c72a0041ae9ebc37eed19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 24/37] fix: an abstraction whose variable is used as a
 predicate is not reduced

---
 logic/simplify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/simplify.go b/logic/simplify.go
index e75e521..dbc89e2 100644
--- a/logic/simplify.go
+++ b/logic/simplify.go
@@ -237,6 +237,10 @@ func lambdaSub(s *state, n *Predication, pred *Abstraction) Statement {
 	var nlambda int
 	b, ok := pred.Statement.(*Binding)
 	for ok && b.Quantifier == Lambda && b.Restriction == nil {
+		if s.predVars[b.N] {
+			// This variable is used as a predicate; we cannot substitute it.
+			return nil
+		}
 		nlambda++
 		b, ok = b.Scope.(*Binding)
 	}
-- 
2.43.0


From da416c474827a35ed01b3586732ad96e09c6c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:00 +0000
Subject: [PATCH 25/37] fix: Visit does not call the visitor on absent terms

---
 ast/visit.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ast/visit.go b/ast/visit.go
index 435f0a3..8262c5a 100644
--- a/ast/visit.go
+++ b/ast/visit.go
@@ -33,8 +33,11 @@ func Visit(n Node, v Visitor) {
 	if n == nil {
 		return
 	}
-	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
-		return
+	switch v := reflect.ValueOf(n); v.Kind() {
+	case reflect.Ptr, reflect.Slice:
+		if v.IsNil() {
+			return
+		}
 	}
 	if v = v.Visit(n); v == nil {
 		return
-- 
2.43.0


From 582f89a52b988a1a0c074f1c3e29c33d2a36eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:04 +0000
Subject: [PATCH 26/37] fix: a text with an invalid byte is rejected, not cut
 short there

---
 ast/parser.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 2397106..66a988f 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -1,6 +1,11 @@
 package ast
 
-import "github.com/eaburns/peggy/peg"
+import (
+	"strings"
+	"unicode/utf8"
+
+	"github.com/eaburns/peggy/peg"
+)
 
 //go:generate peggy -o toaq.go toaq.peggy
 //go:generate peggy -pretty -o toaq.peg toaq.peggy
@@ -42,12 +47,34 @@ func byteOffset(fail *peg.Fail) int {
 type Parser struct {
 	// FilePath is a file path used for error reporting.
 	FilePath string
+	// src is the text as given to NewParser.
+	src string
 	*_Parser
 }
 
 // NewParser returns a new parser for a Toaq text.
 func NewParser(text string) *Parser {
-	return &Parser{_Parser: _NewParser(text)}
+	return &Parser{src: text, _Parser: _NewParser(maskInvalid(text))}
+}
+
+// maskInvalid returns the text with all bytes of each invalid UTF-8 sequence
+// or U+FFFD replaced by NUL, which is not part of any Toaq word or space.
+// Otherwise the generated parser would take them for the end of the text.
+func maskInvalid(text string) string {
+	if !strings.ContainsRune(text, utf8.RuneError) {
+		return text
+	}
+	masked := []byte(text)
+	for i, r := range text {
+		if r != utf8.RuneError {
+			continue
+		}
+		_, w := utf8.DecodeRuneInString(text[i:])
+		for j := i; j < i+w; j++ {
+			masked[j] = 0
+		}
+	}
+	return string(masked)
 }
 
 // Tree returns the full parse tree of the text.
@@ -106,6 +133,6 @@ func (p *Parser) parse(
 	p._Parser.fail = make(map[_key]*peg.Fail)
 	return &parseError{
 		fail: failTree,
-		err:  peg.SimpleError(p._Parser.text, failTree),
+		err:  peg.SimpleError(p.src, failTree),
 	}
 }
-- 
2.43.0


From 001efab6f4c21948a92f053ad98ba1c0fdfe4d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:00 +0000
Subject: [PATCH 27/37] fix: the left of a connected predicate in an argument
 is a predicate

---
 ast/toaq.go    | 243 +++++++++++++++++++------------------------------
 ast/toaq.peggy |   4 +-
 2 files changed, 98 insertions(+), 149 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 1a0a4d6..0770f57 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -9060,8 +9060,8 @@ func _arg_4Accepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 	}
 	pos, perr := start, -1
 	// action
-	// a:arg_5 s:_ rc:relative_clause?
-	// a:arg_5
+	// p:arg_5 s:_ rc:relative_clause?
+	// p:arg_5
 	{
 		pos1 := pos
 		// arg_5
@@ -9116,8 +9116,8 @@ func _arg_4Node(parser *_Parser, start int) (int, *peg.Node) {
 	pos := start
 	node = &peg.Node{Name: "arg_4"}
 	// action
-	// a:arg_5 s:_ rc:relative_clause?
-	// a:arg_5
+	// p:arg_5 s:_ rc:relative_clause?
+	// p:arg_5
 	{
 		pos1 := pos
 		// arg_5
@@ -9174,8 +9174,8 @@ func _arg_4Fail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 	}
 	key := _key{start: start, rule: _arg_4}
 	// action
-	// a:arg_5 s:_ rc:relative_clause?
-	// a:arg_5
+	// p:arg_5 s:_ rc:relative_clause?
+	// p:arg_5
 	{
 		pos1 := pos
 		// arg_5
@@ -9220,7 +9220,7 @@ fail:
 func _arg_4Action(parser *_Parser, start int) (int, *PredicateArgument) {
 	var labels [3]string
 	use(labels)
-	var label0 *PredicateArgument
+	var label0 Predicate
 	var label1 *Mod
 	var label2 *Relative
 	dp := parser.deltaPos[start][_arg_4]
@@ -9238,8 +9238,8 @@ func _arg_4Action(parser *_Parser, start int) (int, *PredicateArgument) {
 	// action
 	{
 		start0 := pos
-		// a:arg_5 s:_ rc:relative_clause?
-		// a:arg_5
+		// p:arg_5 s:_ rc:relative_clause?
+		// p:arg_5
 		{
 			pos2 := pos
 			// arg_5
@@ -9286,8 +9286,8 @@ func _arg_4Action(parser *_Parser, start int) (int, *PredicateArgument) {
 			labels[2] = parser.text[pos4:pos]
 		}
 		node = func(
-			start, end int, a *PredicateArgument, rc *Relative, s *Mod) PredicateArgument {
-			return PredicateArgument(argumentRelative(*a, s, rc))
+			start, end int, p Predicate, rc *Relative, s *Mod) PredicateArgument {
+			return PredicateArgument(argumentRelative(PredicateArgument{Predicate: p}, s, rc))
 		}(
 			start0, pos, label0, label2, label1)
 	}
@@ -9298,38 +9298,29 @@ fail:
 }
 
 func _arg_5Accepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
-	var labels [1]string
-	use(labels)
 	if dp, de, ok := _memo(parser, _arg_5, start); ok {
 		return dp, de
 	}
 	pos, perr := start, -1
-	// action
-	// p:(serial<arg_6>/arg_6)
+	// serial<arg_6>/arg_6
 	{
-		pos0 := pos
-		// (serial<arg_6>/arg_6)
-		// serial<arg_6>/arg_6
-		{
-			pos4 := pos
-			// serial<arg_6>
-			if !_accept(parser, _serial__arg_6Accepts, &pos, &perr) {
-				goto fail5
-			}
-			goto ok1
-		fail5:
-			pos = pos4
-			// arg_6
-			if !_accept(parser, _arg_6Accepts, &pos, &perr) {
-				goto fail6
-			}
-			goto ok1
-		fail6:
-			pos = pos4
-			goto fail
-		ok1:
+		pos3 := pos
+		// serial<arg_6>
+		if !_accept(parser, _serial__arg_6Accepts, &pos, &perr) {
+			goto fail4
 		}
-		labels[0] = parser.text[pos0:pos]
+		goto ok0
+	fail4:
+		pos = pos3
+		// arg_6
+		if !_accept(parser, _arg_6Accepts, &pos, &perr) {
+			goto fail5
+		}
+		goto ok0
+	fail5:
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	return _memoize(parser, _arg_5, start, pos, perr)
 fail:
@@ -9337,8 +9328,6 @@ fail:
 }
 
 func _arg_5Node(parser *_Parser, start int) (int, *peg.Node) {
-	var labels [1]string
-	use(labels)
 	dp := parser.deltaPos[start][_arg_5]
 	if dp < 0 {
 		return -1, nil
@@ -9350,41 +9339,28 @@ func _arg_5Node(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "arg_5"}
-	// action
-	// p:(serial<arg_6>/arg_6)
+	// serial<arg_6>/arg_6
 	{
-		pos0 := pos
-		// (serial<arg_6>/arg_6)
-		{
-			nkids1 := len(node.Kids)
-			pos02 := pos
-			// serial<arg_6>/arg_6
-			{
-				pos6 := pos
-				nkids4 := len(node.Kids)
-				// serial<arg_6>
-				if !_node(parser, _serial__arg_6Node, node, &pos) {
-					goto fail7
-				}
-				goto ok3
-			fail7:
-				node.Kids = node.Kids[:nkids4]
-				pos = pos6
-				// arg_6
-				if !_node(parser, _arg_6Node, node, &pos) {
-					goto fail8
-				}
-				goto ok3
-			fail8:
-				node.Kids = node.Kids[:nkids4]
-				pos = pos6
-				goto fail
-			ok3:
-			}
-			sub := _sub(parser, pos02, pos, node.Kids[nkids1:])
-			node.Kids = append(node.Kids[:nkids1], sub)
+		pos3 := pos
+		nkids1 := len(node.Kids)
+		// serial<arg_6>
+		if !_node(parser, _serial__arg_6Node, node, &pos) {
+			goto fail4
 		}
-		labels[0] = parser.text[pos0:pos]
+		goto ok0
+	fail4:
+		node.Kids = node.Kids[:nkids1]
+		pos = pos3
+		// arg_6
+		if !_node(parser, _arg_6Node, node, &pos) {
+			goto fail5
+		}
+		goto ok0
+	fail5:
+		node.Kids = node.Kids[:nkids1]
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -9394,8 +9370,6 @@ fail:
 }
 
 func _arg_5Fail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
-	var labels [1]string
-	use(labels)
 	pos, failure := _failMemo(parser, _arg_5, start, errPos)
 	if failure != nil {
 		return pos, failure
@@ -9405,32 +9379,25 @@ func _arg_5Fail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _arg_5}
-	// action
-	// p:(serial<arg_6>/arg_6)
+	// serial<arg_6>/arg_6
 	{
-		pos0 := pos
-		// (serial<arg_6>/arg_6)
-		// serial<arg_6>/arg_6
-		{
-			pos4 := pos
-			// serial<arg_6>
-			if !_fail(parser, _serial__arg_6Fail, errPos, failure, &pos) {
-				goto fail5
-			}
-			goto ok1
-		fail5:
-			pos = pos4
-			// arg_6
-			if !_fail(parser, _arg_6Fail, errPos, failure, &pos) {
-				goto fail6
-			}
-			goto ok1
-		fail6:
-			pos = pos4
-			goto fail
-		ok1:
+		pos3 := pos
+		// serial<arg_6>
+		if !_fail(parser, _serial__arg_6Fail, errPos, failure, &pos) {
+			goto fail4
 		}
-		labels[0] = parser.text[pos0:pos]
+		goto ok0
+	fail4:
+		pos = pos3
+		// arg_6
+		if !_fail(parser, _arg_6Fail, errPos, failure, &pos) {
+			goto fail5
+		}
+		goto ok0
+	fail5:
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -9439,10 +9406,7 @@ fail:
 	return -1, failure
 }
 
-func _arg_5Action(parser *_Parser, start int) (int, **PredicateArgument) {
-	var labels [1]string
-	use(labels)
-	var label0 Predicate
+func _arg_5Action(parser *_Parser, start int) (int, *Predicate) {
 	dp := parser.deltaPos[start][_arg_5]
 	if dp < 0 {
 		return -1, nil
@@ -9450,54 +9414,39 @@ func _arg_5Action(parser *_Parser, start int) (int, **PredicateArgument) {
 	key := _key{start: start, rule: _arg_5}
 	n := parser.act[key]
 	if n != nil {
-		n := n.(*PredicateArgument)
+		n := n.(Predicate)
 		return start + int(dp-1), &n
 	}
-	var node *PredicateArgument
+	var node Predicate
 	pos := start
-	// action
+	// serial<arg_6>/arg_6
 	{
-		start0 := pos
-		// p:(serial<arg_6>/arg_6)
-		{
-			pos1 := pos
-			// (serial<arg_6>/arg_6)
-			// serial<arg_6>/arg_6
-			{
-				pos5 := pos
-				var node4 Predicate
-				// serial<arg_6>
-				if p, n := _serial__arg_6Action(parser, pos); n == nil {
-					goto fail6
-				} else {
-					label0 = *n
-					pos = p
-				}
-				goto ok2
-			fail6:
-				label0 = node4
-				pos = pos5
-				// arg_6
-				if p, n := _arg_6Action(parser, pos); n == nil {
-					goto fail7
-				} else {
-					label0 = *n
-					pos = p
-				}
-				goto ok2
-			fail7:
-				label0 = node4
-				pos = pos5
-				goto fail
-			ok2:
-			}
-			labels[0] = parser.text[pos1:pos]
+		pos3 := pos
+		var node2 Predicate
+		// serial<arg_6>
+		if p, n := _serial__arg_6Action(parser, pos); n == nil {
+			goto fail4
+		} else {
+			node = *n
+			pos = p
 		}
-		node = func(
-			start, end int, p Predicate) *PredicateArgument {
-			return &PredicateArgument{Predicate: p}
-		}(
-			start0, pos, label0)
+		goto ok0
+	fail4:
+		node = node2
+		pos = pos3
+		// arg_6
+		if p, n := _arg_6Action(parser, pos); n == nil {
+			goto fail5
+		} else {
+			node = *n
+			pos = p
+		}
+		goto ok0
+	fail5:
+		node = node2
+		pos = pos3
+		goto fail
+	ok0:
 	}
 	parser.act[key] = node
 	return pos, &node
@@ -109728,7 +109677,7 @@ fail:
 func _forethought_cop_1__arg_5__predicateAction(parser *_Parser, start int) (int, *CoP) {
 	var labels [3]string
 	use(labels)
-	var label0 *PredicateArgument
+	var label0 Predicate
 	var label1 *Mod
 	var label2 CoP
 	dp := parser.deltaPos[start][_forethought_cop_1__arg_5__predicate]
@@ -109784,7 +109733,7 @@ func _forethought_cop_1__arg_5__predicateAction(parser *_Parser, start int) (int
 			labels[2] = parser.text[pos4:pos]
 		}
 		node = func(
-			start, end int, bar CoP, l *PredicateArgument, s *Mod) CoP {
+			start, end int, bar CoP, l Predicate, s *Mod) CoP {
 			return CoP(foreCoPLeft(l, s, bar))
 		}(
 			start0, pos, label2, label0, label1)
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 9ba1973..0ed01b9 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -136,9 +136,9 @@ arg_3 <-
 quantifier_spaces <-
 	q:quantifier s:_ { return Word(*q.mod(s)) }
 arg_4 <-
-	a:arg_5 s:_ rc:relative_clause? { return PredicateArgument(argumentRelative(*a, s, rc)) }
+	p:arg_5 s:_ rc:relative_clause? { return PredicateArgument(argumentRelative(PredicateArgument{Predicate: p}, s, rc)) }
 arg_5 <-
-	p:( serial<arg_6> / arg_6 ) { return &PredicateArgument{Predicate: p} }
+	serial<arg_6> / arg_6
 arg_6 <-
 	x0:content_clause { return Predicate(x0) } /
 	afterthought_cop_pred<arg_7> /
-- 
2.43.0


From 730d10e3086e57b04c49674ddde94691ea80055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:45 +0000
Subject: [PATCH 28/37] fix: the end of a requested word does not include the
 space after it

---
 ast/toaq.go    | 1096 +++++++++++++++++++++++++++---------------------
 ast/toaq.peggy |    5 +-
 2 files changed, 614 insertions(+), 487 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index 0770f57..f68347e 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -88,331 +88,332 @@ const (
 	_incidental                                                     int = 77
 	_vocative                                                       int = 78
 	_word                                                           int = 79
-	_non_function_word                                              int = 80
-	_neutral_function_word                                          int = 81
-	_toned_function_word                                            int = 82
-	_initial_syllable                                               int = 83
-	_focus                                                          int = 84
-	_end_quote                                                      int = 85
-	_end_predicatizer                                               int = 86
-	_end_statement                                                  int = 87
-	_sentence_prefix                                                int = 88
-	_end_prenex                                                     int = 89
-	_start_incidental                                               int = 90
-	_start_parenthetical                                            int = 91
-	_end_parenthetical                                              int = 92
-	_vocative_marker                                                int = 93
-	_linking_word                                                   int = 94
-	_connective                                                     int = 95
-	_illocutionary                                                  int = 96
-	_moq                                                            int = 97
-	_quantifier                                                     int = 98
-	_interjection                                                   int = 99
-	_forethought_marker                                             int = 100
-	_function_word                                                  int = 101
-	_BI                                                             int = 102
-	_DA                                                             int = 103
-	_MOQ                                                            int = 104
-	_GA                                                             int = 105
-	_GO                                                             int = 106
-	_BEI                                                            int = 107
-	_HU                                                             int = 108
-	_JU                                                             int = 109
-	_KU                                                             int = 110
-	_KI                                                             int = 111
-	_KIO                                                            int = 112
-	_KEO                                                            int = 113
-	_LU                                                             int = 114
-	_MI                                                             int = 115
-	_MO                                                             int = 116
-	_NA                                                             int = 117
-	_PO                                                             int = 118
-	_RA                                                             int = 119
-	_TU                                                             int = 120
-	_TO                                                             int = 121
-	_TEO                                                            int = 122
-	_neutral_syllable                                               int = 123
-	_moq_syllable                                                   int = 124
-	_compound_syllable                                              int = 125
-	_arg_syllable                                                   int = 126
-	_relative_syllable                                              int = 127
-	_verb_syllable                                                  int = 128
-	_content_syllable                                               int = 129
-	_preposition_syllable                                           int = 130
-	_adverb_syllable                                                int = 131
-	_boundary                                                       int = 132
-	_initial                                                        int = 133
-	_neutral_desinence                                              int = 134
-	_compound_desinence                                             int = 135
-	_arg_desinence                                                  int = 136
-	_relative_desinence                                             int = 137
-	_verb_desinence                                                 int = 138
-	_content_desinence                                              int = 139
-	_preposition_desinence                                          int = 140
-	_adverb_desinence                                               int = 141
-	_tone                                                           int = 142
-	_A                                                              int = 143
-	_U                                                              int = 144
-	_I                                                              int = 145
-	_O                                                              int = 146
-	_E                                                              int = 147
-	_ā                                                              int = 148
-	_ū                                                              int = 149
-	_ī                                                              int = 150
-	_ō                                                              int = 151
-	_ē                                                              int = 152
-	_macron_combiner                                                int = 153
-	_compound_tone                                                  int = 154
-	_á                                                              int = 155
-	_ú                                                              int = 156
-	_í                                                              int = 157
-	_ó                                                              int = 158
-	_é                                                              int = 159
-	_acute_combiner                                                 int = 160
-	_arg_tone                                                       int = 161
-	_ǎ                                                              int = 162
-	_ǔ                                                              int = 163
-	_ǐ                                                              int = 164
-	_ǒ                                                              int = 165
-	_ě                                                              int = 166
-	_caron_combiner                                                 int = 167
-	_breve_combiner                                                 int = 168
-	_relative_tone                                                  int = 169
-	_ả                                                              int = 170
-	_ủ                                                              int = 171
-	_ỉ                                                              int = 172
-	_ỏ                                                              int = 173
-	_ẻ                                                              int = 174
-	_hook_combiner                                                  int = 175
-	_verb_tone                                                      int = 176
-	_â                                                              int = 177
-	_û                                                              int = 178
-	_î                                                              int = 179
-	_ô                                                              int = 180
-	_ê                                                              int = 181
-	_circumflex_combiner                                            int = 182
-	_content_tone                                                   int = 183
-	_à                                                              int = 184
-	_ù                                                              int = 185
-	_ì                                                              int = 186
-	_ò                                                              int = 187
-	_è                                                              int = 188
-	_grave_combiner                                                 int = 189
-	_preposition_tone                                               int = 190
-	_ã                                                              int = 191
-	_ũ                                                              int = 192
-	_ĩ                                                              int = 193
-	_õ                                                              int = 194
-	_ẽ                                                              int = 195
-	_tilde_combiner                                                 int = 196
-	_adverb_tone                                                    int = 197
-	_a                                                              int = 198
-	_b                                                              int = 199
-	_c                                                              int = 200
-	_d                                                              int = 201
-	_e                                                              int = 202
-	_f                                                              int = 203
-	_g                                                              int = 204
-	_h                                                              int = 205
-	_i                                                              int = 206
-	_j                                                              int = 207
-	_k                                                              int = 208
-	_l                                                              int = 209
-	_m                                                              int = 210
-	_n                                                              int = 211
-	_o                                                              int = 212
-	_p                                                              int = 213
-	_q                                                              int = 214
-	_r                                                              int = 215
-	_s                                                              int = 216
-	_t                                                              int = 217
-	_u                                                              int = 218
-	_w                                                              int = 219
-	_y                                                              int = 220
-	_space                                                          int = 221
-	_punctuation                                                    int = 222
-	_questions                                                      int = 223
-	_EOF                                                            int = 224
-	_afterthought_cop__relative_clause_1__relative_clause           int = 225
-	_afterthought_cop__sentence_1__sentence                         int = 226
-	_forethought_cop__sentence__sentence                            int = 227
-	_afterthought_cop__statement_2__statement                       int = 228
-	_forethought_cop__statement__statement                          int = 229
-	_afterthought_cop__predicate_2__predicate_1                     int = 230
-	_forethought_cop_pred__predicate                                int = 231
-	_LU_predicate__verb_syllable                                    int = 232
-	_MI_phrase__verb_syllable                                       int = 233
-	_PO_phrase__verb_syllable                                       int = 234
-	_MO_phrase__verb_syllable                                       int = 235
-	_predicate_word__verb_syllable                                  int = 236
-	_serial__predicate_1                                            int = 237
-	_forethought_cop__terms_V__terms_V                              int = 238
-	_forethought_cop__terms_IV__terms_IV                            int = 239
-	_forethought_cop__terms_III__terms_III                          int = 240
-	_forethought_cop__terms_II__terms_II                            int = 241
-	_afterthought_cop__arg_1__argument                              int = 242
-	_forethought_cop__argument__argument                            int = 243
-	_serial__arg_6                                                  int = 244
-	_afterthought_cop_pred__arg_7                                   int = 245
-	_forethought_cop_pred__arg_5                                    int = 246
-	_LU_predicate__arg_syllable                                     int = 247
-	_MI_phrase__arg_syllable                                        int = 248
-	_PO_phrase__arg_syllable                                        int = 249
-	_MO_phrase__arg_syllable                                        int = 250
-	_predicate_word__arg_syllable                                   int = 251
-	_LU_phrase__relative_syllable                                   int = 252
-	_forethought_cop__relative_clause__relative_clause              int = 253
-	_afterthought_cop__relative_clause_3__statement                 int = 254
-	_serial__relative_predicate_1                                   int = 255
-	_afterthought_cop_pred__relative_predicate_2                    int = 256
-	_forethought_cop_pred__relative_predicate                       int = 257
-	_MI_phrase__relative_syllable                                   int = 258
-	_PO_phrase__relative_syllable                                   int = 259
-	_MO_phrase__relative_syllable                                   int = 260
-	_predicate_word__relative_syllable                              int = 261
-	_afterthought_cop__adverb_1__adverb                             int = 262
-	_forethought_cop__adverb__adverb                                int = 263
-	_serial__adverb_3                                               int = 264
-	_afterthought_cop_pred__adverb_4                                int = 265
-	_forethought_cop_pred__adverb_3                                 int = 266
-	_LU_predicate__adverb_syllable                                  int = 267
-	_MI_phrase__adverb_syllable                                     int = 268
-	_PO_phrase__adverb_syllable                                     int = 269
-	_MO_phrase__adverb_syllable                                     int = 270
-	_predicate_word__adverb_syllable                                int = 271
-	_afterthought_cop__prepositional_phrase_1__prepositional_phrase int = 272
-	_forethought_cop__prepositional_phrase__prepositional_phrase    int = 273
-	_afterthought_cop__preposition_1__preposition                   int = 274
-	_forethought_cop__preposition__preposition                      int = 275
-	_serial__preposition_3                                          int = 276
-	_afterthought_cop_pred__preposition_4                           int = 277
-	_forethought_cop_pred__preposition                              int = 278
-	_LU_predicate__preposition_syllable                             int = 279
-	_MI_phrase__preposition_syllable                                int = 280
-	_PO_phrase__preposition_syllable                                int = 281
-	_MO_phrase__preposition_syllable                                int = 282
-	_predicate_word__preposition_syllable                           int = 283
-	_afterthought_cop__content_clause_1__statement                  int = 284
-	_LU_phrase__content_syllable                                    int = 285
-	_serial__content_predicate_1                                    int = 286
-	_afterthought_cop_pred__content_predicate_2                     int = 287
-	_forethought_cop_pred__content_predicate_2                      int = 288
-	_MI_phrase__content_syllable                                    int = 289
-	_PO_phrase__content_syllable                                    int = 290
-	_MO_phrase__content_syllable                                    int = 291
-	_predicate_word__content_syllable                               int = 292
-	_syllable__compound_desinence__compound_tone                    int = 293
-	_syllable__arg_desinence__arg_tone                              int = 294
-	_syllable__relative_desinence__relative_tone                    int = 295
-	_syllable__verb_desinence__verb_tone                            int = 296
-	_syllable__content_desinence__content_tone                      int = 297
-	_syllable__preposition_desinence__preposition_tone              int = 298
-	_syllable__adverb_desinence__adverb_tone                        int = 299
-	_desinence__a__u__i__o__e                                       int = 300
-	_desinence__ā__ū__ī__ō__ē                                       int = 301
-	_desinence__á__ú__í__ó__é                                       int = 302
-	_desinence__ǎ__ǔ__ǐ__ǒ__ě                                       int = 303
-	_desinence__ả__ủ__ỉ__ỏ__ẻ                                       int = 304
-	_desinence__â__û__î__ô__ê                                       int = 305
-	_desinence__à__ù__ì__ò__è                                       int = 306
-	_desinence__ã__ũ__ĩ__õ__ẽ                                       int = 307
-	_cop_bar__relative_clause                                       int = 308
-	_cop_bar__sentence                                              int = 309
-	_forethought_cop_1__sentence__sentence                          int = 310
-	_cop_bar__statement                                             int = 311
-	_forethought_cop_1__statement__statement                        int = 312
-	_cop_bar__predicate_1                                           int = 313
-	_forethought_cop__predicate__predicate                          int = 314
-	_LU_phrase__verb_syllable                                       int = 315
-	_MI_phrase_1__verb_syllable                                     int = 316
-	_PO_phrase_1__verb_syllable                                     int = 317
-	_MO_phrase_1__verb_syllable                                     int = 318
-	_forethought_cop_1__terms_V__terms_V                            int = 319
-	_forethought_cop_1__terms_IV__terms_IV                          int = 320
-	_forethought_cop_1__terms_III__terms_III                        int = 321
-	_forethought_cop_1__terms_II__terms_II                          int = 322
-	_cop_bar__argument                                              int = 323
-	_forethought_cop_1__argument__argument                          int = 324
-	_afterthought_cop__arg_7__predicate                             int = 325
-	_forethought_cop__arg_5__predicate                              int = 326
-	_LU_phrase__arg_syllable                                        int = 327
-	_MI_phrase_1__arg_syllable                                      int = 328
-	_PO_phrase_1__arg_syllable                                      int = 329
-	_MO_phrase_1__arg_syllable                                      int = 330
-	_LU_word__relative_syllable                                     int = 331
-	_forethought_cop_1__relative_clause__relative_clause            int = 332
-	_afterthought_cop__relative_predicate_2__predicate              int = 333
-	_forethought_cop__relative_predicate__predicate                 int = 334
-	_MI_phrase_1__relative_syllable                                 int = 335
-	_PO_phrase_1__relative_syllable                                 int = 336
-	_MO_phrase_1__relative_syllable                                 int = 337
-	_cop_bar__adverb                                                int = 338
-	_forethought_cop_1__adverb__adverb                              int = 339
-	_afterthought_cop__adverb_4__predicate                          int = 340
-	_forethought_cop__adverb_3__predicate                           int = 341
-	_LU_phrase__adverb_syllable                                     int = 342
-	_MI_phrase_1__adverb_syllable                                   int = 343
-	_PO_phrase_1__adverb_syllable                                   int = 344
-	_MO_phrase_1__adverb_syllable                                   int = 345
-	_cop_bar__prepositional_phrase                                  int = 346
-	_forethought_cop_1__prepositional_phrase__prepositional_phrase  int = 347
-	_cop_bar__preposition                                           int = 348
-	_forethought_cop_1__preposition__preposition                    int = 349
-	_afterthought_cop__preposition_4__predicate                     int = 350
-	_forethought_cop__preposition__predicate                        int = 351
-	_LU_phrase__preposition_syllable                                int = 352
-	_MI_phrase_1__preposition_syllable                              int = 353
-	_PO_phrase_1__preposition_syllable                              int = 354
-	_MO_phrase_1__preposition_syllable                              int = 355
-	_LU_word__content_syllable                                      int = 356
-	_afterthought_cop__content_predicate_2__predicate               int = 357
-	_forethought_cop__content_predicate_2__predicate                int = 358
-	_MI_phrase_1__content_syllable                                  int = 359
-	_PO_phrase_1__content_syllable                                  int = 360
-	_MO_phrase_1__content_syllable                                  int = 361
-	_forethought_cop_bar__sentence                                  int = 362
-	_forethought_cop_bar__statement                                 int = 363
-	_forethought_cop_1__predicate__predicate                        int = 364
-	_LU_word__verb_syllable                                         int = 365
-	_MI_word__verb_syllable                                         int = 366
-	_PO_word__verb_syllable                                         int = 367
-	_MO_word__verb_syllable                                         int = 368
-	_forethought_cop_bar__terms_V                                   int = 369
-	_forethought_cop_bar__terms_IV                                  int = 370
-	_forethought_cop_bar__terms_III                                 int = 371
-	_forethought_cop_bar__terms_II                                  int = 372
-	_forethought_cop_bar__argument                                  int = 373
-	_cop_bar__predicate                                             int = 374
-	_forethought_cop_1__arg_5__predicate                            int = 375
-	_LU_word__arg_syllable                                          int = 376
-	_MI_word__arg_syllable                                          int = 377
-	_PO_word__arg_syllable                                          int = 378
-	_MO_word__arg_syllable                                          int = 379
-	_forethought_cop_bar__relative_clause                           int = 380
-	_forethought_cop_1__relative_predicate__predicate               int = 381
-	_MI_word__relative_syllable                                     int = 382
-	_PO_word__relative_syllable                                     int = 383
-	_MO_word__relative_syllable                                     int = 384
-	_forethought_cop_bar__adverb                                    int = 385
-	_forethought_cop_1__adverb_3__predicate                         int = 386
-	_LU_word__adverb_syllable                                       int = 387
-	_MI_word__adverb_syllable                                       int = 388
-	_PO_word__adverb_syllable                                       int = 389
-	_MO_word__adverb_syllable                                       int = 390
-	_forethought_cop_bar__prepositional_phrase                      int = 391
-	_forethought_cop_bar__preposition                               int = 392
-	_forethought_cop_1__preposition__predicate                      int = 393
-	_LU_word__preposition_syllable                                  int = 394
-	_MI_word__preposition_syllable                                  int = 395
-	_PO_word__preposition_syllable                                  int = 396
-	_MO_word__preposition_syllable                                  int = 397
-	_forethought_cop_1__content_predicate_2__predicate              int = 398
-	_MI_word__content_syllable                                      int = 399
-	_PO_word__content_syllable                                      int = 400
-	_MO_word__content_syllable                                      int = 401
-	_forethought_cop_bar__predicate                                 int = 402
-
-	_N int = 403
+	_word_1                                                         int = 80
+	_non_function_word                                              int = 81
+	_neutral_function_word                                          int = 82
+	_toned_function_word                                            int = 83
+	_initial_syllable                                               int = 84
+	_focus                                                          int = 85
+	_end_quote                                                      int = 86
+	_end_predicatizer                                               int = 87
+	_end_statement                                                  int = 88
+	_sentence_prefix                                                int = 89
+	_end_prenex                                                     int = 90
+	_start_incidental                                               int = 91
+	_start_parenthetical                                            int = 92
+	_end_parenthetical                                              int = 93
+	_vocative_marker                                                int = 94
+	_linking_word                                                   int = 95
+	_connective                                                     int = 96
+	_illocutionary                                                  int = 97
+	_moq                                                            int = 98
+	_quantifier                                                     int = 99
+	_interjection                                                   int = 100
+	_forethought_marker                                             int = 101
+	_function_word                                                  int = 102
+	_BI                                                             int = 103
+	_DA                                                             int = 104
+	_MOQ                                                            int = 105
+	_GA                                                             int = 106
+	_GO                                                             int = 107
+	_BEI                                                            int = 108
+	_HU                                                             int = 109
+	_JU                                                             int = 110
+	_KU                                                             int = 111
+	_KI                                                             int = 112
+	_KIO                                                            int = 113
+	_KEO                                                            int = 114
+	_LU                                                             int = 115
+	_MI                                                             int = 116
+	_MO                                                             int = 117
+	_NA                                                             int = 118
+	_PO                                                             int = 119
+	_RA                                                             int = 120
+	_TU                                                             int = 121
+	_TO                                                             int = 122
+	_TEO                                                            int = 123
+	_neutral_syllable                                               int = 124
+	_moq_syllable                                                   int = 125
+	_compound_syllable                                              int = 126
+	_arg_syllable                                                   int = 127
+	_relative_syllable                                              int = 128
+	_verb_syllable                                                  int = 129
+	_content_syllable                                               int = 130
+	_preposition_syllable                                           int = 131
+	_adverb_syllable                                                int = 132
+	_boundary                                                       int = 133
+	_initial                                                        int = 134
+	_neutral_desinence                                              int = 135
+	_compound_desinence                                             int = 136
+	_arg_desinence                                                  int = 137
+	_relative_desinence                                             int = 138
+	_verb_desinence                                                 int = 139
+	_content_desinence                                              int = 140
+	_preposition_desinence                                          int = 141
+	_adverb_desinence                                               int = 142
+	_tone                                                           int = 143
+	_A                                                              int = 144
+	_U                                                              int = 145
+	_I                                                              int = 146
+	_O                                                              int = 147
+	_E                                                              int = 148
+	_ā                                                              int = 149
+	_ū                                                              int = 150
+	_ī                                                              int = 151
+	_ō                                                              int = 152
+	_ē                                                              int = 153
+	_macron_combiner                                                int = 154
+	_compound_tone                                                  int = 155
+	_á                                                              int = 156
+	_ú                                                              int = 157
+	_í                                                              int = 158
+	_ó                                                              int = 159
+	_é                                                              int = 160
+	_acute_combiner                                                 int = 161
+	_arg_tone                                                       int = 162
+	_ǎ                                                              int = 163
+	_ǔ                                                              int = 164
+	_ǐ                                                              int = 165
+	_ǒ                                                              int = 166
+	_ě                                                              int = 167
+	_caron_combiner                                                 int = 168
+	_breve_combiner                                                 int = 169
+	_relative_tone                                                  int = 170
+	_ả                                                              int = 171
+	_ủ                                                              int = 172
+	_ỉ                                                              int = 173
+	_ỏ                                                              int = 174
+	_ẻ                                                              int = 175
+	_hook_combiner                                                  int = 176
+	_verb_tone                                                      int = 177
+	_â                                                              int = 178
+	_û                                                              int = 179
+	_î                                                              int = 180
+	_ô                                                              int = 181
+	_ê                                                              int = 182
+	_circumflex_combiner                                            int = 183
+	_content_tone                                                   int = 184
+	_à                                                              int = 185
+	_ù                                                              int = 186
+	_ì                                                              int = 187
+	_ò                                                              int = 188
+	_è                                                              int = 189
+	_grave_combiner                                                 int = 190
+	_preposition_tone                                               int = 191
+	_ã                                                              int = 192
+	_ũ                                                              int = 193
+	_ĩ                                                              int = 194
+	_õ                                                              int = 195
+	_ẽ                                                              int = 196
+	_tilde_combiner                                                 int = 197
+	_adverb_tone                                                    int = 198
+	_a                                                              int = 199
+	_b                                                              int = 200
+	_c                                                              int = 201
+	_d                                                              int = 202
+	_e                                                              int = 203
+	_f                                                              int = 204
+	_g                                                              int = 205
+	_h                                                              int = 206
+	_i                                                              int = 207
+	_j                                                              int = 208
+	_k                                                              int = 209
+	_l                                                              int = 210
+	_m                                                              int = 211
+	_n                                                              int = 212
+	_o                                                              int = 213
+	_p                                                              int = 214
+	_q                                                              int = 215
+	_r                                                              int = 216
+	_s                                                              int = 217
+	_t                                                              int = 218
+	_u                                                              int = 219
+	_w                                                              int = 220
+	_y                                                              int = 221
+	_space                                                          int = 222
+	_punctuation                                                    int = 223
+	_questions                                                      int = 224
+	_EOF                                                            int = 225
+	_afterthought_cop__relative_clause_1__relative_clause           int = 226
+	_afterthought_cop__sentence_1__sentence                         int = 227
+	_forethought_cop__sentence__sentence                            int = 228
+	_afterthought_cop__statement_2__statement                       int = 229
+	_forethought_cop__statement__statement                          int = 230
+	_afterthought_cop__predicate_2__predicate_1                     int = 231
+	_forethought_cop_pred__predicate                                int = 232
+	_LU_predicate__verb_syllable                                    int = 233
+	_MI_phrase__verb_syllable                                       int = 234
+	_PO_phrase__verb_syllable                                       int = 235
+	_MO_phrase__verb_syllable                                       int = 236
+	_predicate_word__verb_syllable                                  int = 237
+	_serial__predicate_1                                            int = 238
+	_forethought_cop__terms_V__terms_V                              int = 239
+	_forethought_cop__terms_IV__terms_IV                            int = 240
+	_forethought_cop__terms_III__terms_III                          int = 241
+	_forethought_cop__terms_II__terms_II                            int = 242
+	_afterthought_cop__arg_1__argument                              int = 243
+	_forethought_cop__argument__argument                            int = 244
+	_serial__arg_6                                                  int = 245
+	_afterthought_cop_pred__arg_7                                   int = 246
+	_forethought_cop_pred__arg_5                                    int = 247
+	_LU_predicate__arg_syllable                                     int = 248
+	_MI_phrase__arg_syllable                                        int = 249
+	_PO_phrase__arg_syllable                                        int = 250
+	_MO_phrase__arg_syllable                                        int = 251
+	_predicate_word__arg_syllable                                   int = 252
+	_LU_phrase__relative_syllable                                   int = 253
+	_forethought_cop__relative_clause__relative_clause              int = 254
+	_afterthought_cop__relative_clause_3__statement                 int = 255
+	_serial__relative_predicate_1                                   int = 256
+	_afterthought_cop_pred__relative_predicate_2                    int = 257
+	_forethought_cop_pred__relative_predicate                       int = 258
+	_MI_phrase__relative_syllable                                   int = 259
+	_PO_phrase__relative_syllable                                   int = 260
+	_MO_phrase__relative_syllable                                   int = 261
+	_predicate_word__relative_syllable                              int = 262
+	_afterthought_cop__adverb_1__adverb                             int = 263
+	_forethought_cop__adverb__adverb                                int = 264
+	_serial__adverb_3                                               int = 265
+	_afterthought_cop_pred__adverb_4                                int = 266
+	_forethought_cop_pred__adverb_3                                 int = 267
+	_LU_predicate__adverb_syllable                                  int = 268
+	_MI_phrase__adverb_syllable                                     int = 269
+	_PO_phrase__adverb_syllable                                     int = 270
+	_MO_phrase__adverb_syllable                                     int = 271
+	_predicate_word__adverb_syllable                                int = 272
+	_afterthought_cop__prepositional_phrase_1__prepositional_phrase int = 273
+	_forethought_cop__prepositional_phrase__prepositional_phrase    int = 274
+	_afterthought_cop__preposition_1__preposition                   int = 275
+	_forethought_cop__preposition__preposition                      int = 276
+	_serial__preposition_3                                          int = 277
+	_afterthought_cop_pred__preposition_4                           int = 278
+	_forethought_cop_pred__preposition                              int = 279
+	_LU_predicate__preposition_syllable                             int = 280
+	_MI_phrase__preposition_syllable                                int = 281
+	_PO_phrase__preposition_syllable                                int = 282
+	_MO_phrase__preposition_syllable                                int = 283
+	_predicate_word__preposition_syllable                           int = 284
+	_afterthought_cop__content_clause_1__statement                  int = 285
+	_LU_phrase__content_syllable                                    int = 286
+	_serial__content_predicate_1                                    int = 287
+	_afterthought_cop_pred__content_predicate_2                     int = 288
+	_forethought_cop_pred__content_predicate_2                      int = 289
+	_MI_phrase__content_syllable                                    int = 290
+	_PO_phrase__content_syllable                                    int = 291
+	_MO_phrase__content_syllable                                    int = 292
+	_predicate_word__content_syllable                               int = 293
+	_syllable__compound_desinence__compound_tone                    int = 294
+	_syllable__arg_desinence__arg_tone                              int = 295
+	_syllable__relative_desinence__relative_tone                    int = 296
+	_syllable__verb_desinence__verb_tone                            int = 297
+	_syllable__content_desinence__content_tone                      int = 298
+	_syllable__preposition_desinence__preposition_tone              int = 299
+	_syllable__adverb_desinence__adverb_tone                        int = 300
+	_desinence__a__u__i__o__e                                       int = 301
+	_desinence__ā__ū__ī__ō__ē                                       int = 302
+	_desinence__á__ú__í__ó__é                                       int = 303
+	_desinence__ǎ__ǔ__ǐ__ǒ__ě                                       int = 304
+	_desinence__ả__ủ__ỉ__ỏ__ẻ                                       int = 305
+	_desinence__â__û__î__ô__ê                                       int = 306
+	_desinence__à__ù__ì__ò__è                                       int = 307
+	_desinence__ã__ũ__ĩ__õ__ẽ                                       int = 308
+	_cop_bar__relative_clause                                       int = 309
+	_cop_bar__sentence                                              int = 310
+	_forethought_cop_1__sentence__sentence                          int = 311
+	_cop_bar__statement                                             int = 312
+	_forethought_cop_1__statement__statement                        int = 313
+	_cop_bar__predicate_1                                           int = 314
+	_forethought_cop__predicate__predicate                          int = 315
+	_LU_phrase__verb_syllable                                       int = 316
+	_MI_phrase_1__verb_syllable                                     int = 317
+	_PO_phrase_1__verb_syllable                                     int = 318
+	_MO_phrase_1__verb_syllable                                     int = 319
+	_forethought_cop_1__terms_V__terms_V                            int = 320
+	_forethought_cop_1__terms_IV__terms_IV                          int = 321
+	_forethought_cop_1__terms_III__terms_III                        int = 322
+	_forethought_cop_1__terms_II__terms_II                          int = 323
+	_cop_bar__argument                                              int = 324
+	_forethought_cop_1__argument__argument                          int = 325
+	_afterthought_cop__arg_7__predicate                             int = 326
+	_forethought_cop__arg_5__predicate                              int = 327
+	_LU_phrase__arg_syllable                                        int = 328
+	_MI_phrase_1__arg_syllable                                      int = 329
+	_PO_phrase_1__arg_syllable                                      int = 330
+	_MO_phrase_1__arg_syllable                                      int = 331
+	_LU_word__relative_syllable                                     int = 332
+	_forethought_cop_1__relative_clause__relative_clause            int = 333
+	_afterthought_cop__relative_predicate_2__predicate              int = 334
+	_forethought_cop__relative_predicate__predicate                 int = 335
+	_MI_phrase_1__relative_syllable                                 int = 336
+	_PO_phrase_1__relative_syllable                                 int = 337
+	_MO_phrase_1__relative_syllable                                 int = 338
+	_cop_bar__adverb                                                int = 339
+	_forethought_cop_1__adverb__adverb                              int = 340
+	_afterthought_cop__adverb_4__predicate                          int = 341
+	_forethought_cop__adverb_3__predicate                           int = 342
+	_LU_phrase__adverb_syllable                                     int = 343
+	_MI_phrase_1__adverb_syllable                                   int = 344
+	_PO_phrase_1__adverb_syllable                                   int = 345
+	_MO_phrase_1__adverb_syllable                                   int = 346
+	_cop_bar__prepositional_phrase                                  int = 347
+	_forethought_cop_1__prepositional_phrase__prepositional_phrase  int = 348
+	_cop_bar__preposition                                           int = 349
+	_forethought_cop_1__preposition__preposition                    int = 350
+	_afterthought_cop__preposition_4__predicate                     int = 351
+	_forethought_cop__preposition__predicate                        int = 352
+	_LU_phrase__preposition_syllable                                int = 353
+	_MI_phrase_1__preposition_syllable                              int = 354
+	_PO_phrase_1__preposition_syllable                              int = 355
+	_MO_phrase_1__preposition_syllable                              int = 356
+	_LU_word__content_syllable                                      int = 357
+	_afterthought_cop__content_predicate_2__predicate               int = 358
+	_forethought_cop__content_predicate_2__predicate                int = 359
+	_MI_phrase_1__content_syllable                                  int = 360
+	_PO_phrase_1__content_syllable                                  int = 361
+	_MO_phrase_1__content_syllable                                  int = 362
+	_forethought_cop_bar__sentence                                  int = 363
+	_forethought_cop_bar__statement                                 int = 364
+	_forethought_cop_1__predicate__predicate                        int = 365
+	_LU_word__verb_syllable                                         int = 366
+	_MI_word__verb_syllable                                         int = 367
+	_PO_word__verb_syllable                                         int = 368
+	_MO_word__verb_syllable                                         int = 369
+	_forethought_cop_bar__terms_V                                   int = 370
+	_forethought_cop_bar__terms_IV                                  int = 371
+	_forethought_cop_bar__terms_III                                 int = 372
+	_forethought_cop_bar__terms_II                                  int = 373
+	_forethought_cop_bar__argument                                  int = 374
+	_cop_bar__predicate                                             int = 375
+	_forethought_cop_1__arg_5__predicate                            int = 376
+	_LU_word__arg_syllable                                          int = 377
+	_MI_word__arg_syllable                                          int = 378
+	_PO_word__arg_syllable                                          int = 379
+	_MO_word__arg_syllable                                          int = 380
+	_forethought_cop_bar__relative_clause                           int = 381
+	_forethought_cop_1__relative_predicate__predicate               int = 382
+	_MI_word__relative_syllable                                     int = 383
+	_PO_word__relative_syllable                                     int = 384
+	_MO_word__relative_syllable                                     int = 385
+	_forethought_cop_bar__adverb                                    int = 386
+	_forethought_cop_1__adverb_3__predicate                         int = 387
+	_LU_word__adverb_syllable                                       int = 388
+	_MI_word__adverb_syllable                                       int = 389
+	_PO_word__adverb_syllable                                       int = 390
+	_MO_word__adverb_syllable                                       int = 391
+	_forethought_cop_bar__prepositional_phrase                      int = 392
+	_forethought_cop_bar__preposition                               int = 393
+	_forethought_cop_1__preposition__predicate                      int = 394
+	_LU_word__preposition_syllable                                  int = 395
+	_MI_word__preposition_syllable                                  int = 396
+	_PO_word__preposition_syllable                                  int = 397
+	_MO_word__preposition_syllable                                  int = 398
+	_forethought_cop_1__content_predicate_2__predicate              int = 399
+	_MI_word__content_syllable                                      int = 400
+	_PO_word__content_syllable                                      int = 401
+	_MO_word__content_syllable                                      int = 402
+	_forethought_cop_bar__predicate                                 int = 403
+
+	_N int = 404
 )
 
 type _Parser struct {
@@ -18112,56 +18113,32 @@ func _wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
 	}
 	pos, perr := start, -1
 	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:word_1 s:space_word?
+	// w:word_1
 	{
 		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
-		// non_function_word/toned_function_word/neutral_function_word
-		{
-			pos5 := pos
-			// non_function_word
-			if !_accept(parser, _non_function_wordAccepts, &pos, &perr) {
-				goto fail6
-			}
-			goto ok2
-		fail6:
-			pos = pos5
-			// toned_function_word
-			if !_accept(parser, _toned_function_wordAccepts, &pos, &perr) {
-				goto fail7
-			}
-			goto ok2
-		fail7:
-			pos = pos5
-			// neutral_function_word
-			if !_accept(parser, _neutral_function_wordAccepts, &pos, &perr) {
-				goto fail8
-			}
-			goto ok2
-		fail8:
-			pos = pos5
+		// word_1
+		if !_accept(parser, _word_1Accepts, &pos, &perr) {
 			goto fail
-		ok2:
 		}
 		labels[0] = parser.text[pos1:pos]
 	}
 	// s:space_word?
 	{
-		pos9 := pos
+		pos2 := pos
 		// space_word?
 		{
-			pos11 := pos
+			pos4 := pos
 			// space_word
 			if !_accept(parser, _space_wordAccepts, &pos, &perr) {
-				goto fail12
+				goto fail5
 			}
-			goto ok13
-		fail12:
-			pos = pos11
-		ok13:
+			goto ok6
+		fail5:
+			pos = pos4
+		ok6:
 		}
-		labels[1] = parser.text[pos9:pos]
+		labels[1] = parser.text[pos2:pos]
 	}
 	return _memoize(parser, _word, start, pos, perr)
 fail:
@@ -18183,68 +18160,34 @@ func _wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	pos := start
 	node = &peg.Node{Name: "word"}
 	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:word_1 s:space_word?
+	// w:word_1
 	{
 		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
-		{
-			nkids2 := len(node.Kids)
-			pos03 := pos
-			// non_function_word/toned_function_word/neutral_function_word
-			{
-				pos7 := pos
-				nkids5 := len(node.Kids)
-				// non_function_word
-				if !_node(parser, _non_function_wordNode, node, &pos) {
-					goto fail8
-				}
-				goto ok4
-			fail8:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				// toned_function_word
-				if !_node(parser, _toned_function_wordNode, node, &pos) {
-					goto fail9
-				}
-				goto ok4
-			fail9:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				// neutral_function_word
-				if !_node(parser, _neutral_function_wordNode, node, &pos) {
-					goto fail10
-				}
-				goto ok4
-			fail10:
-				node.Kids = node.Kids[:nkids5]
-				pos = pos7
-				goto fail
-			ok4:
-			}
-			sub := _sub(parser, pos03, pos, node.Kids[nkids2:])
-			node.Kids = append(node.Kids[:nkids2], sub)
+		// word_1
+		if !_node(parser, _word_1Node, node, &pos) {
+			goto fail
 		}
 		labels[0] = parser.text[pos1:pos]
 	}
 	// s:space_word?
 	{
-		pos11 := pos
+		pos2 := pos
 		// space_word?
 		{
-			nkids12 := len(node.Kids)
-			pos13 := pos
+			nkids3 := len(node.Kids)
+			pos4 := pos
 			// space_word
 			if !_node(parser, _space_wordNode, node, &pos) {
-				goto fail14
+				goto fail5
 			}
-			goto ok15
-		fail14:
-			node.Kids = node.Kids[:nkids12]
-			pos = pos13
-		ok15:
+			goto ok6
+		fail5:
+			node.Kids = node.Kids[:nkids3]
+			pos = pos4
+		ok6:
 		}
-		labels[1] = parser.text[pos11:pos]
+		labels[1] = parser.text[pos2:pos]
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -18266,56 +18209,32 @@ func _wordFail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
 	}
 	key := _key{start: start, rule: _word}
 	// action
-	// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-	// w:(non_function_word/toned_function_word/neutral_function_word)
+	// w:word_1 s:space_word?
+	// w:word_1
 	{
 		pos1 := pos
-		// (non_function_word/toned_function_word/neutral_function_word)
-		// non_function_word/toned_function_word/neutral_function_word
-		{
-			pos5 := pos
-			// non_function_word
-			if !_fail(parser, _non_function_wordFail, errPos, failure, &pos) {
-				goto fail6
-			}
-			goto ok2
-		fail6:
-			pos = pos5
-			// toned_function_word
-			if !_fail(parser, _toned_function_wordFail, errPos, failure, &pos) {
-				goto fail7
-			}
-			goto ok2
-		fail7:
-			pos = pos5
-			// neutral_function_word
-			if !_fail(parser, _neutral_function_wordFail, errPos, failure, &pos) {
-				goto fail8
-			}
-			goto ok2
-		fail8:
-			pos = pos5
+		// word_1
+		if !_fail(parser, _word_1Fail, errPos, failure, &pos) {
 			goto fail
-		ok2:
 		}
 		labels[0] = parser.text[pos1:pos]
 	}
 	// s:space_word?
 	{
-		pos9 := pos
+		pos2 := pos
 		// space_word?
 		{
-			pos11 := pos
+			pos4 := pos
 			// space_word
 			if !_fail(parser, _space_wordFail, errPos, failure, &pos) {
-				goto fail12
+				goto fail5
 			}
-			goto ok13
-		fail12:
-			pos = pos11
-		ok13:
+			goto ok6
+		fail5:
+			pos = pos4
+		ok6:
 		}
-		labels[1] = parser.text[pos9:pos]
+		labels[1] = parser.text[pos2:pos]
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -18327,7 +18246,7 @@ fail:
 func _wordAction(parser *_Parser, start int) (int, *(*Word)) {
 	var labels [2]string
 	use(labels)
-	var label0 string
+	var label0 Word
 	var label1 *Mod
 	dp := parser.deltaPos[start][_word]
 	if dp < 0 {
@@ -18344,80 +18263,287 @@ func _wordAction(parser *_Parser, start int) (int, *(*Word)) {
 	// action
 	{
 		start0 := pos
-		// w:(non_function_word/toned_function_word/neutral_function_word) s:space_word?
-		// w:(non_function_word/toned_function_word/neutral_function_word)
+		// w:word_1 s:space_word?
+		// w:word_1
 		{
 			pos2 := pos
-			// (non_function_word/toned_function_word/neutral_function_word)
+			// word_1
+			if p, n := _word_1Action(parser, pos); n == nil {
+				goto fail
+			} else {
+				label0 = *n
+				pos = p
+			}
+			labels[0] = parser.text[pos2:pos]
+		}
+		// s:space_word?
+		{
+			pos3 := pos
+			// space_word?
+			{
+				pos5 := pos
+				label1 = new(Mod)
+				// space_word
+				if p, n := _space_wordAction(parser, pos); n == nil {
+					goto fail6
+				} else {
+					*label1 = *n
+					pos = p
+				}
+				goto ok7
+			fail6:
+				label1 = nil
+				pos = pos5
+			ok7:
+			}
+			labels[1] = parser.text[pos3:pos]
+		}
+		node = func(
+			start, end int, s *Mod, w Word) *Word {
+			return (*Word)(w.mod(s))
+		}(
+			start0, pos, label1, label0)
+	}
+	parser.act[key] = node
+	return pos, &node
+fail:
+	return -1, nil
+}
+
+func _word_1Accepts(parser *_Parser, start int) (deltaPos, deltaErr int) {
+	var labels [1]string
+	use(labels)
+	if dp, de, ok := _memo(parser, _word_1, start); ok {
+		return dp, de
+	}
+	pos, perr := start, -1
+	// action
+	// w:(non_function_word/toned_function_word/neutral_function_word)
+	{
+		pos0 := pos
+		// (non_function_word/toned_function_word/neutral_function_word)
+		// non_function_word/toned_function_word/neutral_function_word
+		{
+			pos4 := pos
+			// non_function_word
+			if !_accept(parser, _non_function_wordAccepts, &pos, &perr) {
+				goto fail5
+			}
+			goto ok1
+		fail5:
+			pos = pos4
+			// toned_function_word
+			if !_accept(parser, _toned_function_wordAccepts, &pos, &perr) {
+				goto fail6
+			}
+			goto ok1
+		fail6:
+			pos = pos4
+			// neutral_function_word
+			if !_accept(parser, _neutral_function_wordAccepts, &pos, &perr) {
+				goto fail7
+			}
+			goto ok1
+		fail7:
+			pos = pos4
+			goto fail
+		ok1:
+		}
+		labels[0] = parser.text[pos0:pos]
+	}
+	return _memoize(parser, _word_1, start, pos, perr)
+fail:
+	return _memoize(parser, _word_1, start, -1, perr)
+}
+
+func _word_1Node(parser *_Parser, start int) (int, *peg.Node) {
+	var labels [1]string
+	use(labels)
+	dp := parser.deltaPos[start][_word_1]
+	if dp < 0 {
+		return -1, nil
+	}
+	key := _key{start: start, rule: _word_1}
+	node := parser.node[key]
+	if node != nil {
+		return start + int(dp-1), node
+	}
+	pos := start
+	node = &peg.Node{Name: "word_1"}
+	// action
+	// w:(non_function_word/toned_function_word/neutral_function_word)
+	{
+		pos0 := pos
+		// (non_function_word/toned_function_word/neutral_function_word)
+		{
+			nkids1 := len(node.Kids)
+			pos02 := pos
 			// non_function_word/toned_function_word/neutral_function_word
 			{
 				pos6 := pos
-				var node5 string
+				nkids4 := len(node.Kids)
 				// non_function_word
-				if p, n := _non_function_wordAction(parser, pos); n == nil {
+				if !_node(parser, _non_function_wordNode, node, &pos) {
 					goto fail7
-				} else {
-					label0 = *n
-					pos = p
 				}
 				goto ok3
 			fail7:
-				label0 = node5
+				node.Kids = node.Kids[:nkids4]
 				pos = pos6
 				// toned_function_word
-				if p, n := _toned_function_wordAction(parser, pos); n == nil {
+				if !_node(parser, _toned_function_wordNode, node, &pos) {
 					goto fail8
-				} else {
-					label0 = *n
-					pos = p
 				}
 				goto ok3
 			fail8:
-				label0 = node5
+				node.Kids = node.Kids[:nkids4]
 				pos = pos6
 				// neutral_function_word
-				if p, n := _neutral_function_wordAction(parser, pos); n == nil {
+				if !_node(parser, _neutral_function_wordNode, node, &pos) {
 					goto fail9
-				} else {
-					label0 = *n
-					pos = p
 				}
 				goto ok3
 			fail9:
-				label0 = node5
+				node.Kids = node.Kids[:nkids4]
 				pos = pos6
 				goto fail
 			ok3:
 			}
-			labels[0] = parser.text[pos2:pos]
+			sub := _sub(parser, pos02, pos, node.Kids[nkids1:])
+			node.Kids = append(node.Kids[:nkids1], sub)
 		}
-		// s:space_word?
+		labels[0] = parser.text[pos0:pos]
+	}
+	node.Text = parser.text[start:pos]
+	parser.node[key] = node
+	return pos, node
+fail:
+	return -1, nil
+}
+
+func _word_1Fail(parser *_Parser, start, errPos int) (int, *peg.Fail) {
+	var labels [1]string
+	use(labels)
+	pos, failure := _failMemo(parser, _word_1, start, errPos)
+	if failure != nil {
+		return pos, failure
+	}
+	failure = &peg.Fail{
+		Name: "word_1",
+		Pos:  int(start),
+	}
+	key := _key{start: start, rule: _word_1}
+	// action
+	// w:(non_function_word/toned_function_word/neutral_function_word)
+	{
+		pos0 := pos
+		// (non_function_word/toned_function_word/neutral_function_word)
+		// non_function_word/toned_function_word/neutral_function_word
 		{
-			pos10 := pos
-			// space_word?
+			pos4 := pos
+			// non_function_word
+			if !_fail(parser, _non_function_wordFail, errPos, failure, &pos) {
+				goto fail5
+			}
+			goto ok1
+		fail5:
+			pos = pos4
+			// toned_function_word
+			if !_fail(parser, _toned_function_wordFail, errPos, failure, &pos) {
+				goto fail6
+			}
+			goto ok1
+		fail6:
+			pos = pos4
+			// neutral_function_word
+			if !_fail(parser, _neutral_function_wordFail, errPos, failure, &pos) {
+				goto fail7
+			}
+			goto ok1
+		fail7:
+			pos = pos4
+			goto fail
+		ok1:
+		}
+		labels[0] = parser.text[pos0:pos]
+	}
+	parser.fail[key] = failure
+	return pos, failure
+fail:
+	parser.fail[key] = failure
+	return -1, failure
+}
+
+func _word_1Action(parser *_Parser, start int) (int, *Word) {
+	var labels [1]string
+	use(labels)
+	var label0 string
+	dp := parser.deltaPos[start][_word_1]
+	if dp < 0 {
+		return -1, nil
+	}
+	key := _key{start: start, rule: _word_1}
+	n := parser.act[key]
+	if n != nil {
+		n := n.(Word)
+		return start + int(dp-1), &n
+	}
+	var node Word
+	pos := start
+	// action
+	{
+		start0 := pos
+		// w:(non_function_word/toned_function_word/neutral_function_word)
+		{
+			pos1 := pos
+			// (non_function_word/toned_function_word/neutral_function_word)
+			// non_function_word/toned_function_word/neutral_function_word
 			{
-				pos12 := pos
-				label1 = new(Mod)
-				// space_word
-				if p, n := _space_wordAction(parser, pos); n == nil {
-					goto fail13
+				pos5 := pos
+				var node4 string
+				// non_function_word
+				if p, n := _non_function_wordAction(parser, pos); n == nil {
+					goto fail6
 				} else {
-					*label1 = *n
+					label0 = *n
 					pos = p
 				}
-				goto ok14
-			fail13:
-				label1 = nil
-				pos = pos12
-			ok14:
+				goto ok2
+			fail6:
+				label0 = node4
+				pos = pos5
+				// toned_function_word
+				if p, n := _toned_function_wordAction(parser, pos); n == nil {
+					goto fail7
+				} else {
+					label0 = *n
+					pos = p
+				}
+				goto ok2
+			fail7:
+				label0 = node4
+				pos = pos5
+				// neutral_function_word
+				if p, n := _neutral_function_wordAction(parser, pos); n == nil {
+					goto fail8
+				} else {
+					label0 = *n
+					pos = p
+				}
+				goto ok2
+			fail8:
+				label0 = node4
+				pos = pos5
+				goto fail
+			ok2:
 			}
-			labels[1] = parser.text[pos10:pos]
+			labels[0] = parser.text[pos1:pos]
 		}
 		node = func(
-			start, end int, s *Mod, w string) *Word {
-			return (*Word)(Word{S: start, E: end, T: w}.mod(s))
+			start, end int, w string) Word {
+			return Word{S: start, E: end, T: w}
 		}(
-			start0, pos, label1, label0)
+			start0, pos, label0)
 	}
 	parser.act[key] = node
 	return pos, &node
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index 0ed01b9..e718674 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -354,11 +354,12 @@ vocative <-
 # Morphology
 #
 
-word <- w:(
+word <- w:word_1 s:space_word? { return (*Word)(w.mod(s)) }
+word_1 <- w:(
 		non_function_word /
 		toned_function_word /
 		neutral_function_word
-	) s:space_word? { return (*Word)(Word{S: start, E: end, T: w}.mod(s)) }
+	) { return Word{S: start, E: end, T: w} }
 predicate_word<syllable> <- w:(
 		syllable compound_syllable+ /
 		!function_word syllable
-- 
2.43.0


From b608950718159d11999e1a55abd83f7d78f7f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:02 +0000
Subject: [PATCH 29/37] fix: a requested function word keeps the tone mark at
 its end

---
 ast/toaq.go    | 409 +++++++++++++++++++++++++++++++++----------------
 ast/toaq.peggy |   2 +-
 2 files changed, 280 insertions(+), 131 deletions(-)

diff --git a/ast/toaq.go b/ast/toaq.go
index f68347e..32f4bb2 100644
--- a/ast/toaq.go
+++ b/ast/toaq.go
@@ -19108,7 +19108,7 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		return dp, de
 	}
 	pos, perr := start, -1
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19124,40 +19124,74 @@ func _toned_function_wordAccepts(parser *_Parser, start int) (deltaPos, deltaErr
 		pos = pos2
 		perr = perr4
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_accept(parser, _LUAccepts, &pos, &perr) {
+		pos6 := pos
+		perr8 := perr
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_accept(parser, _LUAccepts, &pos, &perr) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_accept(parser, _MIAccepts, &pos, &perr) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_accept(parser, _MOAccepts, &pos, &perr) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_accept(parser, _POAccepts, &pos, &perr) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
 			goto fail9
+		ok10:
 		}
 		goto ok5
 	fail9:
-		pos = pos8
-		// MI
-		if !_accept(parser, _MIAccepts, &pos, &perr) {
-			goto fail10
-		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_accept(parser, _MOAccepts, &pos, &perr) {
-			goto fail11
+		pos = pos6
+		perr = _max(perr8, pos)
+		goto fail
+	ok5:
+		pos = pos6
+		perr = perr8
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_accept(parser, _initial_syllableAccepts, &pos, &perr) {
+			goto fail22
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_accept(parser, _POAccepts, &pos, &perr) {
-			goto fail12
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_accept(parser, _compound_syllableAccepts, &pos, &perr) {
+			goto fail23
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok18
+	fail23:
+		pos = pos21
 		goto fail
-	ok5:
+	ok18:
 	}
 	return _memoize(parser, _toned_function_word, start, pos, perr)
 fail:
@@ -19176,7 +19210,7 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 	}
 	pos := start
 	node = &peg.Node{Name: "toned_function_word"}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19192,51 +19226,93 @@ func _toned_function_wordNode(parser *_Parser, start int) (int, *peg.Node) {
 		pos = pos2
 		node.Kids = node.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
+	// &(LU/MI/MO/PO)
 	{
-		nkids5 := len(node.Kids)
-		pos06 := pos
-		// LU/MI/MO/PO
+		pos6 := pos
+		nkids7 := len(node.Kids)
+		// (LU/MI/MO/PO)
 		{
-			pos10 := pos
-			nkids8 := len(node.Kids)
-			// LU
-			if !_node(parser, _LUNode, node, &pos) {
-				goto fail11
-			}
-			goto ok7
-		fail11:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MI
-			if !_node(parser, _MINode, node, &pos) {
-				goto fail12
+			nkids10 := len(node.Kids)
+			pos011 := pos
+			// LU/MI/MO/PO
+			{
+				pos15 := pos
+				nkids13 := len(node.Kids)
+				// LU
+				if !_node(parser, _LUNode, node, &pos) {
+					goto fail16
+				}
+				goto ok12
+			fail16:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MI
+				if !_node(parser, _MINode, node, &pos) {
+					goto fail17
+				}
+				goto ok12
+			fail17:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// MO
+				if !_node(parser, _MONode, node, &pos) {
+					goto fail18
+				}
+				goto ok12
+			fail18:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				// PO
+				if !_node(parser, _PONode, node, &pos) {
+					goto fail19
+				}
+				goto ok12
+			fail19:
+				node.Kids = node.Kids[:nkids13]
+				pos = pos15
+				goto fail9
+			ok12:
 			}
-			goto ok7
-		fail12:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// MO
-			if !_node(parser, _MONode, node, &pos) {
-				goto fail13
+			sub := _sub(parser, pos011, pos, node.Kids[nkids10:])
+			node.Kids = append(node.Kids[:nkids10], sub)
+		}
+		goto ok5
+	fail9:
+		pos = pos6
+		goto fail
+	ok5:
+		pos = pos6
+		node.Kids = node.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	{
+		nkids20 := len(node.Kids)
+		pos021 := pos
+		// initial_syllable/compound_syllable
+		{
+			pos25 := pos
+			nkids23 := len(node.Kids)
+			// initial_syllable
+			if !_node(parser, _initial_syllableNode, node, &pos) {
+				goto fail26
 			}
-			goto ok7
-		fail13:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
-			// PO
-			if !_node(parser, _PONode, node, &pos) {
-				goto fail14
+			goto ok22
+		fail26:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
+			// compound_syllable
+			if !_node(parser, _compound_syllableNode, node, &pos) {
+				goto fail27
 			}
-			goto ok7
-		fail14:
-			node.Kids = node.Kids[:nkids8]
-			pos = pos10
+			goto ok22
+		fail27:
+			node.Kids = node.Kids[:nkids23]
+			pos = pos25
 			goto fail
-		ok7:
+		ok22:
 		}
-		sub := _sub(parser, pos06, pos, node.Kids[nkids5:])
-		node.Kids = append(node.Kids[:nkids5], sub)
+		sub := _sub(parser, pos021, pos, node.Kids[nkids20:])
+		node.Kids = append(node.Kids[:nkids20], sub)
 	}
 	node.Text = parser.text[start:pos]
 	parser.node[key] = node
@@ -19255,7 +19331,7 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		Pos:  int(start),
 	}
 	key := _key{start: start, rule: _toned_function_word}
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	// !neutral_syllable
 	{
 		pos2 := pos
@@ -19277,40 +19353,80 @@ func _toned_function_wordFail(parser *_Parser, start, errPos int) (int, *peg.Fai
 		pos = pos2
 		failure.Kids = failure.Kids[:nkids3]
 	}
-	// (LU/MI/MO/PO)
-	// LU/MI/MO/PO
+	// &(LU/MI/MO/PO)
 	{
-		pos8 := pos
-		// LU
-		if !_fail(parser, _LUFail, errPos, failure, &pos) {
+		pos6 := pos
+		nkids7 := len(failure.Kids)
+		// (LU/MI/MO/PO)
+		// LU/MI/MO/PO
+		{
+			pos13 := pos
+			// LU
+			if !_fail(parser, _LUFail, errPos, failure, &pos) {
+				goto fail14
+			}
+			goto ok10
+		fail14:
+			pos = pos13
+			// MI
+			if !_fail(parser, _MIFail, errPos, failure, &pos) {
+				goto fail15
+			}
+			goto ok10
+		fail15:
+			pos = pos13
+			// MO
+			if !_fail(parser, _MOFail, errPos, failure, &pos) {
+				goto fail16
+			}
+			goto ok10
+		fail16:
+			pos = pos13
+			// PO
+			if !_fail(parser, _POFail, errPos, failure, &pos) {
+				goto fail17
+			}
+			goto ok10
+		fail17:
+			pos = pos13
 			goto fail9
+		ok10:
 		}
 		goto ok5
 	fail9:
-		pos = pos8
-		// MI
-		if !_fail(parser, _MIFail, errPos, failure, &pos) {
-			goto fail10
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+		if pos >= errPos {
+			failure.Kids = append(failure.Kids, &peg.Fail{
+				Pos:  int(pos),
+				Want: "&(LU/MI/MO/PO)",
+			})
 		}
-		goto ok5
-	fail10:
-		pos = pos8
-		// MO
-		if !_fail(parser, _MOFail, errPos, failure, &pos) {
-			goto fail11
+		goto fail
+	ok5:
+		pos = pos6
+		failure.Kids = failure.Kids[:nkids7]
+	}
+	// (initial_syllable/compound_syllable)
+	// initial_syllable/compound_syllable
+	{
+		pos21 := pos
+		// initial_syllable
+		if !_fail(parser, _initial_syllableFail, errPos, failure, &pos) {
+			goto fail22
 		}
-		goto ok5
-	fail11:
-		pos = pos8
-		// PO
-		if !_fail(parser, _POFail, errPos, failure, &pos) {
-			goto fail12
+		goto ok18
+	fail22:
+		pos = pos21
+		// compound_syllable
+		if !_fail(parser, _compound_syllableFail, errPos, failure, &pos) {
+			goto fail23
 		}
-		goto ok5
-	fail12:
-		pos = pos8
+		goto ok18
+	fail23:
+		pos = pos21
 		goto fail
-	ok5:
+	ok18:
 	}
 	parser.fail[key] = failure
 	return pos, failure
@@ -19332,7 +19448,7 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 	}
 	var node string
 	pos := start
-	// !neutral_syllable (LU/MI/MO/PO)
+	// !neutral_syllable &(LU/MI/MO/PO) (initial_syllable/compound_syllable)
 	{
 		var node0 string
 		// !neutral_syllable
@@ -19351,57 +19467,90 @@ func _toned_function_wordAction(parser *_Parser, start int) (int, *string) {
 			node0 = ""
 		}
 		node, node0 = node+node0, ""
-		// (LU/MI/MO/PO)
-		// LU/MI/MO/PO
+		// &(LU/MI/MO/PO)
 		{
-			pos8 := pos
-			var node7 string
-			// LU
-			if p, n := _LUAction(parser, pos); n == nil {
+			pos6 := pos
+			// (LU/MI/MO/PO)
+			// LU/MI/MO/PO
+			{
+				pos13 := pos
+				// LU
+				if p, n := _LUAction(parser, pos); n == nil {
+					goto fail14
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail14:
+				pos = pos13
+				// MI
+				if p, n := _MIAction(parser, pos); n == nil {
+					goto fail15
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail15:
+				pos = pos13
+				// MO
+				if p, n := _MOAction(parser, pos); n == nil {
+					goto fail16
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail16:
+				pos = pos13
+				// PO
+				if p, n := _POAction(parser, pos); n == nil {
+					goto fail17
+				} else {
+					pos = p
+				}
+				goto ok10
+			fail17:
+				pos = pos13
 				goto fail9
-			} else {
-				node0 = *n
-				pos = p
+			ok10:
 			}
 			goto ok5
 		fail9:
-			node0 = node7
-			pos = pos8
-			// MI
-			if p, n := _MIAction(parser, pos); n == nil {
-				goto fail10
-			} else {
-				node0 = *n
-				pos = p
-			}
-			goto ok5
-		fail10:
-			node0 = node7
-			pos = pos8
-			// MO
-			if p, n := _MOAction(parser, pos); n == nil {
-				goto fail11
+			pos = pos6
+			goto fail
+		ok5:
+			pos = pos6
+			node0 = ""
+		}
+		node, node0 = node+node0, ""
+		// (initial_syllable/compound_syllable)
+		// initial_syllable/compound_syllable
+		{
+			pos21 := pos
+			var node20 string
+			// initial_syllable
+			if p, n := _initial_syllableAction(parser, pos); n == nil {
+				goto fail22
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail11:
-			node0 = node7
-			pos = pos8
-			// PO
-			if p, n := _POAction(parser, pos); n == nil {
-				goto fail12
+			goto ok18
+		fail22:
+			node0 = node20
+			pos = pos21
+			// compound_syllable
+			if p, n := _compound_syllableAction(parser, pos); n == nil {
+				goto fail23
 			} else {
 				node0 = *n
 				pos = p
 			}
-			goto ok5
-		fail12:
-			node0 = node7
-			pos = pos8
+			goto ok18
+		fail23:
+			node0 = node20
+			pos = pos21
 			goto fail
-		ok5:
+		ok18:
 		}
 		node, node0 = node+node0, ""
 	}
diff --git a/ast/toaq.peggy b/ast/toaq.peggy
index e718674..7d4bb11 100644
--- a/ast/toaq.peggy
+++ b/ast/toaq.peggy
@@ -369,7 +369,7 @@ non_function_word <-
 neutral_function_word <-
 	!toned_function_word &function_word neutral_syllable
 toned_function_word <-
-	!neutral_syllable ( LU / MI / MO / PO )
+	!neutral_syllable &( LU / MI / MO / PO ) ( initial_syllable / compound_syllable )
 initial_syllable <-
 	arg_syllable /
 	relative_syllable /
-- 
2.43.0


From e96d96caee6309f6f558ca10336aafe0b8dab31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 30/37] fix: ByteOffset of an error no longer takes time
 exponential in the failures

---
 ast/parser.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index 66a988f..b26c2d4 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -30,17 +30,24 @@ func (err *parseError) Tree() *peg.Fail { return err.fail }
 func (err *parseError) ByteOffset() int { return byteOffset(err.fail) }
 
 func byteOffset(fail *peg.Fail) int {
-	if len(fail.Kids) == 0 {
-		return fail.Pos
-	}
 	max := -1
-	for _, k := range fail.Kids {
-		if o := byteOffset(k); o > max {
-			max = o
+	// Failures are shared, so visit each only once.
+	seen := make(map[*peg.Fail]bool)
+	var walk func(*peg.Fail)
+	walk = func(f *peg.Fail) {
+		if seen[f] {
+			return
+		}
+		seen[f] = true
+		if len(f.Kids) == 0 && f.Pos > max {
+			max = f.Pos
+		}
+		for _, k := range f.Kids {
+			walk(k)
 		}
 	}
+	walk(fail)
 	return max
-
 }
 
 // A Parser parses a given Toaq text.
-- 
2.43.0


From 91e15040a3c9fcc914dd9b8fc7ccb49fb97939ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:23 +0000
Subject: [PATCH 31/37] fix: a repeated failed request reports the same failure
 after other requests

---
 ast/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ast/parser.go b/ast/parser.go
index b26c2d4..c68f390 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -133,6 +133,9 @@ func (p *Parser) parse(
 	if dpos >= 0 {
 		return nil
 	}
+	// A memoized answer leaves lastFail at that of the previous request,
+	// which would hide the failures after it.
+	p._Parser.lastFail = start + derr
 	_, failTree := fail(p._Parser, start, start+derr)
 	// Reset so a subsequent failure builds its own tree:
 	// failures are memoized without the error position they were made for,
-- 
2.43.0


From 70616362c1424300e85822d9e4cc9cb49cb9b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 32/37] fix: a look-ahead past the error no longer empties the
 failure tree

---
 ast/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ast/parser.go b/ast/parser.go
index c68f390..43a3118 100644
--- a/ast/parser.go
+++ b/ast/parser.go
@@ -133,9 +133,10 @@ func (p *Parser) parse(
 	if dpos >= 0 {
 		return nil
 	}
-	// A memoized answer leaves lastFail at that of the previous request,
-	// which would hide the failures after it.
-	p._Parser.lastFail = start + derr
+	// The failure pass gives up after lastFail. A memoized answer leaves it
+	// at that of the previous request, and a look-ahead that succeeds may go
+	// past the error, so do not let it give up anywhere.
+	p._Parser.lastFail = len(p._Parser.text)
 	_, failTree := fail(p._Parser, start, start+derr)
 	// Reset so a subsequent failure builds its own tree:
 	// failures are memoized without the error position they were made for,
-- 
2.43.0


From 4f3d29cb79e914656ac62448d240cd3234bf2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:42 +0000
Subject: [PATCH 33/37] fix: variables of arguments joined by roi stay in the
 plural's restriction

A variable quantified in an argument joined by roi is bound inside the
restriction of the plural, but it stayed in scope for the rest of the
statement, so a later use of it occurred outside its binding.
---
 logic/interp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/interp.go b/logic/interp.go
index cdd6f7f..e159cee 100644
--- a/logic/interp.go
+++ b/logic/interp.go
@@ -751,6 +751,10 @@ func (interp *interpreter) adverb(n ast.Adverb, arg Argument) Statement {
 }
 
 func (interp *interpreter) roi(n *ast.CoPArgument) (*Binding, Argument) {
+	// Variables bound by the joined arguments are in scope
+	// only in the restriction of the plural.
+	defer func(s []varScope) { interp.varScope = s }(interp.varScope)
+
 	x := interp.newVar()
 	b := &Binding{N: x, Quantifier: The, AST: n}
 	a := &Variable{N: x, Def: b, AST: n}
-- 
2.43.0


From 9cf9451d7fa4e41db3c42b5e7a67426b64e18300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:19 +0000
Subject: [PATCH 34/37] =?UTF-8?q?fix:=20a=20gap=20beside=20=3D=20or=20?=
 =?UTF-8?q?=E2=89=BA=20is=20printed?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first argument of an equation can be missing, as in jẻqtū go jí; it was
printed as nothing instead of the · that marks a gap.
---
 logic/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/string.go b/logic/string.go
index bbab510..fd612ba 100644
--- a/logic/string.go
+++ b/logic/string.go
@@ -57,7 +57,7 @@ func parens(n *Connection, arg Statement) (string, string) {
 
 func (n *Predication) print(pr *printer) error {
 	if p, ok := n.Predicate.(*Pred); ok && len(n.Arguments) == 2 && isBinOp(p) {
-		return pr.write(n.Arguments[0], p.Name, n.Arguments[1])
+		return pr.write(n.Arguments[:1], p.Name, n.Arguments[1:])
 	}
 	return pr.write(n.Predicate, "(", n.Arguments, ")")
 }
-- 
2.43.0


From 9183bf7df17ef43147d042db995fceb47e1cffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:59 +0000
Subject: [PATCH 35/37] fix: dump of an interjection ends in a stray brace

---
 ast/ast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 8125de5..bdea23b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -690,7 +690,7 @@ func (n Vocative) mod(m *Mod) Mod {
 // An Interjection is an interjection word.
 type Interjection Word
 
-func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `"})` }
+func (n Interjection) PrettyPrint() string         { return `Interjection("` + n.T + `")` }
 func (n *Interjection) Start() int                 { return (*Word)(n).Start() }
 func (n *Interjection) End() int                   { return (*Word)(n).End() }
 func (n Interjection) modNode(m *Mod) Node         { return n.mod(m) }
-- 
2.43.0


From ea6ad875c4a11bd6ceb1f34a618c1570fa6bb2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 36/37] fix: keep the text of words that contains "dict." in
 the generated list

---
 dict/main.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index 2ad08df..e51ee38 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -13,6 +13,7 @@ import (
 	"go/token"
 	"io"
 	"os"
+	"sort"
 	"strings"
 	"time"
 
@@ -41,12 +42,27 @@ func main() {
 	}
 	defer f.Close()
 
-	src := fmt.Sprintf("package dict\n"+
+	var src strings.Builder
+	fmt.Fprintf(&src, "package dict\n"+
 		"// Words contains the dictionary of words.\n"+
 		"// Last updated: %v.\n"+
-		"var Words = %#v\n", time.Now(), ws)
-	src = strings.Replace(src, "dict.", "", -1)
-	if err := gofmt(f, src); err != nil {
+		"var Words = map[string]Word{", time.Now())
+	var keys []string
+	for k := range ws {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for i, k := range keys {
+		if i > 0 {
+			src.WriteString(", ")
+		}
+		// The package qualifier is trimmed from the type only,
+		// since the text of a word can contain it too.
+		w := fmt.Sprintf("%#v", ws[k])
+		fmt.Fprintf(&src, "%q: %s", k, strings.TrimPrefix(w, "dict."))
+	}
+	src.WriteString("}\n")
+	if err := gofmt(f, src.String()); err != nil {
 		fmt.Printf(err.Error())
 		os.Exit(1)
 	}
-- 
2.43.0


From 8ebcb70406021c54221a00aed9e43306f4df41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:17 +0000
Subject: [PATCH 37/37] fix: print the generator's errors as they are

---
 dict/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dict/main.go b/dict/main.go
index e51ee38..ddf92d0 100644
--- a/dict/main.go
+++ b/dict/main.go
@@ -32,12 +32,12 @@ func main() {
 
 	ws, err := dict.Load(url, query)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Print(err.Error())
 		os.Exit(1)
 	}
 	f, err := os.Create(*out)
 	if err != nil {
-		fmt.Printf(err.Error())
+		fmt.Print(err.Error())
 		os.Exit(1)
 	}
 	defer f.Close()
@@ -63,7 +63,7 @@ func main() {
 	}
 	src.WriteString("}\n")
 	if err := gofmt(f, src.String()); err != nil {
-		fmt.Printf(err.Error())
+		fmt.Print(err.Error())
 		os.Exit(1)
 	}
 }
-- 
2.43.0

