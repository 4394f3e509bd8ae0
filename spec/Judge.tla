-------------------------------- MODULE Judge --------------------------------
(* Verdicts on observed records about texts, words and syntax trees.         *)
(* A verdict is [msg, cov]: msg is "" when the record is as specified, cov a  *)
(* label for counting what was covered.                                       *)
EXTENDS Serv

V(msg, cov) == [msg |-> msg, cov |-> cov]
First1(a, b) == IF a # "" THEN a ELSE b
Acc(ok) == IF ok THEN "accepted" ELSE "rejected"

(* The tree of a text, with prefixes put in by hand if the case says so. *)
ParseMu(s, r) == LET p == ParseText(s) IN IF p.ok /\ "mu" \in DOMAIN r THEN [p EXCEPT !.tree = WithMu(@, r.mu)] ELSE p
HasMu(r) == "mu" \in DOMAIN r /\ r.mu > 0

(* C01: the verdict of both kinds of request, and no panic. *)
JAccept(r) ==
  LET p == ParseText(r.s) IN
  V(CASE r.panic # "" -> "panic: " \o r.panic
      [] r.ok # p.ok -> "text should be " \o Acc(p.ok)
      [] r.tok # p.ok -> "parse tree request should be " \o Acc(p.ok)
      [] OTHER -> "", Acc(p.ok))

(* C02: kinds, nesting, optional parts, places of the modifiers. *)
JShape(r) ==
  LET p == ParseText(r.s) IN
  V(IF r.panic # "" THEN "panic: " \o r.panic
    ELSE IF p.ok /\ r.ok THEN ShapeDiff(p.tree, r.tree) ELSE "", Acc(p.ok))

(* C03: words adjacent, increasing, covering; text of each normalised.       *)
NormSpan(ws, p) == p
JLossless(r) ==
  LET of == Offs(r.s)
      total == of[Len(r.s) + 1]
      ws == TLCEval(WordsOf(r.tree))
      lx == ParseText(r.s)
      sw == TLCEval(WordsOf(lx.tree))
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~r.ok \/ ~lx.ok THEN ""
       ELSE IF ws = <<>> THEN (IF total = 0 THEN "" ELSE "no words in the tree")
       ELSE IF ws[1].S # 0 THEN "text before the first word is lost"
       ELSE IF Last(ws).E # total THEN "text after the last word is lost"
       ELSE IF \E i \in 1..(Len(ws) - 1) : ws[i].E # ws[i+1].S THEN "words are not adjacent at " \o ToString((CHOOSE i \in 1..(Len(ws) - 1) : ws[i].E # ws[i+1].S))
       ELSE IF \E i \in 1..Len(ws) : ws[i].E <= ws[i].S THEN "empty word"
       ELSE IF \E i \in 1..Len(ws) : i > Len(sw) \/ ws[i].T # sw[i].T \/ ws[i].S # sw[i].S \/ ws[i].E # sw[i].E
            THEN LET i == CHOOSE j \in 1..Len(ws) : (j > Len(sw) \/ ws[j].T # sw[j].T \/ ws[j].S # sw[j].S \/ ws[j].E # sw[j].E)
                 IN  "word " \o ToString(i) \o " is " \o ToString(<<ws[i].S, ws[i].E, ws[i].T>>)
                     \o (IF i <= Len(sw) THEN " not " \o ToString(<<sw[i].S, sw[i].E, sw[i].T>>) ELSE "")
       ELSE "", Acc(r.ok))

(* Long texts: s repeated n times and followed by s2.  What happens in them is *)
(* read off the texts s s s and s s s2, if s stands for itself in these.       *)
RECURSIVE Shift(_, _)
Shift(x, o) == LET y == [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Shift(x.c[i], o)]] IN IF IsWord(x) THEN [y EXCEPT !.S = @ + o, !.E = @ + o] ELSE y
DiscOf(p) == p.tree.c[2].c
LongOf(r) ==
  LET s == r.s  len == Offs(s)[Len(s) + 1]
      p3 == ParseText(s \o s \o s)
      q == ParseText(s \o s \o r.s2)
      m == IF p3.ok THEN Len(DiscOf(p3)) \div 3 ELSE 0
      d3 == TLCEval(IF p3.ok THEN DiscOf(p3) ELSE <<>>)
      alone == p3.ok /\ m > 0 /\ Len(d3) = 3 * m /\ IsNil(p3.tree.c[1]) /\ FirstS(d3[m + 1]) = len /\ FirstS(d3[(2 * m) + 1]) = 2 * len
               /\ \A i \in 1..(2 * m) : TreeDiff(Shift(d3[i], len), d3[i + m], TRUE) = ""
      far == IF q.ok THEN 0 ELSE Offs(s \o s \o r.s2)[Furthest(s \o s \o r.s2).at] IN
  [alone |-> alone /\ (q.ok => Len(DiscOf(q)) >= 2 * m) /\ (~q.ok => far > len), m |-> m, d |-> d3, len |-> len, ok |-> q.ok,
   q |-> IF q.ok THEN DiscOf(q) ELSE <<>>, far |-> far]
JLong(prop, r) ==
  LET l == LongOf(r) IN
  IF r.panic # "" THEN V("panic: " \o r.panic, "panic")
  ELSE IF ~l.alone THEN V("", "none")
  ELSE LET total == ((r.n - 2) * l.m) + Len(l.q)
           want(j) == IF j <= (r.n - 2) * l.m THEN Shift(l.d[((j - 1) % l.m) + 1], ((j - 1) \div l.m) * l.len) ELSE Shift(l.q[j - ((r.n - 2) * l.m)], (r.n - 2) * l.len)
           off == l.far + ((r.n - 2) * l.len)
           bad == {i \in 1..Len(r.picks) : r.picks[i].j > total \/ TreeDiff(want(r.picks[i].j), r.picks[i].t, TRUE) # ""} IN
    V(IF prop = "C07" THEN (IF l.ok \/ r.ok \/ r.tok THEN "" ELSE IF r.off # off \/ r.toff # off THEN "the error of the long text should be at " \o ToString(off) \o ", is at " \o ToString(<<r.off, r.toff>>) ELSE "")
      ELSE IF r.ok # l.ok \/ r.tok # l.ok THEN "the long text should be " \o Acc(l.ok)
      ELSE IF ~l.ok \/ prop = "C01" THEN ""
      ELSE IF r.cnt # total THEN "the long text should have " \o ToString(total) \o " parts, has " \o ToString(r.cnt)
      ELSE IF bad # {} THEN LET i == CHOOSE k \in bad : TRUE IN "part " \o ToString(r.picks[i].j) \o " of the long text: " \o TreeDiff(want(r.picks[i].j), r.picks[i].t, TRUE)
      ELSE "", Acc(l.ok))

(* C08: the concrete parse tree. *)
RECURSIVE PegBad(_)
PegBad(t) == IF t.c = <<>> THEN FALSE
             ELSE t.t # FlatMap(LAMBDA k : k.t, t.c) \/ \E i \in 1..Len(t.c) : PegBad(t.c[i])
RECURSIVE PegLeaves(_)
PegLeaves(t) == IF t.c = <<>> THEN t.t ELSE FlatMap(PegLeaves, t.c)
JPeg(r) ==
  V(CASE r.panic # "" -> "panic: " \o r.panic
      [] ~r.ok -> (IF ParseText(r.s).ok THEN "accepted text has no parse tree" ELSE "")
      [] r.tree.t # r.s -> "the root does not span the text"
      [] PegLeaves(r.tree) # r.s -> "the leaves do not spell the text"
      [] PegBad(r.tree) -> "a node's text is not that of its parts"
      [] OTHER -> "", Acc(r.ok))

(* C10: the calls of a traversal. *)
JVisit(r) ==
  LET p == ParseMu(r.s, r)
      ns == TLCEval(NodesOf(p.tree))
      x == ns[(r.at0 % Len(ns)) + 1]
      want == TLCEval(VisitTrace(x, r.p, r.q))
      bad == {i \in 1..Len(want) : i > Len(r.ev) \/ want[i] # r.ev[i]}
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~p.ok \/ ~r.ok THEN ""
       ELSE IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN
              "call " \o ToString(i) \o " should be " \o ToString(want[i]) \o (IF i <= Len(r.ev) THEN " but is " \o ToString(r.ev[i]) ELSE " but the traversal ends")
       ELSE IF Len(r.ev) # Len(want) THEN "extra calls" ELSE "", Acc(p.ok))

(* C11: equality of all pairs of nodes of two trees. *)
JEqual(r) ==
  LET p == ParseMu(r.s, r)  q == ParseMu(r.s2, r)
      na == TLCEval(NodesOf(p.tree))  nb == TLCEval(NodesOf(q.tree))
      bad == {ij \in (1..Len(r.eq)) \X (1..(IF r.eq = <<>> THEN 0 ELSE Len(r.eq[1]))) :
                r.eq[ij[1]][ij[2]] # (IF TreeEq(na[ij[1]], nb[ij[2]]) THEN 3 ELSE 0)}
      same == p.ok /\ q.ok /\ TreeEq(p.tree, q.tree)
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~p.ok \/ ~q.ok \/ ~r.ok \/ ~r.ok2 THEN ""
       ELSE IF ~r.self THEN "a tree is not equal to itself"
       ELSE IF ~r.nils THEN "equality with nothing is wrong"
       ELSE IF bad # {} THEN LET ij == CHOOSE x \in bad : TRUE IN
            "nodes " \o ToString(ij) \o " (" \o na[ij[1]].k \o ", " \o nb[ij[2]].k \o ") should be "
            \o (IF TreeEq(na[ij[1]], nb[ij[2]]) THEN "equal" ELSE "different")
       ELSE "", IF ~(p.ok /\ q.ok) THEN "rejected" ELSE IF same THEN "equal" ELSE "different")

(* C12: bracketing of the tree and of its parts. *)
RECURSIVE Balanced(_, _, _)
Balanced(s, i, st) == IF i > Len(s) THEN st = <<>>
  ELSE IF \E k \in 1..4 : s[i] = Opens[k] THEN LET k == CHOOSE j \in 1..4 : s[i] = Opens[j] IN k = ((Len(st)) % 4) + 1 /\ Balanced(s, i + 1, Append(st, k))
  ELSE IF \E k \in 1..4 : s[i] = Closes[k] THEN st # <<>> /\ s[i] = Closes[Last(st)] /\ Balanced(s, i + 1, SubSeq(st, 1, Len(st) - 1))
  ELSE Balanced(s, i + 1, st)
JBraces(r) ==
  LET p == ParseMu(r.s, r)
      ns == TLCEval(NodesOf(p.tree))
      want(i) == Braces(ns[i], 0)
      bad == {i \in 1..Len(r.br) : i > Len(ns) \/ r.br[i] # want(i)}
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~p.ok \/ ~r.ok THEN ""
       ELSE IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN
              "bracketing of " \o ns[i].k \o " should be " \o ToString(want(i)) \o " is " \o ToString(r.br[i])
       ELSE IF \E i \in 1..Len(r.br) : ~IsWord(ns[i]) /\ ~Balanced(r.br[i], 1, <<>>) THEN "brackets are not balanced"
       ELSE "", Acc(p.ok))

(* C13: ASCII conversion. *)
JAscii(r) ==
  LET p == ParseMu(r.s, r)
      a == TLCEval(AscTree(p.tree))
      str == TLCEval(Spell(a))
      q == ParseText(str)
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~p.ok \/ ~r.ok THEN ""
       ELSE LET d1 == TreeDiff(a, r.asc, TRUE) IN
            IF d1 # "" THEN "converted tree: " \o d1
            ELSE LET d2 == TreeDiff(a, r.asc2, TRUE) IN
            IF d2 # "" THEN "converted twice: " \o d2
            ELSE IF r.str # str THEN "spelled-out text differs"
            ELSE IF HasMu(r) THEN ""
            ELSE IF ~q.ok THEN "MODEL: ASCII text is not in the grammar"
            ELSE IF ~r.reok THEN "the ASCII text does not parse"
            ELSE LET d3 == TreeDiff(q.tree, r.re, TRUE) d4 == TreeDiff(AscTree(q.tree), a, FALSE) IN
            IF d3 # "" THEN "reparsed: " \o d3 ELSE IF d4 # "" THEN "MODEL: reparsed: " \o d4 ELSE "", Acc(p.ok))

(* C14: extents. *)
RECURSIVE ExtDiff(_, _), ExtKids(_, _, _)
ExtDiff(a, b) == IF IsNil(a) THEN ""
  ELSE IF a.k # b.k \/ Len(a.c) # Len(b.c) THEN ""      \* another property's business
  ELSE IF b.x # <<Start(a), End(a)>> THEN "extent of " \o a.k \o " should be " \o ToString(<<Start(a), End(a)>>) \o " is " \o ToString(b.x)
  ELSE ExtKids(a, b, 1)
ExtKids(a, b, i) == IF i > Len(a.c) THEN "" ELSE LET d == ExtDiff(a.c[i], b.c[i]) IN IF d = "" THEN ExtKids(a, b, i + 1) ELSE d
JExtent(r) ==
  LET p == ParseMu(r.s, r) IN
  V(IF r.panic # "" THEN "panic: " \o r.panic ELSE IF ~p.ok \/ ~r.ok THEN "" ELSE ExtDiff(p.tree, r.tree), Acc(p.ok))

(* C09: tone operations. *)
ToneList == <<NoTone>> \o Tones
JTone(r) ==
  LET bad == {i \in 1..Len(r.ws) : i > Len(r.res) \/
                LET T == r.ws[i] x == r.res[i] IN
                x.asc # AscOf(T) \/ x.strip # StripOf(T) \/ x.tone # ToneOfT(T, 1) \/ \E j \in 1..8 : x.with[j] # WithToneOf(T, ToneList[j])}
      mod == {i \in 1..Len(r.ws) : LET T == r.ws[i] y == LexAt(AscOf(T), 1) z == LexAt(T, 1) IN
                \* the ASCII form is read as the same word (a breve as a caron)
                StripOf(y.out) # StripOf(z.out) \/ StripOf(y.wout) # StripOf(z.wout) \/ y.t # z.t \/ (y.w > 0) # (z.w > 0)}
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF bad # {} THEN LET i == CHOOSE j \in bad : TRUE T == r.ws[i] IN
            "word " \o ToString(T) \o " should give " \o ToString(<<AscOf(T), StripOf(T), ToneOfT(T, 1), [j \in 1..8 |-> WithToneOf(T, ToneList[j])]>>)
            \o (IF i <= Len(r.res) THEN " gives " \o ToString(<<r.res[i].asc, r.res[i].strip, r.res[i].tone, r.res[i].with>>) ELSE "")
       ELSE IF mod # {} THEN "MODEL: ASCII form is another word " \o ToString(r.ws[CHOOSE j \in mod : TRUE])
       ELSE "", "words")

(* C05: the word at each byte offset. *)
(* Position of a byte offset in the text, 0 if it lies inside a character. *)
PosOf(of, b) == IF \E p \in 1..Len(of) : of[p] = b THEN CHOOSE p \in 1..Len(of) : of[p] = b ELSE 0
(* What a request for a word at position p finds: [ok, T, e, sp].            *)
(*  A predicate word or compound in a word tone, or a taking function word in *)
(*  any tone but none, or a function word without tone.                       *)
NoWord == [ok |-> FALSE, T |-> <<>>, e |-> 0]
WordAt(s, p) ==
  IF p = 0 THEN NoWord ELSE
  LET y == Syl(s, p)  x == LexAt(s, p)  c == FnClass(y.base) IN
  IF p > Len(s) \/ Attr(s[p]).k # "con" THEN NoWord
  ELSE IF x.w > 0 THEN [ok |-> TRUE, T |-> x.wout, e |-> x.w]
  ELSE IF y.ok /\ c \in Taking /\ y.t # NoTone THEN [ok |-> TRUE, T |-> y.out, e |-> y.n]
  ELSE IF y.ok /\ c # "" /\ y.t = NoTone THEN [ok |-> TRUE, T |-> y.out, e |-> y.n]
  ELSE NoWord
WordDiff(s, of, off, g) ==
  LET p == PosOf(of, off)
      w == WordAt(s, p)
      e2 == IF w.ok THEN SpaceEnd(s, w.e) ELSE 0
  IN CASE g.panic # "" -> "panic: " \o g.panic
       [] g.ok # w.ok -> "word at " \o ToString(off) \o (IF w.ok THEN " should be found" ELSE " should not be found, got " \o ToString(g.w))
       [] ~w.ok -> ""
       [] g.n # of[e2] - off -> "word at " \o ToString(off) \o " should consume " \o ToString(of[e2] - off) \o " bytes, not " \o ToString(g.n)
       [] OTHER ->
          LET sp == IF e2 = w.e THEN Nil ELSE Node("Space", <<MkWord(SubSeq(s, w.e, e2 - 1), of[w.e], of[e2], "", NoTone)>>)
          IN  TreeDiff([MkWord(w.T, off, of[w.e], "", NoTone) EXCEPT !.c = <<sp>>], g.w, TRUE)
JWord(r) ==
  LET of == Offs(r.s)
      bad == {i \in 1..Len(r.ws) : WordDiff(r.s, of, i - 1, r.ws[i]) # ""}
  IN V(IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN WordDiff(r.s, of, i - 1, r.ws[i])
       ELSE IF Len(r.ws) # of[Len(r.s) + 1] + 1 THEN "offsets missing" ELSE "", IF r.ws[1].ok THEN "word" ELSE "none")

(* C04: two spellings of the same words.  Case, dots, caron and breve are     *)
(* folded and the text of spaces is ignored; what is left must agree.         *)
FoldCh(c) == LET a == Attr(c) IN
  IF a.k = "vow" THEN (IF a.t = NoTone THEN a.b ELSE Toned(a.t, a.b, FALSE)) ELSE IF c \in 65..90 THEN c + 32 ELSE c
FoldT(T) == [i \in 1..Len(T) |-> FoldCh(T[i])]
RECURSIVE FoldTree(_)
FoldTree(x) ==
  IF x.k = "Space" THEN [k |-> "Space", c |-> <<FoldTree(x.c[1].c[1])>>]
  ELSE IF IsWord(x) THEN [k |-> "Word", T |-> FoldT(x.T), S |-> 0, E |-> 0, c |-> <<FoldTree(x.c[1])>>]
  ELSE [k |-> x.k, c |-> [i \in 1..Len(x.c) |-> FoldTree(x.c[i])]]
JSpell(r) ==
  LET p == ParseText(r.s)  q == ParseMu(r.s2, r)
      same == p.ok = q.ok /\ (p.ok => TreeDiff(FoldTree(p.tree), FoldTree(q.tree), FALSE) = "")
      ta == FoldTree(r.a.tree)  tb == FoldTree(r.b.tree)
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF ~same THEN ""
       ELSE IF r.a.ok # r.b.ok THEN "one spelling is accepted and the other rejected"
       ELSE IF ~r.a.ok THEN ""
       ELSE LET d == TreeDiff(ta, tb, FALSE) IN
            IF d # "" THEN "trees differ: " \o d
            ELSE IF FoldT(r.a.br) # FoldT(r.b.br) THEN "bracketings differ"
            ELSE IF r.a.kind # r.b.kind THEN "one spelling gives " \o r.a.kind \o " and the other " \o r.b.kind
            ELSE IF ~r.a.quote /\ ~r.b.quote /\ r.a.fo # r.b.fo THEN "formulas differ"
            ELSE IF FoldT(r.a.fo) # FoldT(r.b.fo) /\ ~(r.a.quote /\ r.b.quote) THEN "formulas differ"
            ELSE "", IF ~same THEN "not the same words" ELSE Acc(p.ok))

(* C06: histories of requests.  Each answer depends on the text and the        *)
(* request alone: it is the answer of a parser that has been asked nothing.    *)
(* The state of the specification's parser is just its text.                   *)
AnswerDiff(s, of, p, op, g) ==
  IF op[1] = "text" THEN
     (IF g.ok # p.ok THEN "text should be " \o Acc(p.ok) ELSE IF p.ok THEN TreeDiff(p.tree, g.v, TRUE) ELSE "")
  ELSE IF op[1] = "tree" THEN (IF g.ok # p.ok THEN "tree should be " \o Acc(p.ok) ELSE "")
  ELSE WordDiff(s, of, op[2], [panic |-> g.panic, ok |-> g.ok, n |-> g.n, w |-> g.v])
JHist(r) ==
  LET p == ParseText(r.s)  of == Offs(r.s)
      bad == {i \in 1..Len(r.ops) : r.got[i].panic # "" \/ AnswerDiff(r.s, of, p, r.ops[i], r.got[i]) # "" \/ r.got[i] # r.fresh[i]}
  IN V(IF bad = {} THEN "" ELSE
       LET i == CHOOSE j \in bad : \A k \in bad : j <= k
           d == AnswerDiff(r.s, of, p, r.ops[i], r.got[i])
       IN "request " \o ToString(i) \o " " \o ToString(r.ops[i]) \o ": "
          \o (IF r.got[i].panic # "" THEN "panic: " \o r.got[i].panic ELSE IF d # "" THEN d ELSE "differs from the answer of a fresh parser"),
       Acc(p.ok))

(* C07: where errors point. *)
ErrDiff(of, s, at, e, what) ==
  IF e.off # of[at] THEN what \o " error should be at " \o ToString(of[at]) \o " not " \o ToString(e.off)
  ELSE IF e.line # LineOf(s, at, 1) \/ e.col # ColOf(s, at, <<1, 1>>)
       THEN what \o " error should be at line and column " \o ToString(<<LineOf(s, at, 1), ColOf(s, at, <<1, 1>>)>>) \o " not " \o ToString(<<e.line, e.col>>)
  ELSE IF e.leaf # e.off THEN what \o " failure tree does not reach the error" ELSE ""
WordErrDiff(of, s, off, e) ==
  LET p == PosOf(of, off) IN
  IF p = 0 THEN (IF e.ok THEN "word inside a character" ELSE IF e.off # off THEN "word error should be at " \o ToString(off) ELSE "")
  ELSE IF e.ok # WordAt(s, p).ok THEN "" ELSE IF e.ok THEN "" ELSE ErrDiff(of, s, WordFurthest(s, p), e, "word at " \o ToString(off))
JErr(r) ==
  LET of == Offs(r.s)
      f == Furthest(r.s)
      p == ParseText(r.s)
      badw == {i \in 1..Len(r.offs) : WordErrDiff(of, r.s, r.offs[i], r.words[i]) # ""}
  IN V(IF r.panic # "" THEN "panic: " \o r.panic
       ELSE IF f.ok # p.ok THEN "MODEL: the two recognisers disagree"
       ELSE IF r.text.ok # p.ok \/ r.tree.ok # p.ok THEN ""
       ELSE IF ~p.ok /\ ErrDiff(of, r.s, f.at, r.text, "text") # "" THEN ErrDiff(of, r.s, f.at, r.text, "text")
       ELSE IF ~p.ok /\ ErrDiff(of, r.s, f.at, r.tree, "tree") # "" THEN ErrDiff(of, r.s, f.at, r.tree, "tree")
       ELSE IF badw # {} THEN LET i == CHOOSE j \in badw : TRUE IN WordErrDiff(of, r.s, r.offs[i], r.words[i])
       ELSE "", Acc(p.ok))

(* ----- Formulas ----- *)
(* Connecting words without a meaning where they stand. *)
RECURSIVE BadWords(_)
BadWords(x) == (CASE x.k = "CoPSentence" -> IF ConOf(x).ru.b # "ru" THEN {ConOf(x).ru.T} ELSE {}
                  [] x.k = "CoP" -> LET w == IF Len(x.c) = 3 THEN x.c[2] ELSE x.c[2] IN IF w.b \in {"roi", "ro", "re"} THEN {w.T} ELSE {}
                  [] OTHER -> {}) \cup UNION {BadWords(x.c[j]) : j \in 1..Len(x.c)}
(* C15 - C20: the formula of a text. *)
JFormula(r) ==
  LET p == ParseText(r.s)
      w == Interpret(p.tree)
      d == FormulaDiff(w.t, r.f)
  IN IF r.panic # "" THEN V("panic: " \o r.panic, "panic")
     ELSE IF ~p.ok \/ ~r.ok THEN V("", "rejected")
     ELSE IF r.kind = "fault" THEN V("interpretation fails: " \o ToString(r.msg), "fault")
     ELSE IF w.err # <<>> \/ r.kind = "stop" THEN V("", "unimplemented")
     ELSE IF IsNil(w.t) THEN V(IF r.kind = "none" THEN "" ELSE "a text without sentences has a formula", "none")
     ELSE IF ~BoundOk(w.t, {}) THEN V("MODEL: a variable outside its binding", "formula")
     ELSE V(IF r.kind # "formula" THEN "no formula" ELSE IF d # "" THEN "formula: " \o d ELSE "", "formula")
(* C17 also: every observed variable is bound where it is used; numbers. *)
JScope(r) ==
  LET j == JFormula(r) ns == TLCEval(FNodes(r.f)) IN
  IF j.msg # "" \/ r.kind # "formula" THEN j
  ELSE IF ~BoundOk(r.f, {}) THEN V("a variable occurs outside its binding", "formula")
  ELSE IF ~OneToOne(Numbers(ns)) THEN V("numbers of variables", "formula")
  ELSE j
(* C21 *)
JTotal(r) ==
  LET p == ParseText(r.s)
      w == Interpret(p.tree)
      bad == BadWords(p.tree)
  IN IF r.panic # "" THEN V("panic: " \o r.panic, "panic")
     ELSE IF ~p.ok \/ ~r.ok THEN V("", "rejected")
     ELSE V(CASE r.kind = "fault" -> "interpretation fails: " \o ToString(r.msg)
              [] r.kind = "stop" /\ w.err = <<>> -> "interpretation stops: " \o ToString(r.msg)
              [] r.kind # "stop" /\ w.err # <<>> -> "interpretation should stop at " \o ToString(w.err)
              [] r.kind = "stop" /\ ~\E T \in bad : HasAt(r.msg, T, 1) -> "the message names no word without a meaning"
              [] (r.kind = "none") # (w.err = <<>> /\ IsNil(w.t)) -> "a formula exactly if there is a sentence"
              [] ~r.same -> "different every time"
              [] ~r.kept -> "the syntax tree is changed"
              [] r.kind = "formula" /\ FormulaDiff(w.t, r.f) = "" -> OrgDiff(w.t, r.f)
              [] OTHER -> "", r.kind)

(* C22 *)
JPrint(r) ==
  LET a == ShowText(r.f) b == PrettyText(r.f) nm == NamesOf(r.f) IN
  V(IF r.panic # "" THEN "panic: " \o r.panic
    ELSE IF ~r.have THEN ""
    ELSE IF r.str # a THEN "printed form should be " \o ToString(a) \o " is " \o ToString(r.str)
    ELSE IF r.pretty # b THEN "pretty form should be " \o ToString(b) \o " is " \o ToString(r.pretty)
    ELSE IF \E x \in DOMAIN nm : \E y \in DOMAIN nm : x # y /\ nm[x] = nm[y] THEN "MODEL: two variables of one name"
    ELSE "", IF r.have THEN "formula" ELSE "none")
(* C23 *)
RECURSIVE Bare(_)
Bare(x) == IF IsNil(x) THEN x ELSE [[x EXCEPT !.c = [i \in 1..Len(x.c) |-> Bare(x.c[i])]] EXCEPT !.a = NoOrg]
JWalk(r) ==
  LET ns == FNodes(r.f) want == TLCEval([i \in 1..Len(ns) |-> ns[i].u]) IN
  V(IF r.panic # "" THEN "panic: " \o r.panic
    ELSE IF ~r.have THEN ""
    ELSE IF r.ev # want THEN "visited " \o ToString(r.ev) \o " should be " \o ToString(want)
    ELSE IF r.g # Bare(r.f) THEN "after clearing the origins: " \o (IF FormulaDiff(r.f, r.g) # "" THEN FormulaDiff(r.f, r.g) ELSE "an origin is left, or something else changed")
    ELSE "", IF r.have THEN "formula" ELSE "none")

(* C28: r.dumps are those of the whole tree and of every modifier in it. *)
ModKinds == {"Parenthetical", "Incidental", "Vocative", "Interjection", "Space"}
Dumped(t) == <<t>> \o SelectSeq(NodesOf(t), LAMBDA x : x.k \in ModKinds)
JDump(r) ==
  LET ds == TLCEval(IF IsNil(r.tree) THEN <<>> ELSE Dumped(r.tree))
      bad == {i \in 1..Len(r.dumps) : i > Len(ds) \/ ~ShowsAll(r.dumps[i], Shown(ds[i]))} IN
  V(IF r.panic # "" THEN "panic: " \o r.panic
    ELSE IF Len(r.dumps) < Len(ds) /\ Len(r.dumps) < 20 THEN "a dump is missing"
    ELSE IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN "the dump of " \o ds[i].k \o " does not show it: " \o ToString(r.dumps[i])
    ELSE "", Acc(r.ok))
JFDump(r) ==
  V(IF r.panic # "" THEN "panic: " \o r.panic
    ELSE IF ~r.have THEN ""
    ELSE IF ~ShowsAll(r.dump, FShown(r.f)) THEN "the dump of the formula does not show it: " \o ToString(r.dump)
    ELSE "", IF r.have THEN "formula" ELSE "none")

Judge(prop, r) ==
  CASE prop \in {"C01", "C02", "C03", "C07"} /\ "n" \in DOMAIN r -> JLong(prop, r)
    [] prop = "C01" -> JAccept(r)
    [] prop = "C04" -> JSpell(r)
    [] prop = "C06" -> JHist(r)
    [] prop = "C07" -> JErr(r)
    [] prop = "C02" -> JShape(r)
    [] prop = "C03" -> JLossless(r)
    [] prop = "C05" -> JWord(r)
    [] prop = "C08" -> JPeg(r)
    [] prop = "C09" -> JTone(r)
    [] prop = "C10" -> JVisit(r)
    [] prop = "C11" -> JEqual(r)
    [] prop = "C12" -> JBraces(r)
    [] prop = "C13" -> JAscii(r)
    [] prop = "C14" -> JExtent(r)
    [] prop \in {"C15", "C16", "C18", "C19", "C20"} -> JFormula(r)
    [] prop = "C17" -> JScope(r)
    [] prop = "C21" -> JTotal(r)
    [] prop = "C22" -> JPrint(r)
    [] prop = "C23" -> JWalk(r)
    [] prop = "C24" -> JServe(r)
    [] prop = "C25" -> JBot(r)
    [] prop = "C26" -> IF "part" \in DOMAIN r THEN JWords(r) ELSE JDict(r)
    [] prop = "C29" -> JGen(r)
    [] prop = "C27" -> JCli(r)
    [] prop = "C28" -> IF "dumps" \in DOMAIN r THEN JDump(r) ELSE JFDump(r)
=============================================================================
