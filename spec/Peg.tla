-------------------------------- MODULE Peg --------------------------------
(* The meaning of the grammar: a packrat recogniser that builds the tree.   *)
(* Nodes are [k |-> kind, c |-> children in source order (Nil if absent)];  *)
(* a Word additionally has T (normalised code points), S and E (byte        *)
(* offsets), b (plain letters) and t (tone of its first syllable), and its  *)
(* single child is the modifier attached to it.                             *)
EXTENDS Grammar

Nil == [k |-> "nil", c |-> <<>>]
IsNil(x) == x.k = "nil"
Node(k, c) == [k |-> k, c |-> c]
MkWord(T, S, E, b, t) == [k |-> "Word", c |-> <<Nil>>, T |-> T, S |-> S, E |-> E, b |-> b, t |-> t]

RECURSIVE LastPresent(_, _)
LastPresent(c, i) == IF i = 0 THEN 0 ELSE IF ~IsNil(c[i]) THEN i ELSE LastPresent(c, i - 1)
(* Attach modifier m to the last word of x. *)
RECURSIVE Att(_, _)
Att(x, m) ==
  IF IsNil(m) THEN x
  ELSE LET i == LastPresent(x.c, Len(x.c)) IN
       IF i = 0 THEN [x EXCEPT !.c = <<m>>]     \* a word without a modifier yet
       ELSE [x EXCEPT !.c[i] = Att(@, m)]

ModOf(v) == IF v.k = "_" THEN v.c[1] ELSE v
(* Children of a node from the values of its parts. *)
RECURSIVE Kids(_, _, _)
Kids(vs, i, acc) ==
  IF i > Len(vs) THEN acc
  ELSE IF vs[i].k = "_" THEN
         IF IsNil(vs[i].c[1]) THEN Kids(vs, i + 1, acc)
         ELSE LET j == LastPresent(acc, Len(acc)) IN Kids(vs, i + 1, [acc EXCEPT ![j] = Att(@, vs[i].c[1])])
       ELSE Kids(vs, i + 1, Append(acc, vs[i]))

Act(e, vs) ==
  CASE e.a = "node"     -> Node(e.k, Kids(vs, 1, <<>>))
    [] e.a = "wrap"     -> Node(e.k, vs)
    [] e.a = "mod"      -> Att(vs[1], ModOf(vs[2]))
    [] e.a = "_"        -> Node("_", vs)
    [] e.a = "sentence" -> Node("StatementSentence", Kids(vs, 1, <<>>))
    [] e.a = "prenexst" -> IF IsNil(vs[1]) THEN vs[2] ELSE Node("PrenexStatement", vs)
    [] e.a = "linked"   -> IF IsNil(vs[1]) THEN vs[2] ELSE Node("LinkedTerm", vs)
    [] e.a = "cons"     -> Node("Terms", <<Att(vs[1], ModOf(vs[2]))>> \o vs[3].c)
    [] e.a = "list1"    -> Node("Terms", vs)
    [] e.a = "list"     -> Node("Discourse", vs[1].c)
    [] e.a = "text"     -> Node("Text", <<vs[1], IF IsNil(vs[2]) THEN Node("Discourse", <<>>) ELSE vs[2]>>)

(* Evaluation context: cx.lx lexical table per position, cx.of byte offsets. *)
(* A result is <<matched, next position, value, memo>>.                      *)
Fail(m) == <<FALSE, 0, Nil, m>>
RECURSIVE Ev(_, _, _, _), EvSeq(_, _, _, _, _, _), EvAlt(_, _, _, _, _), EvPlus(_, _, _, _, _)
Ev(cx, e, p, m) ==
  CASE e.o = "R" ->
        LET ri == RuleIx[e.n]  hit == m[p][ri] IN
        IF ~\E kk \in cx.ks[p] : CanStart[ri][kk] THEN Fail(m)
        ELSE IF hit # <<>> THEN <<hit[1], hit[2], hit[3], m>>
        ELSE LET r == Ev(cx, G[e.n], p, m) IN <<r[1], r[2], r[3], [r[4] EXCEPT ![p][ri] = <<r[1], r[2], r[3]>>]>>
    [] e.o = "seq" -> EvSeq(cx, e, 1, p, <<>>, m)
    [] e.o = "alt" -> EvAlt(cx, e.es, 1, p, m)
    [] e.o = "opt" -> LET r == Ev(cx, e.e, p, m) IN IF r[1] THEN r ELSE <<TRUE, p, Nil, r[4]>>
    [] e.o = "plus" -> EvPlus(cx, e.e, p, <<>>, m)
    [] e.o = "N" -> LET x == cx.lx[p] IN
        IF x.nt = e.c THEN <<TRUE, x.n, MkWord(x.out, cx.of[p], cx.of[x.n], x.base, NoTone), m>> ELSE Fail(m)
    [] e.o = "W" -> LET x == cx.lx[p] IN
        IF x.w > 0 /\ x.t = e.t THEN <<TRUE, x.w, MkWord(x.wout, cx.of[p], cx.of[x.w], x.wbase, x.t), m>> ELSE Fail(m)
    [] e.o = "F" -> LET x == cx.lx[p] IN
        IF x.f = e.c /\ x.t = e.t THEN <<TRUE, x.n, MkWord(x.out, cx.of[p], cx.of[x.n], x.base, x.t), m>> ELSE Fail(m)
    [] e.o = "SP" -> LET x == cx.lx[p] IN
        IF x.sp > 0 THEN <<TRUE, x.sp, MkWord(SubSeq(cx.s, p, x.sp - 1), cx.of[p], cx.of[x.sp], "", NoTone), m>> ELSE Fail(m)
    [] e.o = "Q" -> LET x == cx.lx[p] IN
        IF x.q > 0 THEN <<TRUE, x.q, MkWord(SubSeq(cx.s, p, x.q - 1), cx.of[p], cx.of[x.q], "", NoTone), m>> ELSE Fail(m)
EvSeq(cx, e, i, p, vs, m) ==
  IF i > Len(e.es) THEN <<TRUE, p, Act(e, vs), m>>
  ELSE LET r == Ev(cx, e.es[i], p, m) IN
       IF r[1] THEN EvSeq(cx, e, i + 1, r[2], Append(vs, r[3]), r[4]) ELSE Fail(r[4])
EvAlt(cx, es, i, p, m) ==
  LET r == Ev(cx, es[i], p, m) IN
  IF r[1] \/ i = Len(es) THEN r ELSE EvAlt(cx, es, i + 1, p, r[4])
EvPlus(cx, e, p, vs, m) ==
  LET r == Ev(cx, e, p, m) IN
  IF r[1] THEN EvPlus(cx, e, r[2], Append(vs, r[3]), r[4])
  ELSE IF vs = <<>> THEN Fail(r[4]) ELSE <<TRUE, p, Node("list", vs), r[4]>>

EmptyRow == [i \in 1..Len(RuleNames) |-> <<>>]
Context(s) == LET lx == TLCEval([p \in 1..(Len(s) + 1) |-> LexAt(s, p)]) IN
  [s |-> s, of |-> Offs(s), lx |-> lx, ks |-> [p \in 1..(Len(s) + 1) |-> LET x == KeysOf(lx[p]) IN IF x = {} THEN {0} ELSE x]]
(* Parse a text: [ok, tree]. *)
ParseText(s) ==
  LET cx == TLCEval(Context(s))
      r == Ev(cx, R("text"), 1, TLCEval([p \in 1..(Len(s) + 1) |-> EmptyRow]))
  IN  [ok |-> r[2] = Len(s) + 1, end |-> r[2], tree |-> IF r[2] = Len(s) + 1 THEN r[3] ELSE Nil]
=============================================================================
