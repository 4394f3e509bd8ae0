------------------------------ MODULE Directed ------------------------------
(* Derivations that go to a chosen reference in a chosen rule and unfold     *)
(* there: the way to the rule is kept short, the decisions beside and below  *)
(* the reference are taken evenly.  Case by case every reference of the      *)
(* grammar is visited.  A derivation may also stray: the rule referred to is *)
(* replaced by one of its family, which gives the texts of a grammar that    *)
(* differs in that one place.                                                *)
EXTENDS Gen, Peg
LOCAL INSTANCE SequencesExt
LOCAL FlatD(f(_), s) == FlattenSeq([j \in 1..Len(s) |-> f(s[j])])

NR == Len(RuleNames)
Far == 99
RECURSIVE RefsOf(_)
RefsOf(e) == CASE e.o = "R" -> IF e.n = "sp" THEN {} ELSE {RuleIx[e.n]}       \* what hangs on a word is no way to go
               [] e.o \in {"opt", "plus"} -> RefsOf(e.e)
               [] e.o \in {"seq", "alt"} -> UNION {RefsOf(e.es[j]) : j \in 1..Len(e.es)}
               [] OTHER -> {}
Refs == TLCEval([j \in 1..NR |-> RefsOf(G[RuleNames[j]])])
(* DistTo[g][r]: how many rules lie between r and g, by widening circles. *)
RECURSIVE Circles(_, _, _, _)
Circles(ds, seen, ring, n) ==
  IF ring = {} THEN ds
  ELSE LET next == TLCEval({j \in (1..NR) \ seen : Refs[j] \cap ring # {}})
       IN  Circles([j \in 1..NR |-> IF j \in next THEN n ELSE ds[j]], seen \cup next, next, n + 1)
DistTo == TLCEval([g \in 1..NR |-> TLCEval(Circles([j \in 1..NR |-> IF j = g THEN 0 ELSE Far], {g}, {g}, 1))])
(* The annotated grammar; each part knows the rules it mentions (rf) and the  *)
(* references in it (ids), which are numbered by where they stand.            *)
RECURSIVE Ment(_, _), SitesIn(_, _)
SitesIn(e, p) == CASE e.o = "R" -> IF e.n \in {"sp", "space_word"} THEN {} ELSE {p}
                   [] e.o \in {"opt", "plus"} -> SitesIn(e.e, p * 10)
                   [] e.o \in {"seq", "alt"} -> UNION {SitesIn(e.es[j], p * 10 + j) : j \in 1..Len(e.es)}
                   [] OTHER -> {}
Ment(e, p) == [rf |-> RefsOf(e), ids |-> SitesIn(e, p)] @@
           (CASE e.o \in {"opt", "plus"} -> [e EXCEPT !.e = Ment(@, p * 10)]
              [] e.o \in {"seq", "alt"} -> [e EXCEPT !.es = [j \in 1..Len(e.es) |-> Ment(e.es[j], p * 10 + j)]]
              [] OTHER -> e)
GM == TLCEval([j \in 1..NR |-> TLCEval(Ment(GA[j], j))])
RECURSIVE NearOf(_, _, _)
NearOf(ds, S, n) == IF n >= Far THEN Far ELSE IF \E k \in S : ds[k] = n THEN n ELSE IF \A k \in S : ds[k] = Far THEN Far ELSE NearOf(ds, S, n + 1)

(* Rules of a family stand for much the same thing. *)
Families == <<
  {"sentence", "sentence_1", "sentence_2"}, {"statement", "statement_1", "statement_2", "statement_3"}, {"statement", "relative_clause"}, {"statement", "content_clause"},
  {"predicate", "predicate_1", "predicate_2"}, {"serial_predicate", "predicate_1"}, {"terms", "term"}, {"terms_II", "terms_III", "terms"}, {"terms_III", "terms_IV"}, {"terms_IV", "terms_V"},
  {"argument", "arg_1", "arg_2", "linked_argument"}, {"arg_2", "arg_5"}, {"arg_5", "arg_6", "arg_7"}, {"relative_clause", "relative_clause_1", "relative_clause_2", "relative_clause_3"},
  {"relative_predicate", "relative_predicate_1", "relative_predicate_2"}, {"relative_predicate", "predicate"}, {"adverb", "adverb_1"}, {"adverb_3", "adverb_4", "predicate"}, {"adverb", "prepositional_phrase"},
  {"prepositional_phrase", "prepositional_phrase_1"}, {"preposition", "preposition_1", "preposition_2", "preposition_3", "preposition_4"}, {"preposition", "predicate"},
  {"content_clause", "content_clause_1"}, {"content_predicate", "content_predicate_1", "content_predicate_2"}, {"content_predicate", "predicate"},
  {"discourse", "sentence", "fragment"}, {"sentence", "statement"}, {"prenex", "terms"} >>
KinOf == TLCEval([j \in 1..NR |->
  LET S == UNION {Families[f] : f \in {f \in 1..Len(Families) : RuleNames[j] \in Families[f]}} \ {RuleNames[j]}
  IN  SelectSeq([k \in 1..NR |-> k], LAMBDA k : RuleNames[k] \in S)])
(* The references, rule by rule; those that can be replaced, with what by. *)
RECURSIVE SiteSeq(_, _)
SiteSeq(e, p) == CASE e.o = "R" -> IF e.n \in {"sp", "space_word"} THEN <<>> ELSE << <<p, RuleIx[e.n]>> >>
                   [] e.o \in {"opt", "plus"} -> SiteSeq(e.e, p * 10)
                   [] e.o \in {"seq", "alt"} -> FlatD(LAMBDA j : SiteSeq(e.es[j], p * 10 + j), [j \in 1..Len(e.es) |-> j])
                   [] OTHER -> <<>>
Sites == TLCEval(FlatD(LAMBDA j : LET S == SiteSeq(G[RuleNames[j]], j) IN [k \in 1..Len(S) |-> <<j, S[k][1], S[k][2], 0>>], SelectSeq([j \in 1..(NR - 1) |-> j + 1], LAMBDA j : RuleNames[j] \notin {"sp", "space_or_freemod"})))
Strays == TLCEval(FlatD(LAMBDA x : [k \in 1..Len(KinOf[x[3]]) |-> <<x[1], x[2], x[3], KinOf[x[3]][k]>>], Sites))

(* The state of a derivation: r, out, bud as in Gen. t: the site to go to, as *)
(* above; g: 1 on the way to its rule, 2 in the rule, 0 there or beside it;   *)
(* dd: decisions left on each way down.                                       *)
Near(t, g, e) == IF g = 2 THEN (IF t[2] \in e.ids THEN 0 ELSE Far) ELSE NearOf(DistTo[t[1]], e.rf, 0)
(* The part to follow: usually a nearest one. *)
Onward(es, st, t, g, far) ==
  LET ns == TLCEval([j \in 1..Len(es) |-> Near(t, g, es[j])])
      can == {j \in 1..Len(es) : ns[j] < Far}
      S == IF far THEN can ELSE {j \in can : \A m \in can : ns[j] <= ns[m]}
  IN  CHOOSE j \in S : Cardinality({m \in S : m < j}) = RVal(RNext(st.r), Cardinality(S))
RECURSIVE Dg(_, _, _, _, _), DgSeq(_, _, _, _, _, _, _), DgPlus(_, _, _, _)
Dg(e, st0, t, g, dd) ==
  LET st == Step(st0) d == IF st0.bud <= 0 THEN 0 ELSE dd far == g = 1 /\ st.bud > 3 /\ RVal(st.r, 5) < 2 IN
  CASE e.o = "R" ->
         IF e.n = "sp"
         THEN IF d > 0 /\ RVal(st.r, 30) = 0 THEN Dg(GM[RuleIx["space_or_freemod"]], st, t, 0, d - 1)
              ELSE IF RVal(st.r, 40) = 1 THEN st ELSE [st EXCEPT !.out = Append(@, SP)]
         ELSE LET ri == RuleIx[e.n] IN
              IF g = 1 THEN Dg(GM[ri], st, t, IF ri = t[1] THEN 2 ELSE 1, d)
              ELSE IF g = 2 THEN Dg(GM[IF t[4] = 0 THEN ri ELSE t[4]], st, t, 0, d)
              ELSE Dg(GM[ri], st, t, 0, d)
    [] e.o = "seq" -> DgSeq(e.es, 1, st, t, g, d, IF g = 0 THEN 0 ELSE Onward(e.es, st, t, g, far))
    [] e.o = "alt" ->
         IF g # 0 THEN Dg(e.es[Onward(e.es, st, t, g, far)], IF far THEN [st EXCEPT !.bud = @ - 1] ELSE st, t, g, d)
         ELSE LET least == {j \in 1..Len(e.es) : e.ms[j] = e.least}
                  S == IF d > 0 THEN 1..Len(e.es) ELSE least
                  j == CHOOSE j \in S : Cardinality({m \in S : m < j}) = RVal(st.r, Cardinality(S))
              IN Dg(e.es[j], st, t, 0, IF j \in least THEN d ELSE d - 1)
    [] e.o = "opt" -> IF g # 0 THEN Dg(e.e, st, t, g, d)
                      ELSE IF RVal(st.r, 1000) < (IF e.e.o = "N" THEN (IF d > 0 THEN 400 ELSE 250) ELSE IF d > 0 THEN 500 ELSE 30) THEN Dg(e.e, st, t, 0, IF d > 0 THEN d - 1 ELSE 0) ELSE st
    [] e.o = "plus" -> IF g # 0 THEN Dg(e.e, st, t, g, d) ELSE DgPlus(e.e, (IF d > 0 /\ RVal(st.r, 3) = 0 THEN 2 ELSE 1), st, d)
    [] OTHER -> [st EXCEPT !.out = Append(@, e), !.bud = IF dd > 0 THEN @ - 1 ELSE @]
(* Part c is the one to follow. Beside the way to the rule parts are kept     *)
(* short; in the rule they have some decisions too.                           *)
DgSeq(es, j, st, t, g, d, c) ==
  IF j > Len(es) THEN st
  ELSE DgSeq(es, j + 1, IF j = c THEN Dg(es[j], st, t, g, d)
                        ELSE Dg(es[j], st, t, 0, IF g = 1 THEN 0 ELSE IF g = 2 THEN (IF d > 2 THEN 2 ELSE d) ELSE d), t, g, d, c)
DgPlus(e, n, st, d) == IF n = 0 THEN st ELSE DgPlus(e, n - 1, Dg(e, st, <<0, 0, 0, 0>>, 0, d), d)

DirectedToks(t, r) == Dg(GM[1], [r |-> RWarm(RNext(r)), out |-> <<>>, bud |-> 4 + RVal(RNext(r), 7)], t, 1, 1 + RVal(r, 3)).out
DirectedText(pf, t, r) ==
  LET r2 == RWarm(RNext(RNext(r))) IN SpellToks(DirectedToks(t, r), 1, pf, r2, RWarm(RNext(r2)))
(* Consecutive numbers go through all sites, and through all replacements. *)
(* A text of the language if one of a few derivations gives one.              *)
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(pf, t, r, n) == LET s == TLCEval(DirectedText(pf, t, r)) IN IF n <= 1 \/ ParseText(s).ok THEN s ELSE ReachFrom(pf, t, RWarm(RNext(r)), n - 1)
ReachText(pf, i, r) == ReachFrom(pf, Sites[(i % Len(Sites)) + 1], r, 5)
StrayText(pf, i, r) == DirectedText(pf, Strays[(i % Len(Strays)) + 1], r)
=============================================================================
