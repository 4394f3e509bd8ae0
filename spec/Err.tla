-------------------------------- MODULE Err --------------------------------
(* Where a rejected text cannot be continued: the furthest position at which *)
(* any attempt of the recogniser failed.  A look-ahead fails where it starts, *)
(* and so does a run of spaces.                                               *)
EXTENDS Peg

Mx(a, b) == IF a > b THEN a ELSE b
(* Letters of a tail that match from r on. *)
RECURSIVE TailMatch(_, _, _, _)
TailMatch(s, r, tl, i) == IF i > Len(tl) \/ ~PlainAt(s, r + i - 1, tl[i]) THEN i - 1 ELSE TailMatch(s, r, tl, i + 1)
(* Trying the tails of a vowel in order: <<position after the first that fits, furthest failure>>. *)
RECURSIVE TryTails(_, _, _, _)
TryTails(s, r, tls, far) ==
  LET tl == Head(tls) n == TailMatch(s, r, tl, 1) IN
  IF n = Len(tl) THEN <<r + n, far>> ELSE TryTails(s, r, Tail(tls), Mx(far, r + n))

(* A syllable in tone t (NoTone: neutral): [ok, n, far].  moq: question marks  *)
(* may stand before the boundary.                                              *)
SylErr(s, p, t, moq) ==
  LET il == InitialLen(s, p) q == p + il a == At(s, q) m == At(s, q + 1) IN
  IF il = 0 THEN [ok |-> FALSE, n |-> 0, far |-> p]
  ELSE IF a.k # "vow" THEN [ok |-> FALSE, n |-> 0, far |-> q]
  ELSE
  LET end(e, far) == IF Boundary(s, e) \/ (moq /\ QEnd(s, e) > e /\ Boundary(s, QEnd(s, e)))
                     THEN [ok |-> TRUE, n |-> e, far |-> far] ELSE [ok |-> FALSE, n |-> 0, far |-> Mx(far, e)]
      \* the vowel of another kind fails at q: always tried before u, i, o, e
      f0 == IF a.b = cA THEN (IF a.t = NoTone /\ t # NoTone THEN q ELSE p) ELSE q
  IN IF t = NoTone THEN
        IF a.t # NoTone THEN [ok |-> FALSE, n |-> 0, far |-> q]
        ELSE LET x == TryTails(s, q + 1, Tails(a.b), f0) IN end(x[1], x[2])
     ELSE IF a.t = t THEN LET x == TryTails(s, q + 1, Tails(a.b), f0) IN end(x[1], x[2])
     ELSE IF a.t # NoTone THEN [ok |-> FALSE, n |-> 0, far |-> q]
     ELSE IF q < Len(s) /\ m.k \in {"mark", "comb"} /\ m.t = t THEN LET x == TryTails(s, q + 2, Tails(a.b), f0) IN end(x[1], x[2])
     ELSE LET x == TryTails(s, q + 1, Tails(a.b), Mx(f0, q + 1)) e == x[1] IN
          IF e <= Len(s) /\ Attr(s[e]).k = "mark" /\ Attr(s[e]).t = t THEN end(e + 1, x[2])
          ELSE [ok |-> FALSE, n |-> 0, far |-> Mx(x[2], e)]

(* The class of function word whose letters stand at p, in any tone ("" if    *)
(* none): the letters, with the mark of the vowel if any, then at most one     *)
(* more mark, then a boundary.                                                 *)
FnLetters(s, p) ==
  LET il == InitialLen(s, p) q == p + il a == At(s, q) m == At(s, q + 1)
      r == IF a.t = NoTone /\ q < Len(s) /\ m.k \in {"mark", "comb"} THEN q + 2 ELSE q + 1
  IN IF il = 0 \/ a.k # "vow" THEN ""
     ELSE LET tl == PickTail(s, r, Tails(a.b))
              e == r + Len(tl)
              b == BaseStr(s, p, il) \o Letter[a.b] \o BaseStr(s, r, Len(tl))
              c == FnClass(b)
              e2 == IF e <= Len(s) /\ Attr(s[e]).k = "mark" THEN e + 1 ELSE e
          IN IF c = "TO" THEN (IF Boundary(s, e) THEN c ELSE "")
             ELSE IF Boundary(s, e2) \/ (e2 = e /\ Boundary(s, e)) THEN c
             ELSE IF c = "MOQ" /\ QEnd(s, e) > e /\ Boundary(s, QEnd(s, e)) THEN c ELSE ""
(* A lone m counts as a function word too. *)
FnAt(s, p) == LET c == FnLetters(s, p) IN
  IF c # "" THEN c
  ELSE IF p <= Len(s) /\ Attr(s[p]).b = cM /\ Attr(s[p]).k = "con"
          /\ (Boundary(s, p + 1) \/ (p < Len(s) /\ Attr(s[p+1]).k = "mark" /\ Boundary(s, p + 2))) THEN "BEI" ELSE ""

RECURSIVE CmpRun(_, _, _)
(* Compound syllables from p on: <<end, furthest failure>>. *)
CmpRun(s, p, far) == LET y == SylErr(s, p, TMacron, FALSE) IN IF y.ok THEN CmpRun(s, y.n, Mx(far, y.far)) ELSE <<p, Mx(far, y.far)>>

(* One terminal of the grammar at p: [ok, n, far]. *)
TermErr(s, p, e) ==
  IF e.o = "SP" THEN LET n == SpaceEnd(s, p) IN [ok |-> n > p, n |-> n, far |-> n]
  ELSE IF e.o = "Q" THEN LET n == QEnd(s, p) IN [ok |-> n > p, n |-> n, far |-> n]
  ELSE IF p > Len(s) \/ Attr(s[p]).k # "con" THEN [ok |-> FALSE, n |-> 0, far |-> p]
  ELSE CASE e.o = "N" -> IF FnAt(s, p) # e.c THEN [ok |-> FALSE, n |-> 0, far |-> p] ELSE SylErr(s, p, NoTone, e.c = "MOQ")
         [] e.o = "F" -> IF FnAt(s, p) # e.c THEN [ok |-> FALSE, n |-> 0, far |-> p] ELSE SylErr(s, p, e.t, FALSE)
         [] e.o = "W" -> LET y == SylErr(s, p, e.t, FALSE) IN
              IF ~y.ok THEN y ELSE
              LET run == CmpRun(s, y.n, y.far) IN
              IF run[1] > y.n THEN [ok |-> TRUE, n |-> run[1], far |-> run[2]]
              ELSE IF FnAt(s, p) # "" THEN [ok |-> FALSE, n |-> 0, far |-> Mx(run[2], p)]
              ELSE [ok |-> TRUE, n |-> y.n, far |-> run[2]]

(* The recogniser of Peg again, without trees and without short cuts, keeping *)
(* the furthest failure.  A result is <<matched, next position, memo, far>>.  *)
RECURSIVE Er(_, _, _, _, _), ErSeq(_, _, _, _, _, _), ErAlt(_, _, _, _, _, _), ErPlus(_, _, _, _, _, _)
Er(s, e, p, m, far) ==
  CASE e.o = "R" ->
        LET ri == RuleIx[e.n]  hit == m[p][ri] IN
        IF hit # 0 THEN (IF hit < 0 THEN <<FALSE, 0, m, far>> ELSE <<TRUE, hit, m, far>>)
        ELSE LET r == Er(s, G[e.n], p, m, far) IN <<r[1], r[2], [r[3] EXCEPT ![p][ri] = IF r[1] THEN r[2] ELSE -1], r[4]>>
    [] e.o = "seq" -> ErSeq(s, e.es, 1, p, m, far)
    [] e.o = "alt" -> ErAlt(s, e.es, 1, p, m, far)
    [] e.o = "opt" -> LET r == Er(s, e.e, p, m, far) IN IF r[1] THEN r ELSE <<TRUE, p, r[3], r[4]>>
    [] e.o = "plus" -> ErPlus(s, e.e, p, FALSE, m, far)
    [] OTHER -> LET y == TermErr(s, p, e) IN <<y.ok, y.n, m, Mx(far, y.far)>>
ErSeq(s, es, i, p, m, far) == IF i > Len(es) THEN <<TRUE, p, m, far>>
  ELSE LET r == Er(s, es[i], p, m, far) IN IF r[1] THEN ErSeq(s, es, i + 1, r[2], r[3], r[4]) ELSE <<FALSE, 0, r[3], r[4]>>
ErAlt(s, es, i, p, m, far) == LET r == Er(s, es[i], p, m, far) IN IF r[1] \/ i = Len(es) THEN r ELSE ErAlt(s, es, i + 1, p, r[3], r[4])
ErPlus(s, e, p, some, m, far) == LET r == Er(s, e, p, m, far) IN
  IF r[1] THEN ErPlus(s, e, r[2], TRUE, r[3], r[4]) ELSE <<some, p, r[3], r[4]>>

ErrRow == [i \in 1..Len(RuleNames) |-> 0]
(* [ok, at]: at is the furthest position of a rejected text. *)
Furthest(s) ==
  LET r == Er(s, R("text"), 1, TLCEval([p \in 1..(Len(s) + 1) |-> ErrRow]), 1)
  IN  [ok |-> r[2] = Len(s) + 1, at |-> Mx(r[4], r[2])]

(* A failed request for a word at p (p not the position of a word): where it  *)
(* could not continue.                                                        *)
Tones6 == <<TAcute, TCaron, THook, TCirc, TGrave, TTilde>>
RECURSIVE AnyTone(_, _, _, _)
AnyTone(s, p, i, far) == IF i > 6 THEN [ok |-> FALSE, n |-> 0, far |-> far]
  ELSE LET y == SylErr(s, p, Tones6[i], FALSE) IN IF y.ok THEN [y EXCEPT !.far = Mx(far, y.far)] ELSE AnyTone(s, p, i + 1, Mx(far, y.far))
WordFurthest(s, p) ==
  IF p > Len(s) \/ Attr(s[p]).k # "con" THEN p
  ELSE LET ini == AnyTone(s, p, 1, p)
           run == IF ini.ok THEN CmpRun(s, ini.n, ini.far) ELSE <<0, ini.far>>
           neu == SylErr(s, p, NoTone, FALSE)
           cls == FnAt(s, p)
           mac == SylErr(s, p, TMacron, FALSE)
           taking == ~neu.ok /\ cls \in Taking
           f1 == IF taking THEN Mx(run[2], mac.far) ELSE run[2]
           f2 == IF cls # "" THEN Mx(f1, neu.far) ELSE f1
       IN  Mx(p, f2)

RECURSIVE LineOf(_, _, _), ColOf(_, _, _)
LineOf(s, p, i) == IF i >= p THEN 1 ELSE (IF s[i] = 10 THEN 1 ELSE 0) + LineOf(s, p, i + 1)
ColOf(s, p, acc) == IF acc[1] >= p THEN acc[2] ELSE ColOf(s, p, <<acc[1] + 1, IF s[acc[1]] = 10 THEN 1 ELSE acc[2] + 1>>)
=============================================================================
