------------------------------- MODULE Morph -------------------------------
(* Toaq morphology: syllables, words, spaces, normalised spelling.          *)
EXTENDS Chars

At(s, p) == IF p <= Len(s) THEN Attr(s[p]) ELSE Attr0
IsSpaceAt(s, p) == p <= Len(s) /\ Attr(s[p]).k = "space"
(* A word boundary: the start of another syllable, a space, or the end. *)
Boundary(s, p) == p > Len(s) \/ Attr(s[p]).k \in {"con", "space"}

(* Initial consonant cluster: its length (0 when there is none). *)
InitialLen(s, p) ==
  IF p > Len(s) \/ Attr(s[p]).k # "con" THEN 0
  ELSE IF /\ Attr(s[p]).b \in {cC, cS} /\ p < Len(s) /\ Attr(s[p+1]).k = "con" /\ Attr(s[p+1]).b = cH THEN 2 ELSE 1

(* What may follow the first vowel of a syllable, longest first. *)
Tails(v) ==
  CASE v = cA -> << <<cQ>>, <<cI>>, <<cO>>, <<>> >>
    [] v = cU -> << <<cQ>>, <<cA,cQ>>, <<cA,cI>>, <<cA,cO>>, <<cA>>, <<cI>>, <<cO,cQ>>, <<cO,cI>>, <<cO>>, <<cE,cQ>>, <<cE>>, <<>> >>
    [] v = cI -> << <<cQ>>, <<cA,cQ>>, <<cA,cI>>, <<cA,cO>>, <<cA>>, <<cU,cQ>>, <<cU>>, <<cO,cI>>, <<cO,cQ>>, <<cO>>, <<cE,cQ>>, <<cE>>, <<>> >>
    [] v = cO -> << <<cQ>>, <<cA,cQ>>, <<cA,cI>>, <<cA,cO>>, <<cA>>, <<cI>>, <<cE,cQ>>, <<cE>>, <<>> >>
    [] v = cE -> << <<cQ>>, <<cA,cQ>>, <<cA,cI>>, <<cA,cO>>, <<cA>>, <<cI>>, <<cO,cQ>>, <<cO>>, <<cU>>, <<>> >>
PlainAt(s, p, c) == LET a == At(s, p) IN a.k \in {"vow", "q"} /\ a.t = NoTone /\ a.b = c
TailMatches(s, p, tl) == \A i \in 1..Len(tl) : PlainAt(s, p + i - 1, tl[i])
RECURSIVE PickTail(_, _, _)
PickTail(s, p, tls) == IF TailMatches(s, p, Head(tls)) THEN Head(tls) ELSE PickTail(s, p, Tail(tls))

(* Normalised letters: a plain i is written dotless. *)
NormCh(c) == IF c = cI THEN Dotless ELSE c
NormSeq(s, p, n) == [i \in 1..n |-> NormCh(s[p + i - 1])]
RECURSIVE BaseStr(_, _, _)
BaseStr(s, p, n) == IF n = 0 THEN "" ELSE Letter[Attr(s[p]).b] \o BaseStr(s, p + 1, n - 1)

NoSyl == [ok |-> FALSE, t |-> NoTone, n |-> 0, out |-> <<>>, base |-> "", plain |-> 0]
(* The syllable at p: its tone (NoTone when neutral), the position after it,  *)
(* its normalised spelling, its plain letters, and, when the letters up to    *)
(* the end of the syllable carry no tone, the position where they end.        *)
Syl(s, p) ==
  LET il == InitialLen(s, p) IN
  IF il = 0 THEN NoSyl ELSE
  LET q == p + il
      a == At(s, q)
  IN IF a.k # "vow" THEN NoSyl ELSE
     LET m == At(s, q + 1)
         marked == a.t = NoTone /\ q < Len(s) /\ m.k \in {"mark", "comb"}
         t1 == IF marked THEN m.t ELSE a.t
         r  == IF marked THEN q + 2 ELSE q + 1          \* where the tail starts
         v1 == IF marked THEN Toned(m.t, a.b, a.up) ELSE IF a.t = NoTone THEN NormCh(s[q]) ELSE s[q]
         tl == PickTail(s, r, Tails(a.b))
         e  == r + Len(tl)
         late == t1 = NoTone /\ e <= Len(s) /\ Attr(s[e]).k = "mark"
         t  == IF late THEN Attr(s[e]).t ELSE t1
         v  == IF late THEN Toned(t, a.b, a.up) ELSE v1
         e2 == IF late THEN e + 1 ELSE e
         out == NormSeq(s, p, il) \o <<v>> \o NormSeq(s, r, Len(tl))
         base == BaseStr(s, p, il) \o Letter[a.b] \o BaseStr(s, r, Len(tl))
     IN  [ok |-> Boundary(s, e2), t |-> t, n |-> e2, out |-> out, base |-> base,
          plain |-> IF t1 = NoTone THEN e ELSE 0]

(* Function words by class. *)
FnClass(b) ==
  CASE b \in {"bi", "pa"} -> "BI"
    [] b \in {"da", "ka", "so", "ba"} -> "DA"
    [] b = "moq" -> "MOQ"
    [] b = "ga" -> "GA"
    [] b \in {"go", "fi", "cu", "ta"} -> "GO"
    [] b = "bei" -> "BEI"
    [] b = "hu" -> "HU"
    [] b = "ju" -> "JU"
    [] b = "ku" -> "KU"
    [] b = "ki" -> "KI"
    [] b = "kio" -> "KIO"
    [] b \in {"keo", "je"} -> "KEO"
    [] b \in {"lu", "li", "lo", "ma", "tio"} -> "LU"
    [] b \in {"mi", "shu"} -> "MI"
    [] b = "mo" -> "MO"
    [] b = "na" -> "NA"
    [] b \in {"jei", "po"} -> "PO"
    [] b \in {"ra", "ru", "ri", "roi", "ro", "re"} -> "RA"
    [] b \in {"ke", "tu", "sia", "sa", "hi", "ja"} -> "TU"
    [] b = "to" -> "TO"
    [] b = "teo" -> "TEO"
    [] OTHER -> ""
Neutral == {"BI","DA","GA","GO","BEI","HU","JU","KU","KI","KIO","KEO","NA","RA","TU","TO","TEO"}
Taking  == {"LU", "MI", "PO", "MO"}

RECURSIVE SpaceEnd(_, _)
SpaceEnd(s, p) == IF IsSpaceAt(s, p) THEN SpaceEnd(s, p + 1) ELSE p
RECURSIVE QEnd(_, _)
QEnd(s, p) == IF p <= Len(s) /\ s[p] = 63 THEN QEnd(s, p + 1) ELSE p
(* Macron syllables from p on: <<end, spelling, letters>>. *)
RECURSIVE MacronRun(_, _, _, _)
MacronRun(s, p, out, base) ==
  LET y == Syl(s, p) IN
  IF y.ok /\ y.t = TMacron THEN MacronRun(s, y.n, out \o y.out, base \o y.base) ELSE <<p, out, base>>

(* Everything the grammar can ask of the letters at one position. *)
(*  w: a predicate word (tone wt) ends at wn;  f: a taking function word      *)
(*  (class f, tone t) ends at n;  nt: a neutral function word of class nt;    *)
(*  sp: end of a run of spaces;  q: end of a run of question marks.           *)
NoLex == [w |-> 0, wout |-> <<>>, wbase |-> "", t |-> NoTone, f |-> "", nt |-> "", n |-> 0, out |-> <<>>, base |-> "", sp |-> 0, q |-> 0]
LexAt(s, p) ==
  LET a == At(s, p) IN
  CASE p > Len(s) -> NoLex
    [] a.k = "space" -> [NoLex EXCEPT !.sp = SpaceEnd(s, p)]
    [] a.k = "mark" /\ s[p] = 63 -> [NoLex EXCEPT !.q = QEnd(s, p)]
    [] a.k = "con" ->
       LET y == Syl(s, p)
           c == FnClass(y.base)
           toned == y.ok /\ y.t \notin {NoTone, TMacron}
           run == MacronRun(s, y.n, y.out, y.base)
           cmp == toned /\ run[1] > y.n
           word == toned /\ (cmp \/ c = "")
           moqq == y.base = "moq" /\ y.plain > 0 /\
                   (Boundary(s, y.plain) \/ (LET qe == QEnd(s, y.plain) IN qe > y.plain /\ Boundary(s, qe)))
       IN [w |-> IF word THEN run[1] ELSE 0,
           wout |-> IF word THEN run[2] ELSE <<>>,
           wbase |-> IF word THEN run[3] ELSE "",
           t |-> y.t,
           f |-> IF toned /\ c \in Taking THEN c ELSE "",
           nt |-> IF moqq THEN "MOQ" ELSE IF y.ok /\ y.t = NoTone /\ c \in Neutral THEN c ELSE "",
           n |-> IF moqq THEN y.plain ELSE y.n,
           out |-> IF moqq THEN NormSeq(s, p, y.plain - p) ELSE y.out,
           base |-> y.base,
           sp |-> 0, q |-> 0]
    [] OTHER -> NoLex
=============================================================================
