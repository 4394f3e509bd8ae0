-------------------------------- MODULE Tree --------------------------------
(* What the library says about syntax trees: order of words, extents,        *)
(* traversal, equality, bracketing, ASCII form.  Trees are those of Peg.     *)
EXTENDS Peg

IsWord(x) == x.k = "Word"
(* Concatenation of F applied to each element. *)
RECURSIVE FlatFrom(_, _)
FlatFrom(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatFrom(ss, i + 1)
FlatMap(Fn(_), s) == LET ss == TLCEval([i \in 1..Len(s) |-> Fn(s[i])]) IN FlatFrom(ss, 1)

(* Words in source order, each followed by what is attached to it. *)
RECURSIVE WordsOf(_)
WordsOf(x) == (IF IsWord(x) THEN <<x>> ELSE <<>>) \o FlatMap(WordsOf, x.c)
(* All present nodes, parents before children, in source order. *)
RECURSIVE NodesOf(_)
NodesOf(x) == IF IsNil(x) THEN <<>> ELSE <<x>> \o FlatMap(NodesOf, x.c)

RECURSIVE FirstS(_), FirstSIn(_, _)
FirstSIn(c, i) == IF i > Len(c) THEN -1 ELSE LET o == FirstS(c[i]) IN IF o >= 0 THEN o ELSE FirstSIn(c, i + 1)
FirstS(x) == IF IsWord(x) THEN x.S ELSE FirstSIn(x.c, 1)

(* ----- Extents ----- *)
RECURSIVE Start(_), End(_)
RECURSIVE FirstPresent(_, _)
FirstPresent(c, i) == IF i > Len(c) THEN 0 ELSE IF ~IsNil(c[i]) THEN i ELSE FirstPresent(c, i + 1)
(* An empty discourse extends nowhere, and a text is its discourse if it has one. *)
Start(x) == CASE IsWord(x) -> x.S
              [] x.k = "Text" -> IF x.c[2].c = <<>> /\ ~IsNil(x.c[1]) THEN Start(x.c[1]) ELSE Start(x.c[2])
              [] x.c = <<>> -> 0
              [] OTHER -> Start(x.c[FirstPresent(x.c, 1)])
End(x) == CASE IsWord(x) -> x.E
            [] x.k = "Text" -> IF x.c[2].c = <<>> /\ ~IsNil(x.c[1]) THEN End(x.c[1]) ELSE End(x.c[2])
            [] x.c = <<>> -> 0
            [] OTHER -> End(x.c[LastPresent(x.c, Len(x.c))])

(* ----- Traversal ----- *)
(* A visitor is a number; the policy prunes every pr-th call and changes the *)
(* visitor at every fr-th call (0: never).                                   *)
RECURSIVE Trav(_, _, _, _, _), TravKids(_, _, _, _, _, _)
Trav(x, v, pr, fr, st) ==
  IF IsNil(x) THEN st ELSE
  LET n == st.calls + 1
      st1 == [st EXCEPT !.ev = Append(@, <<v, x.k, FirstS(x)>>), !.calls = n]
      new == fr > 0 /\ n % fr = 0
      v2 == IF new THEN st.next + 1 ELSE v
      st2 == IF new THEN [st1 EXCEPT !.next = @ + 1] ELSE st1
  IN  IF pr > 0 /\ n % pr = 0 THEN st1
      ELSE LET st3 == TravKids(x.c, 1, v2, pr, fr, st2) IN [st3 EXCEPT !.ev = Append(@, <<v2, "nil", -1>>)]
TravKids(c, i, v, pr, fr, st) == IF i > Len(c) THEN st ELSE TravKids(c, i + 1, v, pr, fr, Trav(c[i], v, pr, fr, st))
VisitTrace(x, pr, fr) == Trav(x, 0, pr, fr, [ev |-> <<>>, calls |-> 0, next |-> 0]).ev

(* ----- Equality: structure and word texts, not positions ----- *)
RECURSIVE TreeEq(_, _)
TreeEq(a, b) == /\ a.k = b.k
                /\ Len(a.c) = Len(b.c)
                /\ (IsWord(a) => a.T = b.T)
                /\ \A i \in 1..Len(a.c) : TreeEq(a.c[i], b.c[i])

(* First difference between two trees, positions included ("" if none). *)
RECURSIVE TreeDiff(_, _, _), KidsDiff(_, _, _, _)
TreeDiff(a, b, pos) ==
  IF a.k # b.k THEN "expected " \o a.k \o " got " \o b.k
  ELSE IF IsWord(a) /\ a.T # b.T THEN "expected word " \o ToString(a.T) \o " got " \o ToString(b.T)
  ELSE IF IsWord(a) /\ pos /\ (a.S # b.S \/ a.E # b.E) THEN "expected range " \o ToString(<<a.S, a.E>>) \o " got " \o ToString(<<b.S, b.E>>)
  ELSE IF Len(a.c) # Len(b.c) THEN "expected " \o ToString(Len(a.c)) \o " parts of " \o a.k \o " got " \o ToString(Len(b.c))
  ELSE KidsDiff(a, b, pos, 1)
KidsDiff(a, b, pos, i) ==
  IF i > Len(a.c) THEN ""
  ELSE LET d == TreeDiff(a.c[i], b.c[i], pos) IN IF d = "" THEN KidsDiff(a, b, pos, i + 1) ELSE a.k \o ": " \o d
(* The same without the texts of the words: kinds, nesting and starts. *)
RECURSIVE ShapeDiff(_, _), ShapeKids(_, _, _)
ShapeDiff(a, b) ==
  IF a.k # b.k THEN "expected " \o a.k \o " got " \o b.k
  ELSE IF IsWord(a) /\ a.S # b.S THEN "expected word at " \o ToString(a.S) \o " got " \o ToString(b.S)
  ELSE IF Len(a.c) # Len(b.c) THEN "expected " \o ToString(Len(a.c)) \o " parts of " \o a.k \o " got " \o ToString(Len(b.c))
  ELSE ShapeKids(a, b, 1)
ShapeKids(a, b, i) ==
  IF i > Len(a.c) THEN ""
  ELSE LET d == ShapeDiff(a.c[i], b.c[i]) IN IF d = "" THEN ShapeKids(a, b, i + 1) ELSE a.k \o ": " \o d

(* ----- Bracketing ----- *)
Opens  == <<40, 123, 91, 60>>     \* ( { [ <
Closes == <<41, 125, 93, 62>>     \* ) } ] >
(* A part of the rendering: a space stands for what is attached to it. *)
RECURSIVE NoSpace(_)
NoSpace(x) == IF x.k = "Space" THEN NoSpace(x.c[1].c[1]) ELSE x
RECURSIVE Parts(_, _)
Parts(c, i) == IF i > Len(c) THEN <<>> ELSE LET y == NoSpace(c[i]) IN (IF IsNil(y) THEN <<>> ELSE <<y>>) \o Parts(c, i + 1)
RECURSIVE Braces(_, _), JoinBr(_, _, _)
JoinBr(ps, i, d) == IF i > Len(ps) THEN <<>> ELSE (IF i > 1 THEN <<32>> ELSE <<>>) \o Braces(ps[i], d) \o JoinBr(ps, i + 1, d)
Braces(x, d) ==
  IF x.k = "lit" THEN x.T
  ELSE LET y == NoSpace(x) IN
  IF IsNil(y) THEN <<>> ELSE
  LET ps == (IF IsWord(y) THEN <<[k |-> "lit", T |-> y.T]>> ELSE <<>>) \o Parts(y.c, 1)
  IN IF Len(ps) > 1 THEN <<Opens[d + 1]>> \o JoinBr(ps, 1, (d + 1) % 4) \o <<Closes[d + 1]>>
     ELSE JoinBr(ps, 1, d)

(* ----- Tones of normalised words ----- *)
IsVow(c) == Attr(c).k = "vow"
UnTone(c) == LET a == Attr(c) IN IF a.k = "vow" THEN (IF a.up THEN a.b - 32 ELSE a.b) ELSE c
(* Letters of each syllable followed by the tone mark of the syllable.  A      *)
(* syllable's letters end before the next letter that is no vowel and no q.    *)
RECURSIVE AscR(_, _, _)
AscR(T, i, pending) ==
  IF i > Len(T) THEN (IF pending = NoTone THEN <<>> ELSE <<pending>>)
  ELSE LET a == Attr(T[i]) IN
       IF pending # NoTone /\ a.k \notin {"vow", "q"} THEN <<pending, T[i]>> \o AscR(T, i + 1, NoTone)
       ELSE IF a.k = "vow" /\ a.t # NoTone THEN <<UnTone(T[i])>> \o AscR(T, i + 1, a.t)
       ELSE <<UnTone(T[i])>> \o AscR(T, i + 1, pending)
AscOf(T) == AscR(T, 1, NoTone)
StripOf(T) == [i \in 1..Len(T) |-> UnTone(T[i])]
RECURSIVE FirstVow(_, _)
FirstVow(T, i) == IF i > Len(T) THEN 0 ELSE IF IsVow(T[i]) THEN i ELSE FirstVow(T, i + 1)
WithToneOf(T, t) ==
  LET i == FirstVow(T, 1) IN
  IF i = 0 THEN T ELSE LET a == Attr(T[i]) IN
  [T EXCEPT ![i] = IF t = NoTone THEN (IF a.up THEN a.b - 32 ELSE NormCh(a.b)) ELSE Toned(t, a.b, a.up)]
RECURSIVE ToneOfT(_, _)
ToneOfT(T, i) == IF i > Len(T) THEN NoTone ELSE LET a == Attr(T[i]) IN IF a.k = "vow" /\ a.t # NoTone THEN a.t ELSE ToneOfT(T, i + 1)

(* Prefixed predicates, which no text has: put before word predicates by hand, *)
(* 1 to 3 at certain offsets, 4 everywhere, 5 everywhere and twice.            *)
MuWord(o) == [k |-> "Word", c |-> <<Nil>>, T |-> IF o % 2 = 0 THEN <<109, 117>> ELSE <<77, 250>>, S |-> o, E |-> o]
Prefixed(x) == Node("PrefixedPredicate", <<MuWord(x.c[1].S), x>>)
RECURSIVE WithMu(_, _)
WithMu(x, mu) ==
  IF mu = 0 THEN x
  ELSE LET y == [x EXCEPT !.c = [i \in 1..Len(x.c) |-> WithMu(x.c[i], mu)]] IN
       IF x.k # "WordPredicate" THEN y
       ELSE CASE mu = 5 -> [Prefixed(y) EXCEPT !.c[2] = Prefixed(y)]
              [] mu = 4 \/ x.c[1].S % 3 = mu - 1 -> Prefixed(y)
              [] OTHER -> y
(* Tree with its words in ASCII; tree spelled out. *)
RECURSIVE AscTree(_)
AscTree(x) == LET y == [x EXCEPT !.c = [i \in 1..Len(x.c) |-> AscTree(x.c[i])]] IN IF IsWord(x) THEN [y EXCEPT !.T = AscOf(@)] ELSE y
Spell(x) == FlatMap(LAMBDA w : w.T, WordsOf(x))
=============================================================================
