-------------------------------- MODULE Memo --------------------------------
(* The parser's memo tables (ast/parser.go): whether each rule matches at each *)
(* position is remembered for good (a function of the text); the results built  *)
(* (syntax nodes, parse tree nodes, failures) are remembered only while one     *)
(* request is being answered.  The caller may change what it was given, at any   *)
(* time.  Whatever the history, an answer is a new, unchanged tree.              *)
(*                                                                              *)
(* Keys of results: a request for the text builds the text and its words, one    *)
(* for a word only that word.  Good: requests that the text satisfies.           *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NWords, MaxReq, Resets
VARIABLES tab, given, dirty, next, reqs, wrong
mvars == <<tab, given, dirty, next, reqs, wrong>>
Words == 1..NWords
Kinds == {"act", "node", "fail"}
KeysOf(rq) == IF rq = -1 \/ rq = 0 THEN {0} \cup Words ELSE {rq}
TableOf(rq, good) == IF ~good THEN "fail" ELSE IF rq = 0 THEN "node" ELSE "act"
Requests == {-1, 0} \cup Words        \* -1: the text, 0: the parse tree
MInit == /\ tab = [k \in Kinds |-> [x \in 0..NWords |-> 0]] /\ given = {} /\ dirty = {} /\ next = 1 /\ reqs = 0 /\ wrong = FALSE
(* Which requests the text satisfies is fixed; here, a word may fail. *)
GoodReq(rq) == rq # NWords
Ask(rq) ==
  /\ reqs < MaxReq
  /\ LET t == TableOf(rq, GoodReq(rq))
         keys == KeysOf(rq)
         new == {x \in keys : tab[t][x] = 0}
         \* new objects are numbered from next on
         num(x) == next + Cardinality({y \in new : y < x})
         full == [x \in 0..NWords |-> IF x \in new THEN num(x) ELSE tab[t][x]]
         ans == {full[x] : x \in keys}
     IN /\ wrong' = (wrong \/ ans \cap given # {} \/ ans \cap dirty # {})
        /\ given' = given \cup ans
        /\ tab' = [tab EXCEPT ![t] = IF t \in Resets THEN [x \in 0..NWords |-> 0] ELSE full]
        /\ next' = next + Cardinality(new)
  /\ reqs' = reqs + 1 /\ UNCHANGED dirty
Spoil(o) == o \in given /\ o \notin dirty /\ dirty' = dirty \cup {o} /\ UNCHANGED <<tab, given, next, reqs, wrong>>
MNext == (\E rq \in Requests : Ask(rq)) \/ (\E o \in given : Spoil(o))
MSpec == MInit /\ [][MNext]_mvars
FreshAnswers == ~wrong
=============================================================================
