----------------------------- MODULE CheckMain -----------------------------
(* Trace checking: each step takes the records of one chunk, as observed in  *)
(* the real code, and compares them with what the specification says.        *)
EXTENDS Judge, Json, IOUtils

Env(n) == IOEnv[n]
NCHUNK == atoi(Env("NCHUNK"))
PROP   == Env("PROP")
DIR    == Env("DIR")

VARIABLE vv
Init == vv \in {[c |-> c, done |-> FALSE, bad |-> {}] : c \in 1..NCHUNK}
(* Tuples <<0, "">> when nothing is wrong with a record. *)
Judged(recs) == [j \in 1..Len(recs) |-> Judge(PROP, recs[j])]
Summary(js) ==
  LET bad == {j \in 1..Len(js) : js[j].msg # ""}
      labels == {js[j].cov : j \in 1..Len(js)}
  IN  [n |-> Len(js),
       cov |-> [l \in labels |-> Cardinality({j \in 1..Len(js) : js[j].cov = l})],
       bad |-> {[j |-> j, msg |-> js[j].msg] : j \in bad}]
(* The singleton sets make TLC evaluate each of these once. *)
Next == /\ ~vv.done
        /\ \E ch \in {vv.c} :
           \E recs \in {ndJsonDeserialize(DIR \o "/rec_" \o ToString(ch) \o ".ndjson")} :
           \E js \in {Judged(recs)} :
           \E out \in {Summary(js)} :
              /\ ndJsonSerialize(DIR \o "/res_" \o ToString(ch) \o ".ndjson", <<out>>)
              /\ vv' = [vv EXCEPT !.done = TRUE, !.bad = {b.j : b \in out.bad}]
Spec == Init /\ [][Next]_vv
Conforms == vv.bad = {}
=============================================================================
