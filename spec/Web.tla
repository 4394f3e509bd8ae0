--------------------------------- MODULE Web ---------------------------------
(* The web service as a state machine: any number of requests are in progress *)
(* at once; each has its own parser and goes through its stages; aborted       *)
(* requests end without an answer.  Answers depend on the request alone, every *)
(* request that is not aborted is answered once, and the service goes on.      *)
EXTENDS Integers, FiniteSets
CONSTANTS Reqs, Methods, Bodies
VARIABLES req, stage, own, out, up
wvars == <<req, stage, own, out, up>>
(* Abstract library: the class of a body. *)
Class(b) == CASE b = 1 -> "formula" [] b = 2 -> "fragment" [] b = 3 -> "rejected" [] OTHER -> "unimplemented"
Wanted(q) == CASE q.m = "GET" -> [status |-> 200, what |-> "page"]
               [] q.m = "POST" -> [status |-> 200, what |-> <<Class(q.b), q.b>>]
               [] OTHER -> [status |-> 405, what |-> "refused"]
Nothing == [status |-> 0, what |-> ""]
WInit == /\ req = [i \in Reqs |-> [m |-> "", b |-> 0]] /\ stage = [i \in Reqs |-> "none"] /\ own = [i \in Reqs |-> ""]
         /\ out = [i \in Reqs |-> Nothing] /\ up = TRUE
Open(i) == \E m \in Methods : \E b \in Bodies : /\ stage[i] = "none" /\ req' = [req EXCEPT ![i] = [m |-> m, b |-> b]]
           /\ stage' = [stage EXCEPT ![i] = "open"] /\ UNCHANGED <<own, out, up>>
Abort(i) == stage[i] = "open" /\ stage' = [stage EXCEPT ![i] = "gone"] /\ UNCHANGED <<req, own, out, up>>
ReadBody(i) == /\ stage[i] = "open" /\ up
               /\ stage' = [stage EXCEPT ![i] = IF req[i].m = "POST" THEN "parse" ELSE "reply"] /\ UNCHANGED <<req, own, out, up>>
Parse(i) == /\ stage[i] = "parse" /\ up
            /\ own' = [own EXCEPT ![i] = IF Class(req[i].b) = "rejected" THEN "rejected" ELSE "tree"]
            /\ stage' = [stage EXCEPT ![i] = IF Class(req[i].b) = "rejected" THEN "reply" ELSE "interpret"] /\ UNCHANGED <<req, out, up>>
(* A stop of the interpreter is caught and becomes part of the answer. *)
Interpret(i) == /\ stage[i] = "interpret" /\ up /\ own' = [own EXCEPT ![i] = Class(req[i].b)]
                /\ stage' = [stage EXCEPT ![i] = "reply"] /\ UNCHANGED <<req, out, up>>
Reply(i) == /\ stage[i] = "reply" /\ up
            /\ out' = [out EXCEPT ![i] = CASE req[i].m = "GET" -> [status |-> 200, what |-> "page"]
                                           [] req[i].m = "POST" -> [status |-> 200, what |-> <<own[i], req[i].b>>]
                                           [] OTHER -> [status |-> 405, what |-> "refused"]]
            /\ stage' = [stage EXCEPT ![i] = "done"] /\ UNCHANGED <<req, own, up>>
Step(i) == ReadBody(i) \/ Parse(i) \/ Interpret(i) \/ Reply(i)
WNext == \E i \in Reqs : Open(i) \/ Abort(i) \/ Step(i)
WSpec == WInit /\ [][WNext]_wvars /\ \A i \in Reqs : WF_wvars(Step(i))
Independent == \A i \in Reqs : stage[i] = "done" => out[i] = Wanted(req[i])
Alive == up
NoEarly == \A i \in Reqs : stage[i] # "done" => out[i] = Nothing
Answered == \A i \in Reqs : stage[i] = "open" ~> stage[i] \in {"done", "gone"}
=============================================================================
