------------------------------ MODULE GenMain ------------------------------
(* Writes the cases of a check, one file per chunk.                         *)
EXTENDS Profiles, Json, IOUtils

Env(n) == IOEnv[n]
NCHUNK == atoi(Env("NCHUNK"))
PER    == atoi(Env("PER"))
SEED   == atoi(Env("SEED"))
KIND   == Env("KIND")
DIR    == Env("DIR")

VARIABLE gg
Init == gg \in {[c |-> c, done |-> FALSE] : c \in 1..NCHUNK}
Next == /\ ~gg.done
        /\ ndJsonSerialize(DIR \o "/gen_" \o ToString(gg.c) \o ".ndjson",
                           [j \in 1..PER |-> CaseOf(KIND, SEED, (gg.c - 1) * PER + j)])
        /\ gg' = [gg EXCEPT !.done = TRUE]
Spec == Init /\ [][Next]_gg
=============================================================================
