------------------------- MODULE TraceOupsSettings -------------------------
(* Validation of recorded creations of aggregation objects. *)
EXTENDS OupsSettings, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, st, bad
vars == <<t, k, st, bad>>
Init == t \in DOMAIN Traces /\ k = 0 /\ st = [i \in 1..4 |-> None] /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ LET x == Step(st, Traces[t].steps[k + 1]) IN st' = x.st /\ bad' = x.bad
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
