------------------------- MODULE TraceOupsAggStream -------------------------
(* Validation of recorded histories of streamed aggregations. *)
EXTENDS OupsAggStream, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, st, bad
vars == <<t, k, st, bad>>
Init == t \in DOMAIN Traces /\ k = 0 /\ st = St0(Traces[t].keys) /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ LET x == Step(Traces[t].p, Traces[t].keys, st, Traces[t].steps[k + 1]) IN st' = x.st /\ bad' = x.bad
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
