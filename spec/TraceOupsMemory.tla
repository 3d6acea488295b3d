---------------------------- MODULE TraceOupsMemory ----------------------------
(* Validation of recorded runs with limited memory. *)
EXTENDS OupsMemory, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, st, bad
vars == <<t, k, st, bad>>
Init == t \in DOMAIN Traces /\ k = 0 /\ st = Mem0(Traces[t].keys) /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ LET x == MemStep(Traces[t], st, Traces[t].steps[k + 1]) IN st' = x.st /\ bad' = x.bad
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
