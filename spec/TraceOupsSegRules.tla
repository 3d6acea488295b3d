-------------------------- MODULE TraceOupsSegRules --------------------------
(* Validation of recorded calls, accepted and refused. *)
EXTENDS OupsSegRules, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, st, bad
vars == <<t, k, st, bad>>
Init == t \in DOMAIN Traces /\ k = 0 /\ st = Chain0 /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ LET x == Step(Traces[t].cfg, st, Traces[t].steps[k + 1]) IN st' = x.st /\ bad' = x.bad
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
