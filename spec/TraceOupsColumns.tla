-------------------------- MODULE TraceOupsColumns --------------------------
(* Validation of recorded histories of datasets with various column names. *)
EXTENDS OupsColumns, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, ds, bad
vars == <<t, k, ds, bad>>
Init == t \in DOMAIN Traces /\ k = 0 /\ ds = <<>> /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ LET x == Step("C22", ds, Traces[t].steps[k + 1]) IN ds' = x.ds /\ bad' = x.bad
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
