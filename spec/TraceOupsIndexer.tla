-------------------------- MODULE TraceOupsIndexer --------------------------
(* Validation of recorded conversions: see TraceOupsStore for the principle. *)
EXTENDS OupsIndexer, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, bad
vars == <<t, k, bad>>
Clauses(tr, i) ==
  LET s == tr.steps[i] IN
  IF s.op = "parse" THEN ParseClauses(tr.schema, tr.sep, s.text, s.res)
  \* A nested level can only be in last position, after another field.
  ELSE IF s.op = "schema" THEN Bad("C10.schema_not_rejected", s.obs.ok = 0)
  ELSE IF s.op = "cmp" THEN OrderClauses(s.a, s.b, s.obs)
  ELSE MakeClauses(tr.schema, tr.sep, s.key, s.obs) \cup
       (IF s.obs.ok = 0 THEN {}
        ELSE UNION {PairClauses(tr.steps[j].key, tr.steps[j].obs, s.key, s.obs) :
                      j \in {j \in 1..(i - 1) : tr.steps[j].op = "make" /\ tr.steps[j].obs.ok = 1}})
Init == t \in DOMAIN Traces /\ k = 0 /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t], k')
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
