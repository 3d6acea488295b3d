-------------------------- MODULE TraceOupsCatalog --------------------------
(* Validation of histories recorded on real stores: see TraceOupsStore. *)
EXTENDS OupsCatalog, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, bad
vars == <<t, k, bad>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Abs(s) == [keys |-> SetOf(s.keys), rows |-> [i \in DOMAIN s.rows |-> SetOf(s.rows[i])],
           md |-> [i \in DOMAIN s.md |-> SetOf(s.md[i])], omd |-> [i \in DOMAIN s.omd |-> SetOf(s.omd[i])],
           dirs |-> SetOf(s.dirs), files |-> SetOf(s.files)]
Pre(tr, i) == Abs(IF i = 1 THEN tr.init ELSE tr.steps[i-1].post)
Clauses(tr, i) == LET s == tr.steps[i] IN
  CatalogClauses(Pre(tr, i), tr.paths, s.op, Abs(s.post), s.obs)
Init == t \in DOMAIN Traces /\ k = 0 /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t], k')
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
