--------------------------- MODULE TraceOupsSegAgg ---------------------------
(* Validation of recorded aggregations: see TraceOupsStore for the principle. *)
(* Steps: "one" (whole data, with or without snapshots), "chunk" (next chunk, *)
(* buffer handed over).                                                       *)
EXTENDS OupsSegAgg, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, bad
vars == <<t, k, bad>>
ChunkSteps(tr, i) == SelectSeq(SubSeq(tr.steps, 1, i), LAMBDA s : s.op = "chunk")
Clauses(tr, i) ==
  LET s == tr.steps[i] IN
  IF s.op = "one" THEN OneShotClauses(tr.cfg, s.rows, s.snap = 1, s.bins, s.snaps, s.exc)
                        \cup Bad(IF s.snap = 1 THEN "C12.input" ELSE "C11.input", s.kept = 1)
  ELSE LET cs == ChunkSteps(tr, i)
           rows == FoldLeft(LAMBDA acc, x : acc \o x.rows, <<>>, cs)
           bins == FoldLeft(LAMBDA acc, x : Keep(acc, x.bins), <<>>, cs)
           snaps == FoldLeft(LAMBDA acc, x : Keep(acc, x.snaps), <<>>, cs)
       IN ChainClauses(Known(tr.cfg, s.np), rows, bins, snaps, s.exc) \cup Bad("C13.input", s.kept = 1)
Init == t \in DOMAIN Traces /\ k = 0 /\ bad = {}
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t], k')
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
