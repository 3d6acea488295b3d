--------------------------- MODULE TraceOupsStore ---------------------------
(***************************************************************************)
(* Validation of histories recorded from the real code.                    *)
(* Views other than the row groups are compared when observed (obs.full).  *)
(* Every step of a trace is a write [w, post, exc, obs]; the state before  *)
(* it is the one observed after the previous step, so that a broken clause *)
(* does not hide the following ones.  Verdicts are total: each transition  *)
(* gives the set of the names of the clauses it breaks.                    *)
(***************************************************************************)
EXTENDS OupsStore, Json, IOUtils
Traces == JsonDeserialize(IOEnv.OUPS_TRACES)
VARIABLES t, k, bad, exact
vars == <<t, k, bad, exact>>

Pre(tr, i) == IF i = 1 THEN <<>> ELSE tr.steps[i-1].post

SetOf(s) == {s[i] : i \in DOMAIN s}
\* C05: all views give the same rows.  obs: pdf, vdf, pf, re, kept: rows;
\* mmo, mmp, mms, mmn : <<min, max>> of columns; parts : numbers of part files;
\* extra : number of other files.
ColBounds(rows, col) == LET S == {rows[i][col] : i \in DOMAIN rows} IN <<SetMin(S), SetMax(S)>>
\* Columns with null values in rows which number is a multiple of 3.
NonNullBounds(rows) == LET S == {rows[i][3] : i \in DOMAIN rows} IN
                       LET V == {x \in S : x % 3 # 0} IN IF V = {} THEN <<>> ELSE <<SetMin(V), SetMax(V)>>
ViewClauses(post, obs) ==
  LET f == Flat(post) IN
  IF obs.full = 0 THEN {} ELSE
       Bad("C05.pdf", obs.pdf = f)
  \cup Bad("C05.vdf", obs.vdf = f)
  \cup Bad("C05.handle", obs.pf = f)
  \cup Bad("C05.reopened", obs.re = f)
  \cup Bad("C05.kept_handle", obs.kept = f)
  \cup Bad("C05.min_max", f # <<>> => obs.mmo = ColBounds(f, 1) /\ obs.mmp = ColBounds(f, 3) /\ obs.mms = ColBounds(f, 3)
                                      /\ \A i \in DOMAIN obs.mmn : obs.mmn[i] = NonNullBounds(f))
  \cup Bad("C05.part_files", Cardinality(SetOf(obs.parts)) = Len(post) /\ Len(obs.parts) = Len(post))
  \cup Bad("C05.left_over", obs.extra = 0)
Raised == {"C01.raised", "C02.raised", "C03.raised", "C04.raised", "C05.raised", "C07.raised"}

Clauses(tr, i) ==
  LET st == tr.steps[i] IN
  IF st.exc # "" THEN Raised
  ELSE StoreClauses(Pre(tr, i), st.w, st.post)
       \cup ViewClauses(st.post, st.obs)
       \cup Bad("C01.columns", st.obs.cols = 1)
       \cup Bad("C01.input", st.input = 1)

Init == t \in DOMAIN Traces /\ k = 0 /\ bad = {} /\ exact = TRUE
Next == /\ k < Len(Traces[t].steps)
        /\ k' = k + 1 /\ t' = t
        /\ bad' = Clauses(Traces[t], k')
        /\ exact' = (Traces[t].steps[k'].exc = ""
                     /\ Write(Pre(Traces[t], k'), Traces[t].steps[k'].w) = Traces[t].steps[k'].post)
        /\ (bad' # {}) => PrintT(<<"BAD", Traces[t].id, k', bad'>>)
        /\ ~exact' => PrintT(<<"INEXACT", Traces[t].id, k'>>)
Spec == Init /\ [][Next]_vars
=============================================================================
