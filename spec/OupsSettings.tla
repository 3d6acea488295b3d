---------------------------- MODULE OupsSettings ----------------------------
(***************************************************************************)
(* Which creations of an aggregation object are accepted, as per its       *)
(* settings and what is recorded in the store, and what a refusal leaves.  *)
(*                                                                         *)
(*  store  : for each key, [kind : "none" | "plain" | "agg",               *)
(*           r : seed index up to which it has been aggregated]            *)
(*  setting: [form : "one" | "dict" | "filters",                           *)
(*            filters : sequence of [id, none (0/1)], given : 0/1,         *)
(*            unknown : 0/1, unknown parameter of the object,              *)
(*            groups : sequence of [id, keys]]                             *)
(*  key    : [main, snap (0 if none), binby : "period" | "callable" |      *)
(*            "other" | "missing", bkey, bon : columns ("" if not set),    *)
(*            bout : name of the column of bins ("" if not set), closed,   *)
(*            snapby : 0/1, skey, sclosed, outs : names of the aggregated  *)
(*            columns, unknown : 0/1]                                      *)
(* Ordering column of the seed is "t".                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Ordered == "t"
NoFilter == "_"

\* ---------------------------------------------------------------- rules
\* Bins are formed on the ordering column when they are periods.
Column(k) == IF k.bon # "" THEN k.bon ELSE IF k.binby = "period" THEN k.bkey ELSE ""
BinsOk(k) ==
  CASE k.binby = "period" -> /\ k.bkey # "" \/ k.bon # ""
                             /\ k.bkey # "" /\ k.bon # "" => k.bkey = k.bon
                             /\ Column(k) = Ordered
    [] k.binby = "callable" -> TRUE
    [] OTHER -> FALSE
SnapsOk(k) == k.snapby = 1 => /\ k.skey \in {"", Ordered}
                              /\ k.binby = "period" => k.closed = k.sclosed
\* Column of bins in results, and aggregated columns.
OutColumn(k) == IF k.bout # "" THEN k.bout ELSE Column(k)
OutsOk(k) == k.outs # <<>> /\ (OutColumn(k) # "" => \A i \in DOMAIN k.outs : k.outs[i] # OutColumn(k))
KeyOk(k) == k.unknown = 0 /\ BinsOk(k) /\ SnapsOk(k) /\ OutsOk(k)

Ids(seq) == {seq[i].id : i \in DOMAIN seq}
FiltersOk(s) ==
  IF s.form = "filters"
  THEN /\ s.given = 1
       /\ Ids(s.filters) \ {NoFilter} = Ids(s.groups) \ {NoFilter}
       /\ \A i \in DOMAIN s.filters : s.filters[i].id = NoFilter => s.filters[i].none = 1
  ELSE \* Filters which apply to no key.
       s.given = 1 => Ids(s.filters) \subseteq {NoFilter}
AllKeys(s) == FoldLeft(LAMBDA acc, g : acc \o g.keys, <<>>, s.groups)
\* A dataset is that of a single key.
DistinctOk(s) == LET ks == AllKeys(s) IN
  \A i, j \in DOMAIN ks : i # j => /\ ks[i].main # ks[j].main
                                   /\ ks[i].snap = 0 \/ ks[i].snap # ks[j].snap
\* All start from the same point.
StoreOk(st, s) == LET ks == AllKeys(s) IN
  /\ \A i \in DOMAIN ks : st[ks[i].main].kind # "plain"
  /\ \A i, j \in DOMAIN ks : st[ks[i].main].kind = "agg" /\ st[ks[j].main].kind = "agg" => st[ks[i].main].r = st[ks[j].main].r
Acceptable(st, s) == s.unknown = 0 /\ FiltersOk(s) /\ DistinctOk(s) /\ (\A i \in DOMAIN AllKeys(s) : KeyOk(AllKeys(s)[i])) /\ StoreOk(st, s)

\* ---------------------------------------------------------------- transitions
None == [kind |-> "none", r |-> <<>>]
Plain == [kind |-> "plain", r |-> <<>>]
\* Aggregation of a seed made of rows 0, 1, 2..., up to 'to', which is left for later.
Start(st, s) == LET ks == AllKeys(s)
                    done == {i \in DOMAIN ks : st[ks[i].main].kind = "agg"} IN
  IF done = {} THEN <<>> ELSE st[ks[CHOOSE i \in done : TRUE].main].r
AfterRun(st, s, to) ==
  LET r == Start(st, s)
      r2 == IF r = <<>> THEN (IF to > 0 THEN <<to>> ELSE <<>>) ELSE IF to > r[1] THEN <<to>> ELSE r
      mains == {AllKeys(s)[i].main : i \in DOMAIN AllKeys(s)} IN
  IF r2 = <<>> THEN st ELSE [k \in DOMAIN st |-> IF k \in mains THEN [kind |-> "agg", r |-> r2] ELSE st[k]]
Sorted(ch) == \A i \in 1..(Len(ch) - 1) : ch[i] <= ch[i + 1]
\* Rows of which the order is not ascending once gathered with the last ones of
\* the previous chunk, set aside.
Violates(chunks) ==
  LET Take(acc, ch) ==
        LET all == acc.rem \o ch
            last == all[Len(all)]
            main == SelectSeq(all, LAMBDA x : x < last) IN
        [rem |-> SelectSeq(all, LAMBDA x : x >= last), bad |-> acc.bad \/ ~Sorted(main)]
  IN FoldLeft(Take, [rem |-> <<>>, bad |-> FALSE], chunks).bad

Bd(name, ok) == IF ok THEN {} ELSE {"C21." \o name}
Seen(st, obs) == Bd("recorded", \A k \in DOMAIN st : obs[k].kind = st[k].kind /\ obs[k].r = st[k].r)
\* x: a step as recorded. State after, clauses broken.
Step(st, x) ==
  CASE x.op = "plain" -> LET st2 == [st EXCEPT ![x.key] = Plain] IN [st |-> st2, bad |-> Seen(st2, x.obs)]
    [] x.op = "del" -> LET st2 == [st EXCEPT ![x.key] = None] IN [st |-> st2, bad |-> Seen(st2, x.obs)]
    [] x.op = "run" ->
         LET ok == Acceptable(st, x.s)
             st2 == IF ok THEN AfterRun(st, x.s, x.to) ELSE st IN
         [st |-> st2, bad |-> Bd(IF ok THEN "refused" ELSE "accepted", ok <=> x.exc = "")
                         \cup Bd("changed", x.exc # "" => x.same = 1) \cup Seen(st2, x.obs)]
    [] x.op = "create" ->
         LET ok == Acceptable(st, x.s) IN
         [st |-> st, bad |-> Bd(IF ok THEN "refused" ELSE "accepted", ok <=> x.exc = "")
                        \cup Bd("changed", x.same = 1) \cup Bd("settings_modified", x.intact = 1)]
    [] x.op = "order" ->
         \* Creation as above, then rows not in ascending order.
         LET ok == Acceptable(st, x.s) IN
         [st |-> st, bad |-> Bd(IF ok THEN "refused" ELSE "accepted", ok <=> x.created = 1)
                        \cup Bd("order", ok /\ Violates(x.chunks) => x.exc # "")
                        \cup Bd("changed", x.same = 1)]
    [] x.op = "badrun" ->
         \* Aggregation of a column which is not there, unknown function, post-processing
         \* giving a single result when 2 are expected.
         [st |-> st, bad |-> Bd("run_accepted", x.exc # "") \cup Bd("changed", x.same = 1)]
=============================================================================
