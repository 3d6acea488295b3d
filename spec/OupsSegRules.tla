---------------------------- MODULE OupsSegRules ----------------------------
(***************************************************************************)
(* Which calls of segmented aggregation are accepted, and what a refused   *)
(* call leaves.                                                            *)
(*                                                                         *)
(*  setting: [binby : "period" | "callable" | "other", bkey, bon, ord :    *)
(*            columns ("" if not set), closed, snap : "none" | "period" |  *)
(*            "list", skey, sclosed, in : column to aggregate, fn :        *)
(*            function]; columns: "t" (ordered), "v" (ordered numbers),    *)
(*            "u" (numbers in disorder), "s" (text)                        *)
(*  bins of a user function:                                               *)
(*           [n : number of rows, starts : index of the first row of the   *)
(*            next bin, for each bin, labs : labels, nend : number of bin  *)
(*            ends, closed, series (0/1) : labels are in a Series,         *)
(*            chain (0/1) : there is a buffer]                             *)
(*  list   : ends of bins, or points of observation, given at each call    *)
(*                                                                         *)
(*  state of a chain: rows : rows aggregated so far, lab, val : label and  *)
(*            value of last bin (<<>> if none), used : ends or points      *)
(*            returned so far, over : <<last ordering value>> if rows went *)
(*            beyond last point given, bins, snaps : results kept          *)
(***************************************************************************)
EXTENDS OupsSegAgg
Chain0 == [rows |-> <<>>, lab |-> <<>>, val |-> <<>>, used |-> <<>>, over |-> <<>>, bins |-> <<>>, snaps |-> <<>>]
If(cond, name) == IF cond THEN {name} ELSE {}

\* ------------------------------------------------------------ settings
\* Column on which bins are formed, and ordered column.
BinColumn(s) == IF s.bon # "" THEN s.bon ELSE IF s.binby = "period" THEN s.bkey ELSE ""
OrderedColumn(s) == IF s.binby = "period" THEN BinColumn(s)
                    ELSE IF s.ord # "" THEN s.ord
                    ELSE IF s.snap = "period" THEN s.skey ELSE ""
SettingFlaws(s) ==
       If(s.binby = "other", "bin_by")
  \cup If(s.binby = "period" /\ s.bkey = "" /\ s.bon = "", "no_column")
  \cup If(s.binby = "callable" /\ s.bon = "" /\ s.ord = "", "no_column")
  \cup If(s.binby = "period" /\ s.bkey # "" /\ s.bon # "" /\ s.bkey # s.bon, "two_columns")
  \cup If(s.binby = "period" /\ s.ord # "" /\ s.ord # BinColumn(s), "ordered_apart")
  \cup If(s.binby = "period" /\ BinColumn(s) \notin {"", "t"}, "not_times")
  \cup If(s.snap # "none" /\ OrderedColumn(s) = "", "no_order")
  \cup If(s.snap = "period" /\ s.skey # "" /\ s.skey # OrderedColumn(s), "snaps_apart")
  \cup If(s.snap = "period" /\ OrderedColumn(s) \notin {"", "t"}, "snaps_not_times")
  \cup If(s.snap = "period" /\ s.binby = "period" /\ s.closed # s.sclosed, "closed_apart")
  \cup If(OrderedColumn(s) = "u", "disorder")
  \cup If(s.in = "zz", "unknown_column")
  \cup If(s.fn = "zz", "unknown_function")
  \cup If(s.in = "s", "type")
\* Points given are times.
SettingDomain(s) == s.snap = "list" => OrderedColumn(s) \in {"", "t"}

\* ------------------------------------------------------------ bins of a user function
FunFlaws(st, f) ==
  LET m == Len(f.starts) IN
       If(f.closed \notin {"left", "right"}, "closed")
  \cup If(f.series = 0, "series")
  \cup If(Len(f.labs) # m, "labels")
  \cup If(f.nend # m, "ends")
  \cup If(f.chain = 1 /\ f.starts[m] # f.n, "cover")
  \cup If(f.chain = 1 /\ m > 1 /\ f.starts[m - 1] = f.n, "trailing")
  \cup If(f.chain = 1 /\ st.lab # <<>> /\ f.labs # <<>> /\ f.labs[1] # st.lab[1], "label")
\* In a single call, rows left aside by the function are its own business.
FunDomain(f) == f.chain = 1 \/ f.starts[Len(f.starts)] = f.n
Total(rs) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, rs)
FunBins(st, f, rows) ==
  [i \in DOMAIN f.starts |->
     LET own == SubSeq(rows, (IF i = 1 THEN 0 ELSE f.starts[i - 1]) + 1, f.starts[i])
         prev == IF i = 1 /\ f.chain = 1 THEN st.val ELSE <<>> IN
     <<f.labs[i], IF own = <<>> THEN prev ELSE <<Total(own) + (IF prev = <<>> THEN 0 ELSE prev[1])>> >>]
FunAfter(st, f, rows) ==
  LET b == FunBins(st, f, rows) IN
  [st EXCEPT !.rows = @ \o rows, !.lab = <<b[Len(b)][1]>>, !.val = b[Len(b)][2], !.bins = Keep(@, b)]

\* ------------------------------------------------------------ lists given call after call
\* End (or point) e is after ordering value v.
Ahead(closed, e, v) == IF closed = "left" THEN v < e ELSE v <= e
FromKey(st, list) == IF st.used = <<>> THEN list ELSE SelectSeq(list, LAMBDA e : e >= st.used[Len(st.used)])
LastT(rows) == rows[Len(rows)][1]
\* Last one returned has to be in the list; next one cannot have been passed already.
ListFlaws(st, closed, what, list, rows) ==
  LET l == FromKey(st, list) IN
       If(st.used # <<>> /\ (l = <<>> \/ l[1] # st.used[Len(st.used)]), "missing")
  \cup If(what = "points" /\ st.over # <<>> /\ Len(l) > 1 /\ ~Ahead(closed, l[2], st.over[1]), "passed")
  \cup If(what = "ends" /\ (l = <<>> \/ ~Ahead(closed, l[Len(l)], LastT(rows))), "cover")
\* Those returned: from the one in progress to the first one after all rows.
Returned(st, closed, list, rows) ==
  LET l == FromKey(st, list)
      m == IF st.over # <<>> /\ l # <<>> /\ ~Ahead(closed, l[1], st.over[1]) THEN Tail(l) ELSE l
      n == Cardinality({i \in DOMAIN m : ~Ahead(closed, m[i], LastT(rows))}) IN
  SubSeq(m, 1, Min2(n + 1, Len(m)))
UsedAfter(st, ret) == IF ret = <<>> THEN st.used ELSE SelectSeq(st.used, LAMBDA e : e < ret[1]) \o ret
\* All rows of one bin are observed together; bins of explicit ends.
PointValue(closed, rows, p) ==
  LET seen == SelectSeq(rows, LAMBDA r : Ahead(closed, p, r[1])) IN
  IF seen = <<>> THEN <<>> ELSE <<Total(seen)>>
EndValue(closed, rows, used, e) ==
  LET before == SelectSeq(used, LAMBDA x : x < e)
      rs == SelectSeq(rows, LAMBDA r : Ahead(closed, e, r[1]) /\ (before = <<>> \/ ~Ahead(closed, before[Len(before)], r[1]))) IN
  IF rs = <<>> THEN <<>> ELSE <<Total(rs)>>
ListResult(st, closed, what, list, rows) ==
  LET ret == Returned(st, closed, list, rows)
      all == st.rows \o rows
      used == UsedAfter(st, ret) IN
  [i \in DOMAIN ret |-> <<ret[i], IF what = "points" THEN PointValue(closed, all, ret[i]) ELSE EndValue(closed, all, used, ret[i])>>]
ListAfter(st, closed, what, list, rows) ==
  LET ret == Returned(st, closed, list, rows)
      past == ret = <<>> \/ ~Ahead(closed, ret[Len(ret)], LastT(rows)) IN
  [st EXCEPT !.rows = @ \o rows, !.used = UsedAfter(st, ret), !.over = IF past THEN <<LastT(rows)>> ELSE <<>>,
             !.snaps = Keep(@, ListResult(st, closed, what, list, rows))]

\* ------------------------------------------------------------ steps as recorded
Rising(rows) == \A i \in 1..(Len(rows) - 1) : rows[i][1] <= rows[i + 1][1]
Judged(flaws, x) == IF flaws = {} THEN Bad("C23.refused", x.exc = "")
                    ELSE IF x.exc # "" THEN {} ELSE {"C23." \o f : f \in flaws}
Zeros(res, num) == \E i \in DOMAIN res : \E j \in DOMAIN res[i][2] : num[j] = 1 /\ res[i][2][j] = <<0>>
\* State after, clauses broken.
Step(cfg, st, x) ==
  CASE x.op = "set" -> [st |-> st, bad |-> IF SettingDomain(x.s) THEN Judged(SettingFlaws(x.s), x) ELSE {}]
    [] x.op = "fun" ->
         IF ~FunDomain(x.f) THEN [st |-> st, bad |-> {}]
         ELSE LET flaws == FunFlaws(st, x.f) IN
              [st |-> IF flaws = {} THEN FunAfter(st, x.f, x.rows) ELSE st,
               bad |-> Judged(flaws, x) \cup Bad("C23.fun_values", flaws = {} /\ x.exc = "" => x.bins = FunBins(st, x.f, x.rows))]
    [] x.op = "list" ->
         LET flaws == ListFlaws(st, x.closed, x.what, x.list, x.rows) IN
         [st |-> IF flaws = {} THEN ListAfter(st, x.closed, x.what, x.list, x.rows) ELSE st,
          bad |-> Judged(flaws, x) \cup Bad("C23.list_values", flaws = {} /\ x.exc = "" => x.res = ListResult(st, x.closed, x.what, x.list, x.rows))]
    [] x.op = "refuse" -> \* unknown column or function, contradictory settings, rows in disorder, ordering value missing,
                          \* inconsistent results of user function, last point returned not in the list
         [st |-> st, bad |-> If(x.exc = "" /\ (x.why = "disorder" => ~Rising(x.rows)) /\ (x.why = "points" => st.snaps # <<>>), "C23." \o x.why)
                             \cup Bad("C23.input", x.kept = 1)]
    [] x.op = "empty" -> [st |-> st, bad |-> Bad("C23.empty", x.exc = "" /\ x.none = 1)]
    [] x.op = "chunk" ->
         LET st2 == [st EXCEPT !.rows = @ \o x.rows, !.bins = Keep(@, x.bins), !.snaps = Keep(@, x.snaps)] IN
         [st |-> st2, bad |-> IF x.exc # "" THEN {"C23.chain_refused"}
                              ELSE Bad("C23.chain_bins", st2.bins = Bins(cfg, st2.rows)) \cup Bad("C23.chain_snaps", st2.snaps = Snaps(cfg, st2.rows))]
    [] x.op = "zero" -> \* results being 0 are not accepted
         LET z == Zeros(Bins(cfg, x.rows), x.num) \/ (x.snap = 1 /\ Zeros(Snaps(cfg, x.rows), x.num)) IN
         [st |-> st, bad |-> Bad(IF z THEN "C23.zero" ELSE "C23.refused", z <=> x.exc # "")]
=============================================================================
