---------------------------- MODULE OupsColumns ----------------------------
(***************************************************************************)
(* Column names of a dataset: simple or multi-level, as created, expanded, *)
(* converted, and after appends.                                           *)
(*                                                                         *)
(*  item    : <<text, type>>, type "s" for a string, otherwise any object  *)
(*            and its string representation                                *)
(*  name    : sequence of items (a single one for a simple name)           *)
(*  columns : [multi : 0/1, names : sequence of names,                     *)
(*             levels : sequence of level names, <<>> or <<text>>]         *)
(*  simple name to expand: [tup : 0/1, items], tup if it represents a tuple*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Bd(p, name, ok) == IF ok THEN {} ELSE {p \o "." \o name}
Distinct(seq) == \A i, j \in DOMAIN seq : i # j => seq[i] # seq[j]

\* ---------------------------------------------------------------- expansion of simple names
Text(i) == IF i = 0 THEN "l0" ELSE IF i = 1 THEN "l1" ELSE IF i = 2 THEN "l2" ELSE IF i = 3 THEN "l3" ELSE "l4"
Depth(ns) == FoldLeft(LAMBDA m, n : Max2(m, IF n.tup = 1 THEN Len(n.items) ELSE 1), 0, ns)
Pad(items, d) == items \o [i \in 1..(d - Len(items)) |-> <<"", "s">>]
Expand(ns, given) ==
  LET d == Depth(ns) IN
  [multi |-> 1,
   names |-> [i \in DOMAIN ns |-> Pad(ns[i].items, d)],
   levels |-> [i \in 1..d |-> IF i <= Len(given) THEN <<given[i]>> ELSE <<Text(i - 1)>>]]

\* ---------------------------------------------------------------- conversion
Conform(cols) ==
  [cols EXCEPT !.names = [i \in DOMAIN @ |-> [j \in DOMAIN @[i] |-> <<@[i][j][1], "s">>]],
               !.levels = [i \in DOMAIN @ |-> IF @[i] = <<>> THEN <<"">> ELSE @[i]]]

\* ---------------------------------------------------------------- recording
AllStrings(cols) == \A i \in DOMAIN cols.names : \A j \in DOMAIN cols.names[i] : cols.names[i][j][2] = "s"
Recordable(cols) == /\ AllStrings(cols)
                    /\ Distinct(cols.names)
                    /\ cols.multi = 1 => \A i \in DOMAIN cols.levels : cols.levels[i] # <<>>
\* ds: <<>> or <<[cols, vals]>>, vals: for each column, its values.
Set(seq) == {seq[i] : i \in DOMAIN seq}
Pos(seq, x) == CHOOSE i \in DOMAIN seq : seq[i] = x
Same(cols, new) == Set(cols.names) = Set(new.names) /\ Len(cols.names) = Len(new.names) /\ cols.multi = new.multi

Seen(p, ds, obs) ==
  IF ds = <<>> THEN Bd(p, "recorded", obs.ex = 0)
  ELSE      Bd(p, "recorded", obs.ex = 1)
       \cup Bd(p, "names", obs.ex = 1 => obs.cols.multi = ds[1].cols.multi /\ obs.cols.names = ds[1].cols.names)
       \cup Bd(p, "levels", obs.ex = 1 => obs.cols.levels = ds[1].cols.levels)
       \cup Bd(p, "values", obs.ex = 1 => obs.vals = ds[1].vals)

\* x: a step as recorded. State after, clauses broken.
Target(x) == IF x.expand = 1 THEN Expand(x.ns, x.given) ELSE x.cols
Step(p, ds, x) ==
  CASE x.op = "create" ->
         LET ok == Recordable(Target(x))
             ds2 == IF ok THEN <<[cols |-> Target(x), vals |-> x.vals]>> ELSE ds IN
         [ds |-> ds2, bad |-> Bd(p, IF ok THEN "refused" ELSE "accepted", ok <=> x.exc = "") \cup Seen(p, ds2, x.obs)
                         \cup Bd(p, "caller", x.intact = 1)]
    [] x.op = "append" ->
         LET ok == Same(ds[1].cols, x.cols)
             ds2 == IF ok THEN <<[ds[1] EXCEPT !.vals = [i \in DOMAIN @ |-> @[i] \o x.vals[Pos(x.cols.names, ds[1].cols.names[i])]]]>> ELSE ds IN
         [ds |-> ds2, bad |-> Bd(p, IF ok THEN "refused" ELSE "accepted", ok <=> x.exc = "") \cup Seen(p, ds2, x.obs)
                         \cup Bd(p, "caller", x.intact = 1)]
    [] x.op = "expand" ->
         [ds |-> ds, bad |-> Bd(p, "expansion", x.exc = "" /\ x.got = Expand(x.ns, x.given)) \cup Bd(p, "caller", x.intact = 1)]
    [] x.op = "conform" ->
         [ds |-> ds, bad |-> Bd(p, "conversion", x.exc = "" /\ x.got = Conform(x.cols)) \cup Bd(p, "caller", x.intact = 1)]
=============================================================================
