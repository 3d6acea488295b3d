--------------------------- MODULE MCOupsColumns ---------------------------
(***************************************************************************)
(* All small mixtures of column names: creation, expanded or not,          *)
(* conversion, appends.                                                    *)
(***************************************************************************)
EXTENDS OupsColumns, Json, TLC
CONSTANTS Depths, Types, Generate, NCols
VARIABLES ds, cols, ns, given, phase, hist
vars == <<ds, cols, ns, given, phase, hist>>
Strs == {<<"a", "s">>, <<"1", "s">>, <<"", "s">>}
Others == {<<"1", "i">>, <<"nan", "n">>}
Mixed(ty) == Strs \cup {o \in Others : o[2] = ty}
TuplesOf(S, d) == [1..d -> S]
\* Simple names to expand.
SimpleNames == {[tup |-> 0, items |-> <<x>>] : x \in {<<"a", "s">>, <<"b", "s">>, <<"1,x", "s">>}}
               \cup UNION {{[tup |-> 1, items |-> n] : n \in TuplesOf({<<"a", "s">>, <<"", "s">>, <<"1", "i">>}, d)} : d \in Depths}
Givens == {<<>>, <<"x">>, <<"x", "y">>}
NoCols == [multi |-> 0, names |-> <<>>, levels |-> <<>>]
SomeCols == {[multi |-> 1, names |-> nms, levels |-> lv] :
               nms \in UNION {[1..NCols -> TuplesOf(Mixed(ty), 2)] : ty \in Types},
               lv \in {<<<<"x">>, <<"y">>>>, <<<<>>, <<"y">>>>, <<<<>>, <<>>>>}}
Init == /\ ds = <<>> /\ hist = <<>> /\ phase = "start"
        /\ \/ cols \in SomeCols /\ ns = <<>> /\ given = <<>>
           \/ cols = NoCols /\ ns \in [1..NCols -> SimpleNames] /\ given \in Givens /\ Depth(ns) >= Max2(2, Len(given))
Cols == IF ns # <<>> THEN Expand(ns, given) ELSE cols
Log(e) == hist' = IF Generate THEN Append(hist, e) ELSE hist
Create == /\ phase = "start"
          /\ ds' = (IF Recordable(Cols) THEN <<[cols |-> Cols, vals |-> [i \in 1..NCols |-> <<i>>]]>> ELSE <<>>)
          /\ phase' = "created"
          /\ Log([op |-> "create", expand |-> IF ns # <<>> THEN 1 ELSE 0]) /\ UNCHANGED <<cols, ns, given>>
Convert == /\ phase = "start" /\ ns = <<>> /\ cols' = Conform(cols) /\ phase' = "start"
           /\ cols' # cols
           /\ Log([op |-> "conform"]) /\ UNCHANGED <<ds, ns, given>>
Add == /\ phase = "created" /\ ds # <<>> /\ Len(ds[1].vals[1]) < 3
       /\ ds' = <<[ds[1] EXCEPT !.vals = [i \in DOMAIN @ |-> @[i] \o <<i + 10>>]]>>
       /\ Log([op |-> "append"]) /\ UNCHANGED <<cols, ns, given, phase>>
Next == Create \/ Convert \/ Add
Spec == Init /\ [][Next]_vars

\* Converted names are acceptable, up to names which are the same once converted.
Acceptable == AllStrings(Conform(cols)) /\ \A i \in DOMAIN Conform(cols).levels : Conform(cols).levels[i] # <<>>
OnlyThese == (ns = <<>> /\ cols.multi = 1) => \A i \in DOMAIN cols.names : \A j \in DOMAIN cols.names[i] :
               cols.names[i][j][2] = "s" => Conform(cols).names[i][j] = cols.names[i][j]
ConformTwice == Conform(Conform(cols)) = Conform(cols)
\* Expanded names have the same depth, begin with what is expanded, and are given level names.
ExpandSound == ns # <<>> => LET e == Expand(ns, given) IN
  /\ \A i \in DOMAIN ns : Len(e.names[i]) = Depth(ns) /\ SubSeq(e.names[i], 1, Len(ns[i].items)) = ns[i].items
  /\ Len(e.levels) = Depth(ns) /\ \A i \in DOMAIN e.levels : e.levels[i] # <<>>
  /\ (\A i \in DOMAIN ns : ns[i].tup = 1 => ns[i].items[Len(ns[i].items)] # <<"", "s">>) /\ Distinct(ns) /\ ~(\E i \in DOMAIN ns : ns[i].tup = 1 /\ Len(ns[i].items) = 1)
       => Distinct(e.names)
RecordedAsIs == ds # <<>> => ds[1].cols = Cols /\ Recordable(ds[1].cols)
Emit == (Generate /\ phase = "created" /\ (ds = <<>> \/ Len(ds[1].vals[1]) = 3)) =>
          PrintT(<<"HIST", ToJson([cols |-> cols, ns |-> ns, given |-> given, steps |-> hist])>>)
=============================================================================
