--------------------------- MODULE MCOupsCatalog ---------------------------
(* Exhaustive exploration of histories on a store with few keys, and         *)
(* generation of histories (TLC -simulate).                                  *)
EXTENDS OupsCatalog, Json
CONSTANTS Shape,     \* 1, 2 or 3: depth of schema
          Depth, Gen
VARIABLES st, hist, bad
vars == <<st, hist, bad>>
\* Keys sharing directory levels.
Paths == CASE Shape = 1 -> << <<"a">>, <<"b">>, <<"c">> >>
           [] Shape = 2 -> << <<"a", "x">>, <<"a", "y">>, <<"b", "x">> >>
           [] Shape = 3 -> << <<"a", "x", "1">>, <<"a", "x", "2">>, <<"a", "y", "1">>, <<"b", "x", "1">> >>
N == Len(Paths)
Mds == { <<>>, << <<"u", "1", 1>> >>, << <<"u", "2", 1>>, <<"v", "1", 1>> >>, << <<"u", "", 0>> >> }
OMds == { <<>>, << <<"i", "1", 1>> >>, << <<"i", "", 0>>, <<"j", "1", 1>> >> }
ForeignPaths == { <<"note">> } \cup (IF Shape > 1 THEN { <<"a", "note">>, <<"b", "note">> } ELSE {})
                \cup (IF Shape > 2 THEN { <<"a", "x", "note">> } ELSE {})
Init == /\ hist = <<>> /\ bad = {}
        /\ st = [keys |-> {}, rows |-> [i \in 1..N |-> {}], md |-> [i \in 1..N |-> {}],
                 omd |-> [i \in 1..N |-> {}], dirs |-> {}, files |-> {}]
\* What a correct store shows.
Shows(op, m) == [exc |-> IF op.op = "bad" THEN "E" ELSE "", same |-> IF m = st THEN 1 ELSE 0, listed |-> SortedKeys(m.keys),
                 iterated |-> SortedKeys(m.keys), len |-> Cardinality(m.keys), members |-> SortedKeys(m.keys),
                 reopened |-> SortedKeys(m.keys), outside |-> 1, caller |-> 1, base |-> 1]
Do(op) == LET m == Apply(st, Paths, op) IN
  /\ st' = m
  /\ hist' = Append(hist, op)
  /\ bad' = IF Gen THEN {} ELSE CatalogClauses(st, Paths, op, m, Shows(op, m))
\* Metadata in exhaustive exploration.
Metas == { <<<<>>, <<>>>>, << << <<"u", "1", 1>> >>, << <<"i", "1", 1>> >> >>,
           << << <<"u", "", 0>>, <<"v", "2", 1>> >>, <<>> >>, << <<>>, << <<"i", "", 0>>, <<"j", "1", 1>> >> >> }
Ops == {[op |-> "set", k |-> k, rows |-> r, md |-> m[1], omd |-> m[2]] :
            k \in 1..N, r \in {<<>>, <<Len(hist) + 1>>}, m \in Metas}
       \cup {[op |-> "bad", k |-> k] : k \in 1..N}
       \cup {[op |-> "del", k |-> k] : k \in 1..N}
       \cup {[op |-> x, path |-> p] : x \in {"file", "dir"}, p \in ForeignPaths}
       \cup {[op |-> "reopen"]}
\* Foreign files and directories do not replace each other.
Possible(op) == op.op \in {"file", "dir"} => op.path \notin (st.dirs \cup st.files)
\* Random choice: the state is mentioned so that it is evaluated at each step.
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
RandomOps(c) ==
  IF c <= 5 THEN {[op |-> "set", k |-> Pick(1..N), rows |-> Pick({<<>>, <<1>>, <<1, 1>>}), md |-> Pick(Mds), omd |-> Pick(OMds)]}
  ELSE IF c <= 7 THEN {[op |-> "del", k |-> Pick(1..N)]}
  ELSE IF c = 8 THEN {[op |-> "bad", k |-> Pick(1..N)]}
  ELSE IF c = 9 THEN {[op |-> Pick({"file", "dir"}), path |-> Pick(ForeignPaths)]}
  ELSE {[op |-> "reopen"]}
Next == /\ Len(hist) < Depth
        /\ IF Gen THEN \E c \in {Pick(1..10)} : \E op \in RandomOps(c) : IF Possible(op) THEN Do(op) ELSE UNCHANGED vars
           ELSE \E op \in Ops : Possible(op) /\ Do(op)
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist), bad>>

NoBad == bad = {}
\* Datasets and directories are consistent at any time.
KeysHaveDirs == \A k \in st.keys : DirPrefixes(Paths[k]) \subseteq st.dirs
NoStray == \* directories are justified by a dataset, a foreign file or a foreign directory
  \A d \in st.dirs : \/ \E k \in st.keys : IsUnder(Paths[k], d)
                     \/ \E f \in st.files : IsUnder(f, d)
                     \/ \E i \in DOMAIN hist : hist[i].op = "dir" /\ IsUnder(hist[i].path, d)
                     \/ \E i \in DOMAIN hist : hist[i].op = "file" /\ IsUnder(hist[i].path, d)
DirsClosed == \A d \in st.dirs : DirPrefixes(d) \subseteq st.dirs
Forgotten == \A k \in 1..N : k \notin st.keys => st.rows[k] = {} /\ st.md[k] = {} /\ st.omd[k] = {}
\* Metadata of a dataset only depends on the operations on this dataset since
\* its last removal.
RECURSIVE MdOf(_, _)
MdOf(h, k) == IF h = <<>> THEN {}
  ELSE LET o == h[Len(h)]   before == MdOf(SubSeq(h, 1, Len(h) - 1), k) IN
       IF o.op = "set" /\ o.k = k THEN MergeMd(before, o.md)
       ELSE IF o.op = "del" /\ o.k = k THEN {} ELSE before
MdHistory == \A k \in 1..N : st.md[k] = MdOf(hist, k)
Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson([shape |-> Shape, ops |-> hist])>>)
=============================================================================
