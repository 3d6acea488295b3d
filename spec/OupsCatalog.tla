---------------------------- MODULE OupsCatalog ----------------------------
(***************************************************************************)
(* A store of datasets: keys, directories, metadata.                       *)
(*                                                                         *)
(*  key       : 1..N, numbered in the order of keys                        *)
(*  path      : sequence of directory names below the base directory, of   *)
(*              length Depth for the path of a key                         *)
(*  state     : [keys  : set of keys having a dataset,                     *)
(*               rows  : key -> set of rows (identities),                  *)
(*               md    : key -> set of <<name, value>>  (user metadata),   *)
(*               omd   : key -> set of <<name, value>>  (library's),       *)
(*               dirs  : set of paths of directories,                      *)
(*               files : set of paths of files not belonging to a dataset] *)
(*                                                                         *)
(* Operations:                                                             *)
(*  set     (k, rows, md, omd): accepted write; md: sequence of            *)
(*          <<name, value, has>>, has = 0 standing for a null value        *)
(*  bad     (k, ...) : write to be rejected because of its arguments       *)
(*  del     (k)                                                            *)
(*  file/dir(path)   : foreign file or directory made by somebody else     *)
(*  lay     (k)      : files of a dataset put there by somebody else, and  *)
(*                     store opened again                                  *)
(*  reopen                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

DirPrefixes(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
IsUnder(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Parent(p) == SubSeq(p, 1, Len(p) - 1)

\* Merge of metadata: given value: added or replaced; null: removed; other: kept.
MergeMd(old, new) ==
  {x \in old : \A i \in DOMAIN new : new[i][1] # x[1]}
  \cup {<<new[i][1], new[i][2]>> : i \in {j \in DOMAIN new : new[j][3] = 1}}

\* Directories left once directory p is removed: parents of p are removed, one
\* level after the other, as long as nothing is left in it.
RECURSIVE Prune(_, _, _)
Prune(p, dirs, files) ==
  IF p = <<>> THEN dirs
  ELSE IF \E q \in dirs \cup files : q # p /\ IsUnder(q, p) THEN dirs
  ELSE Prune(Parent(p), dirs \ {p}, files)

Set(st, paths, op) ==
  [st EXCEPT !.keys = @ \cup {op.k},
             !.rows[op.k] = @ \cup {op.rows[i] : i \in DOMAIN op.rows},
             !.md[op.k] = MergeMd(@, op.md),
             !.omd[op.k] = MergeMd(@, op.omd),
             !.dirs = @ \cup DirPrefixes(paths[op.k])]
Delete(st, paths, op) ==
  IF op.k \notin st.keys THEN st
  ELSE LET p == paths[op.k]
           files == {f \in st.files : ~IsUnder(f, p)}
           dirs == {d \in st.dirs : ~IsUnder(d, p)}
       IN [st EXCEPT !.keys = @ \ {op.k}, !.rows[op.k] = {}, !.md[op.k] = {}, !.omd[op.k] = {},
                     !.files = files, !.dirs = Prune(Parent(p), dirs, files)]
Foreign(st, op) ==
  IF op.op = "file" THEN [st EXCEPT !.files = @ \cup {op.path}, !.dirs = @ \cup DirPrefixes(Parent(op.path))]
  ELSE [st EXCEPT !.dirs = @ \cup DirPrefixes(op.path)]

\* A dataset laid by somebody else, and store opened again.
Lay(st, paths, op) == [st EXCEPT !.keys = @ \cup {op.k}, !.dirs = @ \cup DirPrefixes(paths[op.k])]

Apply(st, paths, op) ==
  CASE op.op = "set" -> Set(st, paths, op)
    [] op.op = "del" -> Delete(st, paths, op)
    [] op.op \in {"file", "dir"} -> Foreign(st, op)
    [] op.op = "lay" -> Lay(st, paths, op)
    [] OTHER -> st      \* "bad", "reopen"

Bad(name, ok) == IF ok THEN {} ELSE {name}

\* Clauses on one transition from st (observed before) to po (observed after).
\* ob: what was observed along: exc (exception raised), same (no byte changed
\* on disk), listed / iterated / members / reopened: keys, len, outside (nothing
\* changed out of the base directory), caller (objects of the caller unchanged).
SortedKeys(S) == SetToSortSeq(S, <)
CatalogClauses(st, paths, op, po, ob) ==
  LET m == Apply(st, paths, op) IN
  IF op.op = "bad"
  THEN      Bad("C07.not_rejected", ob.exc # "")
       \cup Bad("C07.disk_changed", ob.same = 1)
       \cup Bad("C07.keys_changed", ob.listed = SortedKeys(st.keys) /\ po.keys = st.keys)
       \cup Bad("C07.caller_objects", ob.caller = 1)
  ELSE IF ob.exc # "" THEN {"C06.raised", "C07.raised", "C08.raised", "C09.raised"}
  ELSE
       Bad("C06.user_metadata", \A k \in DOMAIN paths : k \in po.keys => po.md[k] = m.md[k])
  \cup Bad("C06.library_metadata", \A k \in DOMAIN paths : k \in po.keys => po.omd[k] = m.omd[k])
  \cup Bad("C06.caller_objects", ob.caller = 1)
  \cup Bad("C07.empty_write", (op.op = "set" /\ op.rows = <<>>) => po.rows = st.rows)
  \* An accepted write after rejected ones shows nothing of them.
  \cup Bad("C07.later_write", op.op = "set" => po.rows = m.rows /\ po.omd = m.omd /\ po.md = m.md)
  \cup Bad("C08.disk", po.keys = m.keys)
  \cup Bad("C08.listed", ob.listed = SortedKeys(m.keys))
  \cup Bad("C08.iterated", ob.iterated = SortedKeys(m.keys))
  \cup Bad("C08.length", ob.len = Cardinality(m.keys))
  \cup Bad("C08.membership", ob.members = SortedKeys(m.keys))
  \cup Bad("C08.reopened", ob.reopened = SortedKeys(m.keys))
  \cup (IF op.op = "del"
        THEN      Bad("C09.dataset", op.k \notin po.keys)
             \cup Bad("C09.others", \A k \in m.keys : k \in po.keys /\ po.rows[k] = m.rows[k]
                                       /\ po.md[k] = m.md[k] /\ po.omd[k] = m.omd[k])
             \cup Bad("C09.directories", po.dirs = m.dirs)
             \cup Bad("C09.files", po.files = m.files)
             \cup Bad("C09.outside", ob.outside = 1)
             \cup Bad("C09.missing_key", op.k \notin st.keys => ob.same = 1)
        ELSE {})
  \cup Bad("C09.inherited", (op.op = "set" /\ op.k \notin st.keys) =>
                /\ po.rows[op.k] = {op.rows[i] : i \in DOMAIN op.rows}
                /\ po.md[op.k] = MergeMd({}, op.md) /\ po.omd[op.k] = MergeMd({}, op.omd))
  \cup Bad("C09.base", ob.base = 1)
=============================================================================
