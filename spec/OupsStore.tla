----------------------------- MODULE OupsStore -----------------------------
(***************************************************************************)
(* One oups dataset, at the granularity of its row groups.                 *)
(*                                                                         *)
(*  row       : <<o, d, p>>   o - value in the ordering column             *)
(*                            d - value in a second column                 *)
(*                            p - identity of the payload (all other       *)
(*                                columns are a function of p)             *)
(*  row group : non-empty sequence of rows   (one part file)               *)
(*  dataset   : sequence of row groups                                     *)
(*                                                                         *)
(*  write     : [data |-> sequence of rows, max |-> Nat (max rows per row  *)
(*               group), ord |-> BOOLEAN (ordering column declared),       *)
(*               dup |-> "none" | "o" | "d" | "od" | "all",                *)
(*               nirgs |-> -1 (not set) or Nat]                            *)
(*                                                                         *)
(* Part 1 gives the vocabulary of the documentation (overlap, incomplete   *)
(* row groups, coalescing rule, duplicates).  Part 2 is the exact          *)
(* transition performed by a write (`Write`).  Part 3 states the listed    *)
(* properties as predicates on one transition (pre, write, post): they are *)
(* checked on the model (MCOupsStore) and on every transition recorded     *)
(* from the real code (TraceOupsStore).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

O(r) == r[1]
D(r) == r[2]
P(r) == r[3]

CeilDiv(a, b) == (a + b - 1) \div b
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

Flat(rgs) == FlattenSeq(rgs)
\* Rows of row groups s..e
Rows(rgs, s, e) == Flat(SubSeq(rgs, s, e))

LexLess(a, b) == \/ a[1] < b[1]
                 \/ a[1] = b[1] /\ a[2] < b[2]
                 \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Canon(s) == SortSeq(s, LexLess)
SameBag(a, b) == Len(a) = Len(b) /\ Canon(a) = Canon(b)

Ascending(s) == \A i \in 1..(Len(s) - 1) : O(s[i]) <= O(s[i+1])

\* Stable sort on ordering column: sort of the positions.
StableSort(s) ==
  IF Ascending(s) THEN s
  ELSE LET perm == SortSeq([i \in 1..Len(s) |-> i],
                           LAMBDA a, b : O(s[a]) < O(s[b]) \/ (O(s[a]) = O(s[b]) /\ a < b))
       IN [i \in 1..Len(s) |-> s[perm[i]]]

\* Key identifying duplicates. The ordering column is always part of it.
DupKey(dup, r) == CASE dup = "o"  -> <<O(r)>>
                    [] dup \in {"d", "od"} -> <<O(r), D(r)>>
                    [] dup = "all" -> r

\* Keep last of each key, at the position of this last.
DedupLast(dup, s) ==
  IF dup = "none" THEN s
  ELSE LET keep == { i \in 1..Len(s) : \A j \in (i+1)..Len(s) : DupKey(dup, s[j]) # DupKey(dup, s[i]) }
           ks == SetToSortSeq(keep, <)
       IN [i \in 1..Len(ks) |-> s[ks[i]]]

RgMin(g) == LET S == {O(g[i]) : i \in DOMAIN g} IN CHOOSE x \in S : \A y \in S : x <= y
RgMax(g) == LET S == {O(g[i]) : i \in DOMAIN g} IN CHOOSE x \in S : \A y \in S : x >= y

\*--------------------------- Part 1: vocabulary ---------------------------
\* Row groups whose range of values has common values with that of new data.
Overlap(rgs, w) ==
  IF ~w.ord \/ w.data = <<>> THEN {}
  ELSE LET first == O(w.data[1])   last == O(w.data[Len(w.data)])
       IN {i \in DOMAIN rgs : RgMax(rgs[i]) >= first /\ RgMin(rgs[i]) <= last}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

\* Number of row groups ahead of new data when there is no overlap.
NPrior(rgs, w) ==
  IF ~w.ord \/ w.data = <<>> THEN Len(rgs)
  ELSE Cardinality({i \in DOMAIN rgs : RgMin(rgs[i]) <= O(w.data[1])})
\* New data goes ahead of some existing row groups, without overlap.
Inserts(rgs, w) == Overlap(rgs, w) = {} /\ NPrior(rgs, w) < Len(rgs)

\* 'Incomplete' row group: at most 90% of max size (integer part).
Incomplete(g, w) == Len(g) <= (w.max * 9) \div 10
\* First of the trailing incomplete row groups (Len + 1 if none).
FirstTrailing(rgs, w) ==
  LET S == {i \in DOMAIN rgs : \A j \in i..Len(rgs) : Incomplete(rgs[j], w)}
  IN IF S = {} THEN Len(rgs) + 1 ELSE SetMin(S)
TrailingRows(rgs, w) == Len(Rows(rgs, FirstTrailing(rgs, w), Len(rgs)))
NTrailing(rgs, w) == Len(rgs) + 1 - FirstTrailing(rgs, w)
\* Coalescing rule of the documentation.
CoalesceRule(rgs, w) ==
  /\ w.nirgs >= 0
  /\ ~Inserts(rgs, w)
  /\ \/ TrailingRows(rgs, w) + Len(w.data) >= w.max
     \/ NTrailing(rgs, w) >= w.nirgs

\* Range [s, e] of the row groups that a write replaces (s > e: none).
NoRange(rgs) == [s |-> Len(rgs) + 1, e |-> Len(rgs)]
RewRange(rgs, w) ==
  LET ov == Overlap(rgs, w)   n == Len(rgs)   ft == FirstTrailing(rgs, w)
      base == IF ov = {} THEN NoRange(rgs)
              ELSE [s |-> SetMin(ov), e |-> IF Cardinality(ov) = 1 THEN n ELSE SetMax(ov)]
  IN IF ~CoalesceRule(rgs, w) THEN base
     ELSE IF ov = {} THEN [s |-> ft, e |-> n]
     ELSE IF base.e = n \/ ft <= base.e THEN [s |-> MinI(ft, base.s), e |-> base.e]
     ELSE base
Merges(r) == r.s <= r.e

\*--------------------------- Part 2: a write ------------------------------
\* Even split of n rows: 0-based starts.
ChunkSize(n, max) == LET parts == CeilDiv(n, max) IN MinI((n - 1) \div parts + 1, n)
Starts(n, max) == LET sz == ChunkSize(n, max) IN [i \in 1..CeilDiv(n, sz) |-> (i - 1) * sz]
Cut(s, starts) ==   \* 'starts': ascending 0-based positions, the first being 0
  [i \in 1..Len(starts) |->
     SubSeq(s, starts[i] + 1, IF i = Len(starts) THEN Len(s) ELSE starts[i+1])]
\* Split ignoring values.
Split(s, max) == IF s = <<>> THEN <<>> ELSE Cut(s, Starts(Len(s), max))
\* Split never separating equal values of the ordering column.
SharpSplit(s, max) ==
  LET first(v) == CHOOSE i \in 0..(Len(s) - 1) : O(s[i+1]) = v /\ \A j \in 0..(i-1) : O(s[j+1]) # v
      st == Starts(Len(s), max)
      pos == {first(O(s[st[i] + 1])) : i \in DOMAIN st}
  IN Cut(s, SetToSortSeq(pos, <))

Write(rgs, w) ==
  IF rgs = <<>> THEN Split(w.data, w.max)
  ELSE LET r == RewRange(rgs, w)   n == Len(rgs)
       IN IF Merges(r)
          THEN LET all == Rows(rgs, r.s, r.e) \o w.data
                   new == IF w.ord
                          THEN LET cs == SharpSplit(StableSort(all), w.max)
                               IN [i \in DOMAIN cs |-> DedupLast(w.dup, cs[i])]
                          ELSE Split(all, w.max)
               IN SubSeq(rgs, 1, r.s - 1) \o new \o SubSeq(rgs, r.e + 1, n)
          ELSE IF w.data = <<>> THEN rgs
          ELSE LET k == IF Inserts(rgs, w) THEN NPrior(rgs, w) ELSE n
               IN SubSeq(rgs, 1, k) \o Split(w.data, w.max) \o SubSeq(rgs, k + 1, n)

\*------------------- Part 3: properties of one transition -----------------
\* C01: rows are conserved.
C01NoDup(pre, w, post) == w.dup = "none" => SameBag(Flat(post), Flat(pre) \o w.data)
C01Dup(pre, w, post) ==
  w.dup # "none" =>
    LET a == Flat(pre) \o w.data   b == Flat(post)
        count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
    IN /\ \A i \in DOMAIN b : count(b, b[i]) <= count(a, b[i])
       /\ \A i \in DOMAIN a : \E j \in DOMAIN b : DupKey(w.dup, b[j]) = DupKey(w.dup, a[i])

\* C02: only for histories in which all writes are ordered (precondition:
\* w.ord and rows of pre and of data are ascending).
IsSubSeqOf(a, b) ==   \* a is a sub-sequence of b
  FoldLeft(LAMBDA n, x : IF n < Len(a) /\ x = a[n + 1] THEN n + 1 ELSE n, 0, b) = Len(a)
C02Pre(pre, w) == w.ord /\ Ascending(Flat(pre)) /\ Ascending(w.data)
C02Ordered(pre, w, post) == C02Pre(pre, w) => Ascending(Flat(post))
C02Stable(pre, w, post) ==
  C02Pre(pre, w) =>
    LET ref == StableSort(Flat(pre) \o w.data)
    IN IF w.dup = "none" THEN Flat(post) = ref ELSE IsSubSeqOf(Flat(post), ref)

\* C03: rows read back when duplicates are dropped.
\* The write merges some range of row groups including all overlapped ones.
C03Keep(pre, w, post) ==
  (w.dup # "none" /\ pre # <<>> /\ Overlap(pre, w) # {}) =>
    LET ov == Overlap(pre, w)   n == Len(pre)   b == Flat(post)
    IN \E s \in 1..SetMin(ov), e \in SetMax(ov)..n :
         b = Rows(pre, 1, s - 1)
             \o DedupLast(w.dup, StableSort(Rows(pre, s, e) \o w.data))
             \o Rows(pre, e + 1, n)
\* Without overlap, rows of existing row groups are only merged by coalescing.
C03NoOverlap(pre, w, post) ==
  (w.dup # "none" /\ pre # <<>> /\ Overlap(pre, w) = {}) =>
    LET n == Len(pre)   b == Flat(post)   k == NPrior(pre, w)
        ft == FirstTrailing(pre, w)
    IN \/ \E new \in {w.data, DedupLast(w.dup, w.data)} :
             b = Rows(pre, 1, k) \o new \o Rows(pre, k + 1, n)
       \/ /\ CoalesceRule(pre, w)
          /\ \E s \in ft..n :
               b = Rows(pre, 1, s - 1) \o DedupLast(w.dup, StableSort(Rows(pre, s, n) \o w.data))

\* C04: row groups produced by the write, i.e. what remains of 'post' once
\* the row groups that have to be kept are taken away.
KeptHead(pre, w) ==
  LET ov == Overlap(pre, w)   n == Len(pre)   r == RewRange(pre, w)
  IN IF Merges(r) THEN r.s - 1 ELSE IF Inserts(pre, w) THEN NPrior(pre, w) ELSE n
KeptTail(pre, w) ==
  LET r == RewRange(pre, w) IN
  IF Merges(r) THEN Len(pre) - r.e ELSE IF Inserts(pre, w) THEN Len(pre) - NPrior(pre, w) ELSE 0
C04Head(pre, w, post) == LET k == KeptHead(pre, w) IN
  Len(post) >= k /\ SubSeq(post, 1, k) = SubSeq(pre, 1, k)
C04Tail(pre, w, post) == LET k == KeptTail(pre, w)   n == Len(pre)   m == Len(post) IN
  m >= k /\ SubSeq(post, m - k + 1, m) = SubSeq(pre, n - k + 1, n)
Produced(pre, w, post) == SubSeq(post, KeptHead(pre, w) + 1, Len(post) - KeptTail(pre, w))
C04Size(pre, w, post) ==
  LET g == Produced(pre, w, post)   merged == pre # <<>> /\ Merges(RewRange(pre, w)) IN
  \A i \in DOMAIN g :
     \/ Len(g[i]) <= w.max
     \/ /\ merged /\ w.ord
        /\ Cardinality({j \in DOMAIN g[i] : O(g[i][j]) # O(g[i][1])}) < w.max
C04NotEmpty(pre, w, post) == \A i \in DOMAIN post : post[i] # <<>>
C04Sharp(pre, w, post) ==
  (pre # <<>> /\ Merges(RewRange(pre, w)) /\ w.ord) =>
    LET g == Produced(pre, w, post) IN
    \A i \in 1..(Len(g) - 1) : g[i] # <<>> /\ g[i+1] # <<>> => O(g[i][Len(g[i])]) # O(g[i+1][1])
C04Number(pre, w, post) ==
  LET r == RewRange(pre, w)
      rows == Len(w.data) + (IF pre # <<>> /\ Merges(r) THEN Len(Rows(pre, r.s, r.e)) ELSE 0)
  IN Len(Produced(pre, w, post)) <= CeilDiv(rows, w.max)

Bad(name, ok) == IF ok THEN {} ELSE {name}
StoreClauses(pre, w, post) ==
       Bad("C01.rows", C01NoDup(pre, w, post))
  \cup Bad("C01.rows_dup", C01Dup(pre, w, post))
  \cup Bad("C02.ordered", C02Ordered(pre, w, post))
  \cup Bad("C02.stable", C02Stable(pre, w, post))
  \cup Bad("C03.keep_last", C03Keep(pre, w, post))
  \cup Bad("C03.no_overlap", C03NoOverlap(pre, w, post))
  \cup (IF ~C04Head(pre, w, post) THEN {"C04.head_kept"}
        ELSE IF ~C04Tail(pre, w, post) THEN {"C04.tail_kept"}
        ELSE IF Len(post) < KeptHead(pre, w) + KeptTail(pre, w) THEN {"C04.head_tail"}
        ELSE Bad("C04.size", C04Size(pre, w, post))
        \cup Bad("C04.sharp", C04Sharp(pre, w, post))
        \cup Bad("C04.number", C04Number(pre, w, post)))
  \cup Bad("C04.empty_rg", C04NotEmpty(pre, w, post))
  \cup Bad("C07.empty_write", (w.data = <<>> /\ w.dup = "none") => SameBag(Flat(pre), Flat(post)))
=============================================================================
