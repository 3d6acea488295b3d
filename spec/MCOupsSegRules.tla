--------------------------- MODULE MCOupsSegRules ---------------------------
(***************************************************************************)
(* Settings and results of user functions, enumerated; chains of calls to  *)
(* which lists of points (or ends) are given, some being refused, on an    *)
(* aggregator which only keeps the last end, its partial value and the     *)
(* last ordering value.                                                    *)
(***************************************************************************)
EXTENDS OupsSegRules, Json
CONSTANTS TMax, MaxCalls, MaxRows, Generate
VARIABLES what, closed, st, buf, kept, calls, hist
vars == <<what, closed, st, buf, kept, calls, hist>>

\* ---------------------------------------------------------------- settings
Settings ==
  {[binby |-> bb, bkey |-> bk, bon |-> bo, ord |-> od, closed |-> "left", snap |-> sn[1], skey |-> sn[2], sclosed |-> sn[3], in |-> ag[1], fn |-> ag[2]] :
     bb \in {"period", "callable", "other"}, bk \in {"", "t", "v"}, bo \in {"", "t", "v"}, od \in {"", "t", "v", "u"},
     sn \in {<<"none", "", "left">>, <<"list", "", "left">>} \cup {<<"period", k, c>> : k \in {"", "t", "v"}, c \in {"left", "right"}},
     ag \in {<<"v", "sum">>, <<"zz", "sum">>, <<"v", "zz">>, <<"s", "first">>}}
UsefulSettings == {s \in Settings : (s.binby # "period" => s.bkey = "") /\ SettingDomain(s) /\ Cardinality(SettingFlaws(s)) <= 1}
Flaws == {"bin_by", "no_column", "two_columns", "ordered_apart", "not_times", "no_order", "snaps_apart", "closed_apart", "disorder", "unknown_column",
          "unknown_function", "type"}
\* Each rule decides alone for some setting.
ASSUME \A f \in Flaws : \E s \in UsefulSettings : SettingFlaws(s) = {f}
ASSUME \E s \in UsefulSettings : SettingFlaws(s) = {} /\ s.snap # "none"

\* ---------------------------------------------------------------- bins of a user function
FunN == 2
StartSeqs == UNION {{q \in [1..m -> 0..FunN] : \A i \in 1..(m - 1) : q[i] <= q[i + 1]} : m \in 1..3}
Funs == {[n |-> FunN, starts |-> q, labs |-> [i \in 1..(Len(q) + dl) |-> l0 + i], nend |-> Len(q) + de, closed |-> c, series |-> se, chain |-> ch] :
           q \in StartSeqs, dl \in {-1, 0, 1}, de \in {-1, 0, 1}, l0 \in {4, 6}, c \in {"left", "right", "mid"}, se \in {0, 1}, ch \in {0, 1}}
\* Last bin of a first call has label 5.
First == [rows |-> <<<<1, 3, 0>>, <<2, 5, 0>>>>, f |-> [n |-> 2, starts |-> <<1, 2>>, labs |-> <<1, 5>>, nend |-> 2, closed |-> "left", series |-> 1, chain |-> 1]]
AfterFirst == FunAfter(Chain0, First.f, First.rows)
FunRows == <<<<3, 7, 0>>, <<4, 11, 0>>>>
UsefulFuns == {f \in Funs : FunDomain(f) /\ Cardinality(FunFlaws(AfterFirst, f)) <= 1}
ASSUME FunFlaws(Chain0, First.f) = {}
ASSUME \A f \in {"closed", "series", "labels", "ends", "cover", "trailing", "label"} : \E x \in UsefulFuns : FunFlaws(AfterFirst, x) = {f}
\* In an accepted chain, each row counts once.
ASSUME \A f \in UsefulFuns : f.chain = 1 /\ FunFlaws(AfterFirst, f) = {} =>
         FoldLeft(LAMBDA acc, b : acc + (IF b[2] = <<>> THEN 0 ELSE b[2][1]), 0, FunAfter(AfterFirst, f, FunRows).bins)
         = Total(First.rows \o FunRows)

\* ---------------------------------------------------------------- lists
Value(i) == <<3, 1, 4, 2, 6, 5, 8, 7>>[((i - 1) % 8) + 1]
Subsets(n) == {SetToSortSeq(S, <) : S \in {T \in SUBSET (1..(TMax + 1)) : Cardinality(T) <= n}}
Lists == Subsets(3) \ {<<>>}
Seqs == LET from == IF st.rows = <<>> THEN 0 ELSE LastT(st.rows) IN
        UNION {{q \in [1..n -> from..TMax] : \A i \in 1..(n - 1) : q[i] <= q[i + 1]} : n \in 1..MaxRows}
Init == /\ what \in {"points", "ends"} /\ closed \in {"left", "right"} /\ st = Chain0 /\ calls = 0 /\ hist = <<>> /\ kept = <<>>
        /\ buf = [on |-> 0, key |-> 0, over |-> <<>>, part |-> <<>>]
\* Aggregator: ends passed one after the other. A point keeps all rows so far, an end restarts from none.
RECURSIVE Walk(_, _, _, _)
Walk(acc, ends, rows, part) ==
  IF ends = <<>> THEN [out |-> acc, part |-> FoldLeft(LAMBDA p, r : IF p = <<>> THEN <<r[2]>> ELSE <<p[1] + r[2]>>, part, rows), last |-> 0]
  ELSE LET n == Cardinality({i \in DOMAIN rows : Ahead(closed, ends[1], rows[i][1])})
           p == FoldLeft(LAMBDA a, r : IF a = <<>> THEN <<r[2]>> ELSE <<a[1] + r[2]>>, part, SubSeq(rows, 1, n))
           out == Append(acc, <<ends[1], p>>) IN
       IF n = Len(rows) THEN [out |-> out, part |-> p, last |-> 1]
       ELSE Walk(out, Tail(ends), SubSeq(rows, n + 1, Len(rows)), IF what = "points" THEN p ELSE <<>>)
\* Is a call refused, from what is kept only?
Refused(list, rows) ==
  LET l == IF buf.on = 1 THEN SelectSeq(list, LAMBDA e : e >= buf.key) ELSE list IN
  \/ buf.on = 1 /\ (l = <<>> \/ l[1] # buf.key)
  \/ what = "points" /\ buf.over # <<>> /\ Len(l) > 1 /\ ~Ahead(closed, l[2], buf.over[1])
  \/ what = "ends" /\ (l = <<>> \/ ~Ahead(closed, l[Len(l)], LastT(rows)))
Call(list, ts) ==
  LET rows == [i \in DOMAIN ts |-> <<ts[i], Value(Len(st.rows) + i), 0>>]
      l == IF buf.on = 1 THEN SelectSeq(list, LAMBDA e : e >= buf.key) ELSE list
      m == IF buf.over # <<>> /\ l # <<>> /\ ~Ahead(closed, l[1], buf.over[1]) THEN Tail(l) ELSE l
      w == Walk(<<>>, m, rows, buf.part)
      entry == [what |-> what, closed |-> closed, list |-> list, rows |-> rows] IN
  /\ calls' = calls + 1 /\ UNCHANGED <<what, closed>>
  /\ hist' = IF Generate THEN Append(hist, entry) ELSE hist
  /\ IF Refused(list, rows)
     THEN UNCHANGED <<st, buf, kept>>
     ELSE /\ st' = ListAfter(st, closed, what, list, rows)
          /\ kept' = Keep(kept, w.out)
          /\ buf' = [on |-> IF w.out = <<>> THEN buf.on ELSE 1, key |-> IF w.out = <<>> THEN buf.key ELSE w.out[Len(w.out)][1],
                     over |-> IF w.last = 1 THEN <<>> ELSE <<LastT(rows)>>, part |-> w.part]
Pick(S) == RandomElement(IF calls >= 0 THEN S ELSE {})
\* Lists which go on from previous one, more often than not.
Likely == LET good == {l \in Lists : st.used = <<>> \/ \E i \in DOMAIN l : l[i] = st.used[Len(st.used)]} IN
          IF good = {} \/ Pick(1..4) = 1 THEN Lists ELSE good
Next == calls < MaxCalls /\ IF Generate THEN \E l \in {Pick(Likely)} : \E q \in {Pick(Seqs)} : Call(l, q)
                            ELSE \E l \in Lists, q \in Seqs : Call(l, q)
Spec == Init /\ [][Next]_vars
View == <<what, closed, st, buf, kept, calls>>

SameRefusal == Generate \/ \A l \in Lists, q \in Seqs :
  LET rows == [i \in DOMAIN q |-> <<q[i], 1, 0>>] IN calls < MaxCalls => (Refused(l, rows) <=> ListFlaws(st, closed, what, l, rows) # {})
SameResults == kept = st.snaps
\* Results kept are those of their definition on all rows.
PointsFinal == what = "points" => \A i \in DOMAIN kept : kept[i][2] = PointValue(closed, st.rows, kept[i][1])
EndsOnce == what = "ends" => FoldLeft(LAMBDA acc, b : acc + (IF b[2] = <<>> THEN 0 ELSE b[2][1]), 0, kept) = Total(st.rows)
Emit == (Generate /\ calls = MaxCalls) => PrintT(<<"HIST", ToJson(hist)>>)
ASSUME Generate => PrintT(<<"SETTINGS", ToJson(UsefulSettings)>>) /\ PrintT(<<"FUNS", ToJson(UsefulFuns)>>) /\ PrintT(<<"FIRST", ToJson(First)>>)
         /\ PrintT(<<"FUNROWS", ToJson(FunRows)>>)
=============================================================================
