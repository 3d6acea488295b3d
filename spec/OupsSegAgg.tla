----------------------------- MODULE OupsSegAgg -----------------------------
(***************************************************************************)
(* Segmented aggregation: bins, snapshots, chained calls.                  *)
(*                                                                         *)
(*  row  : <<t, a, b>>, t: ordering value (integer time), a, b: values     *)
(*  cfg  : [kind   : "period" | "rows" | "edges" | "marks" (user-defined:   *)
(*                 a new bin each time the 3rd item of rows changes),       *)
(*          f      : period, or number of rows in a bin,                   *)
(*          closed : "left" | "right",                                     *)
(*          label  : "left" | "right",      (periods)                      *)
(*          org    : origin of periods,                                    *)
(*          ends, labs : ends and labels of bins ("edges": bins given by   *)
(*                 their ends, or calendar periods), lead: 1 if bins ahead *)
(*                 of the first row are returned,                          *)
(*          aggs   : sequence of <<function, column (2 to 4)>>; values of  *)
(*                   column 4 may be null (Nil),                           *)
(*          snap   : "none" | "period" | "list",                           *)
(*          g, slabel, sorg : period, label and origin of snapshots        *)
(*          pts    : sequence of points ("list")]                          *)
(*  value  : <<>> (null) or <<v>>                                          *)
(*  result : sequence of <<label, sequence of values>>                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------ values
AggOne(fn, col, rs) ==
  CASE fn = "first" -> rs[1][col]
    [] fn = "last"  -> rs[Len(rs)][col]
    [] fn = "min"   -> FoldLeft(LAMBDA acc, r : Min2(acc, r[col]), rs[1][col], rs)
    [] fn = "max"   -> FoldLeft(LAMBDA acc, r : Max2(acc, r[col]), rs[1][col], rs)
    [] fn = "sum"   -> FoldLeft(LAMBDA acc, r : acc + r[col], 0, rs)
\* A null value is the first (or last) one, and makes a sum null.
Nil == 99999
NullOne(fn, col, rs) == CASE fn = "first" -> rs[1][col] = Nil
                          [] fn = "last" -> rs[Len(rs)][col] = Nil
                          [] OTHER -> \E i \in DOMAIN rs : rs[i][col] = Nil
Vals(cfg, rs) == [i \in DOMAIN cfg.aggs |->
                    IF rs = <<>> \/ NullOne(cfg.aggs[i][1], cfg.aggs[i][2], rs) THEN <<>> ELSE <<AggOne(cfg.aggs[i][1], cfg.aggs[i][2], rs)>>]

\* ------------------------------------------------------------ bins
\* Number of the period of length f, from origin o, in which t lies.
PeriodOf(t, f, o, closed) == IF closed = "left" THEN (t - o) \div f ELSE (t - o - 1) \div f
\* Number of ends passed by t.
EdgesPassed(cfg, t, strict) == Cardinality({i \in DOMAIN cfg.ends : IF strict THEN cfg.ends[i] < t ELSE cfg.ends[i] <= t})
BinNumber(cfg, t) == IF cfg.kind = "edges" THEN EdgesPassed(cfg, t, cfg.closed = "right")
                     ELSE PeriodOf(t, cfg.f, cfg.org, cfg.closed)
BinLabel(cfg, k) == IF cfg.kind = "edges" THEN cfg.labs[k + 1]
                    ELSE cfg.org + (IF cfg.label = "left" THEN k ELSE k + 1) * cfg.f
\* Bin on-going at point p. A point on the end of a bin is in this bin.
BinAtPoint(cfg, p) == IF cfg.kind = "edges" THEN EdgesPassed(cfg, p, TRUE) ELSE (p - cfg.org - 1) \div cfg.f
FirstBin(cfg, rows) == IF cfg.kind = "edges" /\ cfg.lead = 1 THEN 0 ELSE BinNumber(cfg, rows[1][1])
RowsOfBin(cfg, rows, k) == SelectSeq(rows, LAMBDA r : BinNumber(cfg, r[1]) = k)
\* Bins made of successive rows: index of first row of each, with index after last one.
ByRow(cfg) == cfg.kind \in {"rows", "marks"}
Starts(cfg, rows) ==
  IF cfg.kind = "rows" THEN [j \in 1..((Len(rows) + cfg.f - 1) \div cfg.f) |-> (j - 1) * cfg.f + 1]
  ELSE SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : i = 1 \/ rows[i][3] # rows[i - 1][3])
NRowBins(cfg, rows) == Len(Starts(cfg, rows))
RowBin(cfg, rows, j) == LET s == Append(Starts(cfg, rows), Len(rows) + 1) IN SubSeq(rows, s[j], s[j + 1] - 1)

Bins(cfg, rows) ==
  IF rows = <<>> THEN <<>>
  ELSE IF ~ByRow(cfg)
  THEN LET k1 == FirstBin(cfg, rows)   k2 == BinNumber(cfg, rows[Len(rows)][1]) IN
       [i \in 1..(k2 - k1 + 1) |-> <<BinLabel(cfg, k1 + i - 1), Vals(cfg, RowsOfBin(cfg, rows, k1 + i - 1))>>]
  ELSE [j \in 1..NRowBins(cfg, rows) |-> LET rs == RowBin(cfg, rows, j) IN <<rs[1][1], Vals(cfg, rs)>>]

\* ------------------------------------------------------------ snapshots
\* Row r is observed at point p.
Observed(cfg, r, p) == IF cfg.closed = "left" THEN r[1] < p ELSE r[1] <= p

\* Points of observation, as <<label, point>>.
Points(cfg, rows) ==
  IF cfg.snap = "period"
  THEN LET k1 == PeriodOf(rows[1][1], cfg.g, cfg.sorg, cfg.closed)
           k2 == PeriodOf(rows[Len(rows)][1], cfg.g, cfg.sorg, cfg.closed) IN
       [i \in 1..(k2 - k1 + 1) |->
          LET p == cfg.sorg + (k1 + i) * cfg.g IN <<IF cfg.slabel = "right" THEN p ELSE p - cfg.g, p>>]
  ELSE \* up to the first one observing all rows
       LET n == Cardinality({i \in DOMAIN cfg.pts : ~Observed(cfg, rows[Len(rows)], cfg.pts[i])}) IN
       [i \in 1..Min2(n + 1, Len(cfg.pts)) |-> <<cfg.pts[i], cfg.pts[i]>>]

\* With only the n first points of an explicit list known.
Known(cfg, n) == IF cfg.snap = "list" THEN [cfg EXCEPT !.pts = SubSeq(@, 1, n)] ELSE cfg
\* Number of points passed once t is reached: later rows are not observed by them.
PointsPassed(cfg, t) == Cardinality({i \in DOMAIN cfg.pts : IF cfg.closed = "left" THEN cfg.pts[i] <= t ELSE cfg.pts[i] < t})

\* Rows of the bin on-going at point p.
OnGoing(cfg, rows, p) ==
  IF ~ByRow(cfg)
  THEN RowsOfBin(cfg, rows, BinAtPoint(cfg, p))
  ELSE LET s == Append(Starts(cfg, rows), Len(rows) + 1)
           n == Len(s) - 1
           Full(j) == j < n \/ (cfg.kind = "rows" /\ j * cfg.f = Len(rows))
           \* Is end of bin j known, and before p?
           Ended(j) == IF cfg.closed = "left" THEN j < n /\ rows[s[j + 1]][1] < p
                       ELSE Full(j) /\ rows[s[j + 1] - 1][1] < p
           ended == {j \in 1..n : Ended(j)}
           j == IF ended = {} THEN 1 ELSE 1 + (CHOOSE m \in ended : \A o \in ended : o <= m)
       IN IF j > n THEN <<>> ELSE RowBin(cfg, rows, j)
Snaps(cfg, rows) ==
  IF rows = <<>> \/ cfg.snap = "none" THEN <<>>
  ELSE LET pts == Points(cfg, rows) IN
       [i \in DOMAIN pts |-> <<pts[i][1], Vals(cfg, SelectSeq(OnGoing(cfg, rows, pts[i][2]), LAMBDA r : Observed(cfg, r, pts[i][2])))>>]

\* Several row-count bins starting with the same ordering value share a label;
\* in right-closed row-count bins, an ordering value on both sides of a bin end
\* cannot be positioned with respect to snapshots.
DistinctLabels(cfg, rows) == LET b == Bins(cfg, rows) IN \A i, j \in DOMAIN b : i # j => b[i][1] # b[j][1]
SharpRowBins(cfg, rows) == ByRow(cfg) =>
  LET s == Starts(cfg, rows) IN \A j \in 2..Len(s) : rows[s[j] - 1][1] < rows[s[j]][1]

\* ------------------------------------------------------------ chained calls
\* Results kept so far: a label returned again replaces the previous one.
Keep(acc, res) == LET new == {res[i][1] : i \in DOMAIN res} IN SelectSeq(acc, LAMBDA x : x[1] \notin new) \o res

Bad(name, ok) == IF ok THEN {} ELSE {name}
\* One call on whole data.
OneShotClauses(cfg, rows, withsnap, bins, snaps, exc) ==
  IF exc # "" THEN (IF withsnap THEN {"C12.raised"} ELSE {"C11.raised"})
  ELSE LET m == Bins(cfg, rows) IN
            Bad("C11.bins", withsnap \/ [i \in DOMAIN bins |-> bins[i][1]] = [i \in DOMAIN m |-> m[i][1]])
       \cup Bad("C11.values", withsnap \/ bins = m)
       \cup Bad("C12.bins_changed", ~withsnap \/ bins = m)
       \cup (IF ~withsnap THEN {}
             ELSE LET s == Snaps(cfg, rows) IN
                       Bad("C12.points", [i \in DOMAIN snaps |-> snaps[i][1]] = [i \in DOMAIN s |-> s[i][1]])
                  \cup Bad("C12.values", snaps = s))
\* rows: all rows provided so far; bins, snaps: results kept so far.
ChainClauses(cfg, rows, bins, snaps, exc) ==
  IF exc # "" THEN {"C13.raised"}
  ELSE Bad("C13.bins", bins = Bins(cfg, rows)) \cup Bad("C13.snapshots", snaps = Snaps(cfg, rows))

\* ------------------------------------------------------------ incremental aggregation
\* An aggregator which only keeps: whether it started, the bin in progress (its
\* number for periods, its number of rows for row-count bins, its label), its
\* partial values, its last ordering value, and the next point of observation.
Partial(cfg, part, r) ==
  [i \in DOMAIN cfg.aggs |->
     LET fn == cfg.aggs[i][1]   v == r[cfg.aggs[i][2]] IN
     IF part[i] = <<>> THEN <<v>>
     ELSE CASE fn = "first" -> part[i]
            [] fn = "last" -> <<v>>
            [] fn = "min" -> <<Min2(part[i][1], v)>>
            [] fn = "max" -> <<Max2(part[i][1], v)>>
            [] fn = "sum" -> <<part[i][1] + v>>]
Nulls(cfg) == [i \in DOMAIN cfg.aggs |-> <<>>]
Buf0(cfg) == [on |-> FALSE, k |-> 0, lab |-> 0, part |-> Nulls(cfg), t |-> 0, p |-> 0, bins |-> <<>>, snaps |-> <<>>]
Point(cfg, i) == IF cfg.snap = "period" THEN cfg.sorg + (i + 1) * cfg.g ELSE cfg.pts[i]
HasPoint(cfg, i) == IF cfg.snap = "period" THEN TRUE ELSE cfg.snap = "list" /\ i <= Len(cfg.pts)
PointLabel(cfg, i) == IF cfg.snap = "period" /\ cfg.slabel = "left" THEN Point(cfg, i) - cfg.g ELSE Point(cfg, i)
\* Does row r continue bin in progress? For "marks", b.k is the mark.
Continues(cfg, b, r) == b.on /\ (IF cfg.kind = "rows" THEN b.k < cfg.f ELSE IF cfg.kind = "marks" THEN b.k = r[3] ELSE b.k = BinNumber(cfg, r[1]))
\* What is seen at a point, past all rows processed so far; is bin in progress known to be ended?
Seen(cfg, b, p, ended) ==
  IF ~b.on THEN Nulls(cfg)
  ELSE IF ~ByRow(cfg) THEN (IF b.k = BinAtPoint(cfg, p) THEN b.part ELSE Nulls(cfg))
  ELSE IF cfg.closed = "right" /\ (ended \/ (cfg.kind = "rows" /\ b.k = cfg.f)) /\ b.t < p THEN Nulls(cfg) ELSE b.part
RECURSIVE EmitPoints(_, _, _)
EmitPoints(cfg, b, r) ==
  IF HasPoint(cfg, b.p) /\ ~Observed(cfg, r, Point(cfg, b.p))
  THEN EmitPoints(cfg, [b EXCEPT !.snaps = Append(@, <<PointLabel(cfg, b.p), Seen(cfg, b, Point(cfg, b.p), ~Continues(cfg, b, r))>>), !.p = @ + 1], r)
  ELSE b
AddRow(cfg, b0, r) ==
  LET b1 == IF b0.on THEN b0 ELSE [b0 EXCEPT !.p = IF cfg.snap = "period" THEN PeriodOf(r[1], cfg.g, cfg.sorg, cfg.closed) ELSE 1]
      b == IF cfg.snap = "none" THEN b1 ELSE EmitPoints(cfg, b1, r)
  IN IF ~ByRow(cfg)
     THEN LET k == BinNumber(cfg, r[1])   k0 == FirstBin(cfg, <<r>>) IN
          IF b.on /\ b.k = k THEN [b EXCEPT !.part = Partial(cfg, @, r), !.t = r[1]]
          ELSE [b EXCEPT !.on = TRUE, !.k = k, !.lab = BinLabel(cfg, k), !.part = Partial(cfg, Nulls(cfg), r), !.t = r[1],
                         !.bins = IF b.on THEN Append(@, <<b.lab, b.part>>)
                                              \o [i \in 1..(k - b.k - 1) |-> <<BinLabel(cfg, b.k + i), Nulls(cfg)>>]
                                  ELSE @ \o [i \in 1..(k - k0) |-> <<BinLabel(cfg, k0 + i - 1), Nulls(cfg)>>]]
     ELSE IF Continues(cfg, b, r) THEN [b EXCEPT !.k = IF cfg.kind = "rows" THEN @ + 1 ELSE @, !.part = Partial(cfg, @, r), !.t = r[1]]
          ELSE [b EXCEPT !.on = TRUE, !.k = IF cfg.kind = "rows" THEN 1 ELSE r[3], !.lab = r[1], !.part = Partial(cfg, Nulls(cfg), r), !.t = r[1],
                         !.bins = IF b.on THEN Append(@, <<b.lab, b.part>>) ELSE @]
\* One call: results, with bin in progress and first point observing all rows.
Chunk(cfg, buf, rows) ==
  LET b == FoldLeft(LAMBDA acc, r : AddRow(cfg, acc, r), [buf EXCEPT !.bins = <<>>, !.snaps = <<>>], rows)
  IN [buf |-> b, bins |-> Append(b.bins, <<b.lab, b.part>>),
      snaps |-> IF cfg.snap # "none" /\ HasPoint(cfg, b.p)
                THEN Append(b.snaps, <<PointLabel(cfg, b.p), Seen(cfg, b, Point(cfg, b.p), FALSE)>>) ELSE b.snaps]
=============================================================================
