---------------------------- MODULE MCOupsSegAgg ----------------------------
(* All data sets, cut in chunks in all ways, within bounds; the incremental   *)
(* aggregator gives, call after call, the bins and snapshots of the whole.    *)
EXTENDS OupsSegAgg, Json
CONSTANTS TMax, NMax, ChunkMax, Periods, SnapPeriods, Lists, Gen
VARIABLES cfg, rows, buf, bins, snaps, np, hist
vars == <<cfg, rows, buf, bins, snaps, np, hist>>
Aggs == << <<"first", 2>>, <<"last", 2>>, <<"min", 2>>, <<"max", 2>>, <<"sum", 2>> >>
PointLists == IF Lists = 0 THEN {} ELSE { <<2>>, <<1, 4>>, <<3, 4, 5>>, <<0, 9>> }
\* Ends of bins and their labels: last one after all rows.
EdgeLists == { <<1, 4, 100>>, <<2, 3, 5, 100>> }
Cfgs == [kind : {"period", "rows", "edges", "marks"}, f : Periods, closed : {"left", "right"}, label : {"left", "right"}, org : {0},
         aggs : {Aggs}, snap : {"none", "period", "list"}, g : SnapPeriods, slabel : {"right"}, sorg : {0},
         pts : {<<>>} \cup PointLists, ends : {<<>>} \cup EdgeLists, labs : {<<>>} \cup EdgeLists, lead : {0, 1}]
Useful(c) == /\ (c.snap = "list") = (c.pts # <<>>)
             /\ c.snap # "period" => c.g = CHOOSE g \in SnapPeriods : \A h \in SnapPeriods : g <= h
             /\ c.kind # "period" => c.label = "left"
             /\ c.labs = c.ends /\ (c.kind = "edges") = (c.ends # <<>>) /\ (c.kind # "edges" => c.lead = 0)
             /\ c.kind \in {"edges", "marks"} => c.f = CHOOSE g \in Periods : \A h \in Periods : g <= h
Init == /\ cfg \in {c \in Cfgs : Useful(c)} /\ rows = <<>> /\ buf = Buf0(cfg) /\ bins = <<>> /\ snaps = <<>> /\ np = 0 /\ hist = <<>>
\* Values vary enough for each function to tell rows from each other.
Value(i) == <<3, 1, 4, 2, 6, 5, 8, 7>>[((i - 1) % 8) + 1]
LastT == IF rows = <<>> THEN 0 ELSE rows[Len(rows)][1]
Seqs(n) == {s \in [1..n -> LastT..Min2(TMax, IF Gen THEN LastT + 4 ELSE TMax)] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]}
\* An explicit list of points may be provided progressively: call after call, at
\* least those returned already, and those which rows provided have passed.
Counts(s) == IF cfg.snap # "list" THEN {0}
             ELSE Max2(Len(snaps), PointsPassed(cfg, s[Len(s)]))..Len(cfg.pts)
Marks(s) == IF cfg.kind = "marks" THEN [DOMAIN s -> {0, 1}] ELSE {[i \in DOMAIN s |-> 0]}
Call(s, mk, n) ==
  LET new == [i \in DOMAIN s |-> <<s[i], Value(Len(rows) + i), mk[i]>>]
      c == Chunk(Known(cfg, n), buf, new) IN
  /\ rows' = rows \o new /\ buf' = c.buf /\ hist' = Append(hist, [rows |-> new, np |-> n]) /\ np' = n
  /\ bins' = Keep(bins, c.bins) /\ snaps' = Keep(snaps, c.snaps) /\ UNCHANGED cfg
Pick(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})
Next == IF Gen
        THEN Len(rows) < NMax /\ \E n \in {Pick(1..ChunkMax)} : \E s \in {Pick(Seqs(n))} : \E m \in {Pick(Counts(s))} : \E mk \in {Pick(Marks(s))} : Call(s, mk, m)
        ELSE \E n \in 1..ChunkMax : Len(rows) + n <= NMax /\ \E s \in Seqs(n) : \E m \in Counts(s) : \E mk \in Marks(s) : Call(s, mk, m)
Spec == Init /\ [][Next]_vars
View == <<cfg, rows, buf, bins, snaps, np>>

Domain == ByRow(cfg) => DistinctLabels(cfg, rows) /\ (cfg.snap # "none" /\ cfg.closed = "right" => SharpRowBins(cfg, rows))
ChainedBins == Domain => bins = Bins(cfg, rows)
ChainedSnaps == Domain => snaps = Snaps(Known(cfg, np), rows)
NoBad == Domain /\ rows # <<>> => ChainClauses(Known(cfg, np), rows, bins, snaps, "") = {}
\* Facts about bins.
EachRowOnce == ~ByRow(cfg) /\ rows # <<>> =>
  \A i \in DOMAIN rows : Cardinality({k \in BinNumber(cfg, rows[1][1])..BinNumber(cfg, rows[Len(rows)][1]) :
       \E j \in DOMAIN RowsOfBin(cfg, rows, k) : RowsOfBin(cfg, rows, k)[j] = rows[i]}) = 1
SumKept == rows # <<>> => LET b == Bins(cfg, rows) IN
  FoldLeft(LAMBDA acc, x : acc + (IF x[2][5] = <<>> THEN 0 ELSE x[2][5][1]), 0, b) = AggOne("sum", 2, rows)
EndsNotNull == rows # <<>> => LET b == Bins(cfg, rows) IN (cfg.lead = 0 => b[1][2][1] # <<>>) /\ b[Len(b)][2][1] # <<>>
InBounds == cfg.kind = "period" => \A i \in DOMAIN rows : LET k == BinNumber(cfg, rows[i][1]) IN
  IF cfg.closed = "left" THEN k * cfg.f <= rows[i][1] /\ rows[i][1] < (k + 1) * cfg.f
  ELSE k * cfg.f < rows[i][1] /\ rows[i][1] <= (k + 1) * cfg.f
\* A snapshot on the end of a bin shows the final value of this bin.
SnapOnEnd == cfg.kind = "period" /\ rows # <<>> /\ cfg.snap # "none" =>
  \A i \in DOMAIN Points(cfg, rows) : LET p == Points(cfg, rows)[i][2] IN
    (p % cfg.f = 0) => Snaps(cfg, rows)[i][2] = Vals(cfg, RowsOfBin(cfg, rows, p \div cfg.f - 1))
Emit == (Gen /\ Len(rows) >= NMax) => PrintT(<<"HIST", ToJson([cfg |-> cfg, chunks |-> hist])>>)
=============================================================================
