----------------------------- MODULE MCOupsMemory -----------------------------
(* Model of the aggregation of a key with limited memory: each chunk ends some  *)
(* bins and snapshots (whose results follow one that is not over). Results of a *)
(* chunk are set aside when the next one comes, after what is kept is written   *)
(* if it is too large (rules: sizes set aside before the last ones, with or     *)
(* without the mean size of what a chunk gives).                                *)
EXTENDS OupsMemory
CONSTANTS MaxChunks, MaxOver, Limits, MaxCalls
VARIABLES rule, lim, ws,      \* settings
          done,               \* results over after each chunk
          last,               \* results of the last chunk (or <<>>)
          kept, size,         \* results set aside, with their recorded sizes
          disk, calls
vars == <<rule, lim, ws, done, last, kept, size, disk, calls>>
Init == /\ rule \in {"mean", "plain"} /\ lim \in Limits /\ ws \in {0, 1}
        /\ done = <<>> /\ last = <<>> /\ kept = <<>> /\ size = 0 /\ disk = <<0, 0>> /\ calls = 0
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sum(seq) == FoldLeft(Add, <<0, 0>>, seq)
Bytes(d) == d[1] + 1 + ws * (d[2] + 1)
TooLarge(sz, n) == IF rule = "mean" THEN sz + sz \div n > lim ELSE sz > lim
Total == IF done = <<>> THEN <<0, 0>> ELSE done[Len(done)]
Receive(d) ==
  /\ calls < MaxCalls /\ Len(done) < MaxChunks
  /\ done' = Append(done, Add(Total, d)) /\ last' = d
  /\ IF last = <<>> THEN UNCHANGED <<kept, size, disk>>
     ELSE LET k == Append(kept, last) IN
          IF TooLarge(size, Len(k))
          THEN disk' = Add(disk, Sum(k)) /\ kept' = <<>> /\ size' = 0
          ELSE disk' = disk /\ kept' = k /\ size' = size + Bytes(last)
  /\ UNCHANGED <<rule, lim, ws, calls>>
\* Last results are written, and the one which is not over too (not counted here).
Final == /\ calls < MaxCalls /\ calls' = calls + 1 /\ last # <<>>
         /\ disk' = Add(disk, Sum(Append(kept, last))) /\ kept' = <<>> /\ size' = 0 /\ last' = <<>>
         /\ UNCHANGED <<rule, lim, ws, done>>
Next == Final \/ \E a \in 0..MaxOver, b \in 0..(IF ws = 0 THEN 0 ELSE MaxOver) : Receive(<<a, b>>)
Spec == Init /\ [][Next]_vars
WithinLimit == Within(done, disk, 1, ws, lim)
NothingLost == Add(disk, Sum(IF last = <<>> THEN kept ELSE Append(kept, last))) = Total
=============================================================================
