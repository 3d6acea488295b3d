------------------------------ MODULE OupsMemory ------------------------------
(* Streamed aggregation out of core: data are asked chunk by chunk, and the    *)
(* results kept in memory are bounded.                                         *)
(*                                                                             *)
(* At the time a chunk is asked, for each key, 'done' gives the number of      *)
(* bins and of snapshots over after each (non-empty) chunk received before,    *)
(* and 'disk' what a reader finds in the store. Only results of the two last   *)
(* chunks, and others within the limit of the key, may be missing.             *)
EXTENDS OupsSegAgg

Over(cfg, rows) == <<Len(Bins(cfg, rows)) - 1,
                     IF cfg.snap = "none" THEN 0 ELSE LET n == Len(Snaps(cfg, rows)) IN IF n = 0 THEN 0 ELSE n - 1>>
Pos(n) == IF n > 0 THEN n ELSE 0
\* Size of results over for at least 'lag' chunks and not written.
Held(done, disk, w, ws, lag) ==
  IF Len(done) <= lag THEN 0
  ELSE LET d == done[Len(done) - lag] IN Pos(d[1] - disk[1]) * w + Pos(d[2] - disk[2]) * ws
Lag == 2
Within(done, disk, w, ws, lim) == Held(done, disk, w, ws, Lag) <= lim

\* ------------------------------------------------------- recorded histories
Mem0(keys) == [fed |-> 0, asked |-> 0, done |-> [i \in DOMAIN keys |-> <<>>]]
\* Chunks which may be held together, and received without being considered yet.
MaxAlive == 3
Ahead == 1
MemStep(tr, st, s) ==
  LET n == Len(tr.keys)
      rows == SubSeq(tr.rows, 1, st.fed)
      All(i) == <<Len(Bins(tr.keys[i].cfg, rows)), IF tr.keys[i].cfg.snap = "none" THEN 0 ELSE Len(Snaps(tr.keys[i].cfg, rows))>>
      fed == st.fed + s.n
      bad == IF s.op = "raised" THEN {"C24.raised"} ELSE Bad("C24.memory", \A i \in 1..n : LET k == tr.keys[i] IN Within(st.done[i], s.disk[i], k.w, k.w, k.lim))
             \cup Bad("C24.chunks_held", s.alive <= MaxAlive)
             \cup Bad("C24.read_ahead", s.pre >= st.asked - Ahead)
             \cup (IF s.op = "final" THEN Bad("C24.written", \A i \in 1..n : s.disk[i] = All(i)) ELSE {})
  IN [st |-> [fed |-> fed, asked |-> s.asked,
              done |-> IF s.n = 0 THEN st.done
                       ELSE [i \in 1..n |-> Append(st.done[i], Over(tr.keys[i].cfg, SubSeq(tr.rows, 1, fed)))]],
      bad |-> bad]
===============================================================================
