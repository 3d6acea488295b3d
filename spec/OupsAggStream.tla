--------------------------- MODULE OupsAggStream ---------------------------
(***************************************************************************)
(* Streamed aggregation: chunks, trimming, discarding, filters, seed       *)
(* checks, intermediate and final writes, restarts.                        *)
(*                                                                         *)
(*  row    : <<t, a, b, c, q>>, t: ordering value, a, b: aggregated values *)
(*           c: integer, q: 0/1, both for filtering                        *)
(*  filter : sequence ("or") of sequences ("and") of <<column, operator,   *)
(*           sequence of values>>, <<>> for unfiltered data                *)
(*  key    : [cfg  : as in OupsSegAgg,                                     *)
(*            filt : filter,                                               *)
(*            res  : "bins" | "snaps" | "both", what is recorded,          *)
(*            post : "none" | "keep" | other]                              *)
(***************************************************************************)
EXTENDS OupsSegAgg

T(r) == r[1]
LastT(rows) == rows[Len(rows)][1]

\* ---------------------------------------------------------------- filters
Holds(r, f) ==
  LET x == r[f[1]]   v == f[3] IN
  CASE f[2] \in {"==", "="} -> x = v[1]
    [] f[2] = "!=" -> x # v[1]
    [] f[2] = ">"  -> x > v[1]
    [] f[2] = ">=" -> x >= v[1]
    [] f[2] = "<"  -> x < v[1]
    [] f[2] = "<=" -> x <= v[1]
    [] f[2] = "in" -> \E i \in DOMAIN v : v[i] = x
    [] f[2] = "not in" -> \A i \in DOMAIN v : v[i] # x
    [] f[2] = "~" -> x = 0
Passes(r, dnf) == dnf = <<>> \/ \E o \in DOMAIN dnf : \A a \in DOMAIN dnf[o] : Holds(r, dnf[o][a])
RowsOf(key, rows) == SelectSeq(rows, LAMBDA r : Passes(r, key.filt))
\* For a key declared once 'from[k]' rows had been consumed (-1: not declared).
PassesOne(keys, from, r) == \E k \in DOMAIN keys : from[k] >= 0 /\ Passes(r, keys[k].filt)
From(s, n) == SubSeq(s, n + 1, Len(s))
RowsSince(key, from, rows) == IF from < 0 THEN <<>> ELSE RowsOf(key, From(rows, from))

\* ---------------------------------------------------------------- results
\* rows: those of the key.
ResBins(key, rows) == IF key.res = "snaps" THEN <<>> ELSE Bins(key.cfg, rows)
ResSnaps(key, rows) == IF key.res = "bins" THEN <<>> ELSE Snaps(key.cfg, rows)

\* ---------------------------------------------------------------- one call: what is consumed
\* call: [chunks, trim, discard, fail (chunk the check of which fails, or 0)]
\* cons: rows consumed so far, r: restart index, <<>> or <<t>>.
Sorted(ch) == \A i \in 1..(Len(ch) - 1) : T(ch[i]) <= T(ch[i + 1])
Feed(keys, from, cons, r, call) ==
  LET Take(acc, i) ==
        IF acc.stop THEN acc
        ELSE IF ~Sorted(call.chunks[i]) THEN [acc EXCEPT !.stop = TRUE, !.why = "order"]
        ELSE IF i = call.fail THEN [acc EXCEPT !.stop = TRUE, !.why = "check", !.checked = @ + 1]
        ELSE
          LET ch == acc.rem \o call.chunks[i]
              a == [acc EXCEPT !.checked = @ + 1] IN
          IF ch = <<>> \/ (a.trim /\ LastT(ch) < r[1]) THEN a
          ELSE
            LET kept == IF a.trim THEN SelectSeq(ch, LAMBDA x : T(x) >= r[1]) ELSE ch
                last == LastT(ch)
                main == IF call.discard THEN SelectSeq(kept, LAMBDA x : T(x) < last) ELSE kept
            IN [a EXCEPT !.trim = FALSE,
                         !.rem = IF call.discard THEN SelectSeq(ch, LAMBDA x : T(x) = last) ELSE <<>>,
                         !.cons = @ \o main,
                         !.r = IF \E i2 \in DOMAIN main : PassesOne(keys, from, main[i2]) THEN <<last>> ELSE @]
  IN FoldLeft(Take, [cons |-> cons, r |-> r, rem |-> <<>>, trim |-> (call.trim /\ r # <<>>), stop |-> FALSE,
                     why |-> "", checked |-> 0], [i \in DOMAIN call.chunks |-> i])

\* ---------------------------------------------------------------- state followed along a history
\* rows consumed, restart index, rows given as completed to post-processing,
\* counters kept in buffers, results returned by post-processing: in memory
\* (mem), and as of the last final write (rec).
Side0(keys) == [cons |-> <<>>, r |-> <<>>, from |-> [k \in DOMAIN keys |-> -1], done |-> [k \in DOMAIN keys |-> <<0, 0>>], n |-> [k \in DOMAIN keys |-> 0],
                pn |-> 0, ret |-> [k \in DOMAIN keys |-> <<<<>>, <<>>>>]]
St0(keys) == [mem |-> Side0(keys), rec |-> Side0(keys), touched |-> FALSE, far |-> 0]

Bd(p, name, ok) == IF ok THEN {} ELSE {p \o "." \o name}

\* Calls of the post-processing of key k: cs. A call: [bins, snaps, n, rb, rs].
\* New rows for this key since the last final write?
HasNew(keys, st, f, k) == Len(RowsSince(keys[k], st.mem.from[k], f.cons)) > Len(RowsSince(keys[k], st.mem.from[k], st.rec.cons))
NInter(cs, final) == IF final THEN Len(cs) - 1 ELSE Len(cs)
CountRows(cs, m, what) == FoldLeft(LAMBDA acc, i : acc + Len(IF what = 1 THEN cs[i].bins ELSE cs[i].snaps), 0, [i \in 1..m |-> i])
Done(st, cs, k, isfinal, lenb, lens) ==
  IF isfinal THEN <<lenb - 1, IF lens = 0 THEN 0 ELSE lens - 1>>
  ELSE <<st.mem.done[k][1] + CountRows(cs, Len(cs), 1), st.mem.done[k][2] + CountRows(cs, Len(cs), 2)>>
Concat(cs, what) == FoldLeft(LAMBDA acc, c : acc \o (IF what = 1 THEN c.bins ELSE c.snaps), <<>>, cs)
PostClauses(p, keys, st, f, k, cs, isfinal) ==
  LET rows == RowsSince(keys[k], st.mem.from[k], f.cons)
      b == Bins(keys[k].cfg, rows)
      s == Snaps(keys[k].cfg, rows)
      m == NInter(cs, isfinal)
      d == st.mem.done[k]
      gb == Concat(cs, 1)   gs == Concat(cs, 2)
  IN   Bd(p, "post_calls", isfinal => Len(cs) >= 1)
  \cup Bd(p, "post_bins", IF isfinal THEN gb = From(b, d[1])
                          ELSE (d[1] + Len(gb) <= Len(b) - 1 /\ gb = SubSeq(b, d[1] + 1, d[1] + Len(gb))) \/ gb = <<>>)
  \cup Bd(p, "post_snapshots", IF isfinal THEN gs = From(s, d[2])
                               ELSE (d[2] + Len(gs) <= Len(s) - 1 /\ gs = SubSeq(s, d[2] + 1, d[2] + Len(gs))) \/ gs = <<>>)
  \cup Bd(p, "post_buffer", \A i \in DOMAIN cs : cs[i].n = st.mem.n[k] + i - 1)
\* In progress rows only given at the final write.
InProgress(keys, st, f, k, cs, isfinal) ==
  LET b == Bins(keys[k].cfg, RowsSince(keys[k], st.mem.from[k], f.cons)) IN
  isfinal => (Len(cs) >= 1 /\ cs[Len(cs)].bins # <<>> /\ b # <<>> /\ cs[Len(cs)].bins[Len(cs[Len(cs)].bins)] = b[Len(b)])
Ret(acc, cs) == FoldLeft(LAMBDA a, c : <<Keep(a[1], c.rb), Keep(a[2], c.rs)>>, acc, cs)

RecClauses(p, keys, st, k, ob) ==
  IF st.rec.from[k] < 0 THEN Bd(p, "recorded", ob.ex = 0)
  ELSE IF st.rec.r = <<>> THEN Bd(p, "recorded", ob.ex = 0 \/ ob.r = <<>>)
  ELSE      Bd(p, "recorded", ob.ex = 1)
       \* Rows written by an abandoned run which went further may still be there.
       \cup Bd(p, "bins", Len(st.rec.cons) < st.far \/ ob.bins = IF keys[k].post \in {"none", "keep"} THEN ResBins(keys[k], RowsSince(keys[k], st.rec.from[k], st.rec.cons)) ELSE st.rec.ret[k][1])
       \cup Bd(p, "snapshots", Len(st.rec.cons) < st.far \/ ob.snaps = IF keys[k].post \in {"none", "keep"} THEN ResSnaps(keys[k], RowsSince(keys[k], st.rec.from[k], st.rec.cons)) ELSE st.rec.ret[k][2])
       \cup Bd(p, "restart", ob.r = st.rec.r)
       \cup Bd(p, "buffers", ob.n = st.rec.n[k] /\ ob.pn = st.rec.pn)

\* State once call s is done, and clauses it breaks.
AggStep(p, keys, st, s) ==
  LET f == Feed(keys, st.mem.from, st.mem.cons, st.mem.r, s)
      IsFinal(k) == s.final /\ HasNew(keys, st, f, k)
      Cs(k) == s.obs.posts[k]
      HasPost(k) == keys[k].post # "none" /\ st.mem.from[k] >= 0
      KRows(k) == RowsSince(keys[k], st.mem.from[k], f.cons)
      RecR(k) == IF st.rec.from[k] < 0 THEN <<>> ELSE st.rec.r
      mem == [cons |-> f.cons, r |-> f.r, from |-> st.mem.from,
              done |-> [k \in DOMAIN keys |-> IF HasPost(k) THEN Done(st, Cs(k), k, IsFinal(k),
                                                                     Len(Bins(keys[k].cfg, KRows(k))),
                                                                     Len(Snaps(keys[k].cfg, KRows(k)))) ELSE <<0, 0>>],
              n |-> [k \in DOMAIN keys |-> st.mem.n[k] + Len(Cs(k))],
              pn |-> st.mem.pn + f.checked - (IF f.why = "check" THEN 1 ELSE 0),
              ret |-> [k \in DOMAIN keys |-> Ret(st.mem.ret[k], Cs(k))]]
  IN IF s.obs.exc = "crash"
     THEN [st |-> [st EXCEPT !.mem = st.rec, !.touched = TRUE, !.far = Max2(@, Len(f.cons))],
           bad |-> UNION {Bd(p, "restart", RecR(k) # <<>> => s.obs.rec[k].ex = 1 /\ s.obs.rec[k].r = st.rec.r) : k \in DOMAIN keys}]
     ELSE LET st2 == [mem |-> mem, touched |-> ~s.final, far |-> Max2(st.far, Len(f.cons)),
                      \* Nothing is recorded as long as no row has been aggregated.
                      rec |-> IF s.final /\ mem.r # <<>> THEN mem ELSE st.rec] IN
          [st |-> st2,
           bad |-> Bd(p, "exception", IF f.stop THEN s.obs.exc = "seed" /\ s.obs.msg = (IF f.why = "check" THEN s.msg ELSE "seed data is not in ascending order.")
                                      ELSE s.obs.exc = "")
              \cup Bd(p, "input", s.obs.input = 1)
              \cup Bd(p, "check_buffer", s.obs.pre = [i \in 1..f.checked |-> st.mem.pn + i - 1])
              \cup UNION {(IF HasPost(k) THEN PostClauses(p, keys, st, f, k, Cs(k), IsFinal(k))
                                              \cup Bd(p, "post_in_progress", InProgress(keys, st, f, k, Cs(k), IsFinal(k))) ELSE {}) : k \in DOMAIN keys}
              \cup (IF s.final THEN UNION {RecClauses(p, keys, st2, k, s.obs.rec[k]) : k \in DOMAIN keys}
                    ELSE UNION {Bd(p, "restart", s.obs.rec[k].r = RecR(k)) : k \in DOMAIN keys})]
\* New object, for keys s.act. A key not declared so far gets results of the rows
\* consumed from now on.
NewStep(p, keys, st, s) ==
  LET base == IF st.rec.r = <<>> THEN Side0(keys) ELSE st.rec
      Act(k) == \E i \in DOMAIN s.act : s.act[i] = k IN
  [st |-> [st EXCEPT !.mem = [base EXCEPT !.from = [k \in DOMAIN keys |-> IF ~Act(k) THEN -1 ELSE IF @[k] >= 0 THEN @[k] ELSE Len(base.cons)]]],
   bad |-> Bd(p, "restart_refused", s.exc = "" \/ (st.touched /\ \E k \in DOMAIN keys : Act(k) /\ base.from[k] < 0))]
\* Settings or data which have to be refused (or accepted: "ok"): exception, and
\* whether recorded datasets are the same as before.
RefuseStep(p, st, s) ==
  [st |-> st,
   bad |-> Bd(p, IF s.expect = "ok" THEN "refused" ELSE "accepted", (s.expect = "ok") <=> (s.exc = ""))
      \cup Bd(p, "changed", s.same = 1)]
Step(p, keys, st, s) ==
  CASE s.op = "agg" -> AggStep(p, keys, st, s)
    [] s.op = "new" -> NewStep(p, keys, st, s)
    [] s.op = "refuse" -> RefuseStep(p, st, s)
=============================================================================
