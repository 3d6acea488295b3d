-------------------------- MODULE MCOupsAggStream --------------------------
(***************************************************************************)
(* Streamed aggregation as it proceeds: an aggregator in memory per key,   *)
(* completed rows kept in memory or written early, final writes key by     *)
(* key, metadata waiting to be written, crashes, restarts.                 *)
(* Aim: what is recorded by a final write is what the aggregation at once  *)
(* of the rows consumed gives (oracle of OupsSegAgg), whatever the chunks, *)
(* calls, early writes, failing checks, crashes, restarts and interleaving *)
(* of final writes.                                                        *)
(***************************************************************************)
EXTENDS OupsAggStream, Json
CONSTANTS Scenarios, MaxCalls, MaxCrash, MaxFail, MaxChunk, MaxNew, Generate

Row(t, a, c) == <<t, a, 10 * a, c, c % 2>>
SeedA == <<Row(0, 1, 0), Row(1, 2, 1), Row(1, 3, 0), Row(4, 5, 1)>>
SeedB == <<Row(0, 4, 1), Row(0, 2, 0), Row(2, 7, 0), Row(3, 1, 1), Row(3, 6, 0)>>
SeedC == <<Row(1, 3, 0), Row(2, 1, 0), Row(3, 5, 1), Row(4, 2, 0), Row(7, 8, 1)>>
Aggs == <<<<"first", 2>>, <<"sum", 2>>, <<"max", 3>>>>
Cfg(kind, f, closed, label, snap, g, slabel) ==
  [kind |-> kind, f |-> f, closed |-> closed, label |-> label, org |-> 0, snap |-> snap, g |-> g, slabel |-> slabel, sorg |-> 0,
   pts |-> <<>>, aggs |-> Aggs]
Key(cfg, filt, res) == [cfg |-> cfg, filt |-> filt, res |-> res, post |-> "keep"]
Only(c) == <<<<<<4, "==", <<c>>>>>>>>
KP == Key(Cfg("period", 2, "left", "left", "none", 1, "left"), <<>>, "bins")
KF == Key(Cfg("period", 3, "right", "left", "none", 1, "left"), Only(0), "bins")
KR == Key(Cfg("rows", 2, "left", "left", "none", 1, "left"), <<>>, "bins")
KB == Key(Cfg("period", 2, "left", "right", "period", 1, "right"), <<>>, "both")
KS == Key(Cfg("rows", 2, "left", "left", "period", 2, "left"), <<>>, "snaps")
KC == Key(Cfg("period", 3, "right", "right", "period", 2, "right"), Only(1), "both")
Sc(seed, keys, trim) == [seed |-> seed, keys |-> keys, trim |-> trim, late |-> {}]
\* Last key declared later.
Late(seed, keys, trim) == [seed |-> seed, keys |-> keys, trim |-> trim, late |-> {Len(keys)}]
QuickScenarios == {Sc(SeedA, <<KP>>, FALSE), Sc(SeedA, <<KB>>, TRUE), Sc(SeedB, <<KF, KP>>, TRUE), Sc(SeedC, <<KC, KS>>, FALSE),
                   Sc(SeedC, <<KR, KC>>, TRUE), Late(SeedC, <<KP, KF>>, TRUE)}
AllScenarios == {Sc(s, k, m) : s \in {SeedA, SeedB, SeedC}, k \in {<<KP>>, <<KF>>, <<KB>>, <<KC>>, <<KF, KP>>, <<KB, KC>>, <<KR, KF>>}, m \in BOOLEAN}
                \cup {Sc(SeedC, k, m) : k \in {<<KS>>, <<KC, KS>>, <<KR, KC, KP>>}, m \in BOOLEAN}
                \cup {Late(SeedC, k, m) : k \in {<<KP, KF>>, <<KC, KB>>, <<KR, KS>>, <<KF, KP, KC>>}, m \in BOOLEAN}

VARIABLES sc, mem, store, pend, phase, call, fstate, count, hist
vars == <<sc, mem, store, pend, phase, call, fstate, count, hist>>
KS_ == DOMAIN sc.keys
NoRes == [on |-> FALSE, bins |-> <<>>, snaps |-> <<>>]
Mem0(keys, act) == [from |-> [k \in DOMAIN keys |-> IF k \in act THEN 0 ELSE -1], cons |-> <<>>, r |-> <<>>, pos |-> 0, buf |-> [k \in DOMAIN keys |-> Buf0(keys[k].cfg)],
               kept |-> [k \in DOMAIN keys |-> <<<<>>, <<>>>>], last |-> [k \in DOMAIN keys |-> NoRes],
               done |-> [k \in DOMAIN keys |-> <<0, 0>>]]
Store0(keys) == [k \in DOMAIN keys |-> [ex |-> FALSE, bins |-> <<>>, snaps |-> <<>>, md |-> <<>>]]
Call0 == [from |-> 0, to |-> 0, at |-> 0, rem |-> <<>>, trim |-> FALSE, r0 |-> <<>>, chunks |-> <<>>, fail |-> 0, order |-> <<>>]
Init == \E s \in Scenarios : /\ sc = s
                             /\ mem = Mem0(s.keys, DOMAIN s.keys \ s.late) /\ store = Store0(s.keys)
                             /\ pend = [k \in DOMAIN s.keys |-> <<>>]
                             /\ phase = "idle" /\ call = Call0
                             /\ fstate = [k \in DOMAIN s.keys |-> 0]
                             /\ count = [calls |-> 0, crash |-> 0, fail |-> 0, new |-> 0, clean |-> TRUE, far |-> 0, act |-> DOMAIN s.keys \ s.late,
                                          from |-> [k \in DOMAIN s.keys |-> 0]]
                             /\ hist = <<>>
Butl(s) == IF s = <<>> THEN <<>> ELSE SubSeq(s, 1, Len(s) - 1)

\* ------------------------------------------------------------ a call
Begin ==
  /\ phase = "idle" /\ count.calls < MaxCalls
  /\ \E from \in 1..Len(sc.seed), to \in 1..Len(sc.seed) :
       /\ from <= to
       /\ IF sc.trim
          THEN \* rows provided again, up to the restart index
               \A i \in 1..(from - 1) : mem.r # <<>> /\ T(sc.seed[i]) < mem.r[1]
          ELSE from = mem.pos + 1
       /\ call' = [Call0 EXCEPT !.from = from, !.to = to, !.at = from, !.trim = (sc.trim /\ mem.r # <<>>), !.r0 = mem.r]
  /\ phase' = "iter" /\ count' = [count EXCEPT !.calls = @ + 1]
  /\ UNCHANGED <<sc, mem, store, pend, fstate, hist>>

\* Early write, without metadata, of completed rows of key k.
Flushed(s, k) == [s EXCEPT ![k].ex = TRUE, ![k].bins = Keep(@, mem.kept[k][1] \o Butl(mem.last[k].bins)),
                           ![k].snaps = Keep(@, mem.kept[k][2] \o Butl(mem.last[k].snaps))]
Chunk_ ==
  /\ phase = "iter" /\ call.at <= call.to
  /\ \E n \in 1..MaxChunk, flush \in SUBSET KS_ :
       /\ call.at + n - 1 <= call.to
       /\ LET rows == SubSeq(sc.seed, call.at, call.at + n - 1)
              c == [chunks |-> <<rows>>, trim |-> FALSE, discard |-> sc.trim, fail |-> 0]
              ch == call.rem \o rows
              last == LastT(ch)
              c2 == [call EXCEPT !.at = @ + n, !.chunks = Append(@, rows)]
          IN IF call.trim /\ last < call.r0[1]
             THEN flush = {} /\ call' = c2 /\ UNCHANGED <<mem, store, count>>
             ELSE LET kept == IF call.trim THEN SelectSeq(ch, LAMBDA x : T(x) >= call.r0[1]) ELSE ch
                      main == IF sc.trim THEN SelectSeq(kept, LAMBDA x : T(x) < last) ELSE kept
                      Mine(k) == RowsSince(sc.keys[k], IF mem.from[k] < 0 THEN -1 ELSE 0, main)
                      res == [k \in KS_ |-> IF Mine(k) = <<>> THEN [buf |-> mem.buf[k], bins |-> <<>>, snaps |-> <<>>]
                                            ELSE Chunk(sc.keys[k].cfg, mem.buf[k], Mine(k))]
                      CanFlush(k) == Mine(k) # <<>> /\ mem.last[k].on
                      Completed(k) == <<mem.kept[k][1] \o Butl(mem.last[k].bins), mem.kept[k][2] \o Butl(mem.last[k].snaps)>>
                  IN /\ flush \subseteq {k \in KS_ : CanFlush(k)}
                     /\ call' = [c2 EXCEPT !.trim = FALSE, !.rem = IF sc.trim THEN SelectSeq(ch, LAMBDA x : T(x) = last) ELSE <<>>]
                     /\ store' = FoldLeft(LAMBDA s, k : IF k \in flush THEN Flushed(s, k) ELSE s, store, [k \in KS_ |-> k])
                     /\ mem' = [mem EXCEPT
                          !.cons = @ \o main,
                          !.pos = IF sc.trim THEN @ ELSE @ + n,
                          !.r = IF \E i \in DOMAIN main : PassesOne(sc.keys, mem.from, main[i]) THEN <<last>> ELSE @,
                          !.buf = [k \in KS_ |-> res[k].buf],
                          !.kept = [k \in KS_ |-> IF k \in flush THEN <<<<>>, <<>>>> ELSE IF CanFlush(k) THEN Completed(k) ELSE @[k]],
                          !.done = [k \in KS_ |-> IF k \in flush THEN <<@[k][1] + Len(Completed(k)[1]), @[k][2] + Len(Completed(k)[2])>> ELSE @[k]],
                          !.last = [k \in KS_ |-> IF Mine(k) = <<>> THEN @[k] ELSE [on |-> TRUE, bins |-> res[k].bins, snaps |-> res[k].snaps]]]
                     /\ count' = [count EXCEPT !.clean = @ /\ flush = {}, !.far = IF flush = {} THEN @ ELSE Max2(@, Len(mem.cons))]
  /\ UNCHANGED <<sc, pend, phase, fstate, hist>>

\* End of chunks, or failing check of the next one.
Step_(final, fail, crash) ==
  [op |-> "agg", chunks |-> call'.chunks, trim |-> sc.trim, discard |-> sc.trim, final |-> final, fail |-> fail, crash |-> crash, order |-> <<>>]
EndIter ==
  /\ phase = "iter"
  /\ \/ /\ call.at > call.to /\ UNCHANGED <<call, count>>
     \/ /\ call.at <= call.to /\ count.fail < MaxFail
        /\ call' = [call EXCEPT !.chunks = Append(@, SubSeq(sc.seed, call.at, call.at)), !.fail = Len(call.chunks) + 1]
        /\ count' = [count EXCEPT !.fail = @ + 1]
  /\ \/ phase' = "final" /\ hist' = hist
     \/ phase' = "idle" /\ hist' = IF Generate THEN Append(hist, Step_(FALSE, call'.fail, <<>>)) ELSE hist
  /\ fstate' = [k \in KS_ |-> 0]
  /\ UNCHANGED <<sc, mem, store, pend>>

\* ------------------------------------------------------------ final writes, key by key
Meta(k) == [r |-> mem.r, from |-> mem.from[k], cons |-> mem.cons, pos |-> mem.pos, buf |-> mem.buf[k], done |-> mem.done[k]]
DoneAll(k) == [mem EXCEPT !.kept[k] = <<<<>>, <<>>>>, !.last[k] = NoRes,
                          !.done[k] = <<@[1] + Len(mem.kept[k][1]) + Len(Butl(mem.last[k].bins)),
                                        @[2] + Len(mem.kept[k][2]) + Len(Butl(mem.last[k].snaps))>>]
\* Metadata is set aside, waiting for the write of the key.
SetPending(k) ==
  /\ fstate[k] = 0
  /\ pend' = [pend EXCEPT ![k] = IF mem.r = <<>> \/ mem.from[k] < 0 THEN <<>>
                                 ELSE <<[Meta(k) EXCEPT !.done = IF mem.last[k].on THEN DoneAll(k).done[k] ELSE mem.done[k]]>>]
  /\ fstate' = [fstate EXCEPT ![k] = 1]
  /\ UNCHANGED <<mem, store>>
WriteSnaps(k) ==
  /\ fstate[k] = 1
  /\ store' = IF mem.last[k].on THEN [store EXCEPT ![k].snaps = Keep(@, mem.kept[k][2] \o mem.last[k].snaps)] ELSE store
  /\ fstate' = [fstate EXCEPT ![k] = 2]
  /\ UNCHANGED <<mem, pend>>
\* Rows, and metadata waiting for this key.
WriteMain(k) ==
  /\ fstate[k] = 2
  /\ store' = [store EXCEPT ![k].ex = @ \/ mem.last[k].on \/ pend[k] # <<>>,
                            ![k].bins = IF mem.last[k].on THEN Keep(@, mem.kept[k][1] \o mem.last[k].bins) ELSE @,
                            ![k].md = IF pend[k] # <<>> THEN pend[k] ELSE @]
  /\ pend' = [pend EXCEPT ![k] = <<>>]
  /\ fstate' = [fstate EXCEPT ![k] = 3]
  /\ mem' = IF mem.last[k].on THEN DoneAll(k) ELSE mem
Final ==
  /\ phase = "final"
  /\ \/ \E k \in KS_ : (SetPending(k) \/ WriteSnaps(k) \/ WriteMain(k))
                     /\ call' = (IF Generate THEN [call EXCEPT !.order = Append(@, k)] ELSE call)
                     /\ count' = [count EXCEPT !.clean = FALSE, !.far = Max2(@, Len(mem.cons))] /\ UNCHANGED <<phase, hist>>
     \/ /\ \A k \in KS_ : fstate[k] = 3
        /\ phase' = "idle" /\ UNCHANGED <<mem, store, pend, fstate>>
        /\ count' = [count EXCEPT !.clean = TRUE]
        /\ hist' = (IF Generate THEN Append(hist, [op |-> "agg", chunks |-> call.chunks, trim |-> sc.trim, discard |-> sc.trim, final |-> TRUE,
                                                   fail |-> call.fail, crash |-> <<>>, order |-> call.order]) ELSE hist)
        /\ UNCHANGED call
  /\ UNCHANGED sc

\* ------------------------------------------------------------ crash, restart
NKeys == Cardinality(KS_)
Crash ==
  /\ phase \in {"iter", "final"} /\ count.crash < MaxCrash
  /\ ~(phase = "final" /\ \A k \in KS_ : fstate[k] = 3)
  \* Several keys are known not to be at the same point by their restart indices. Without
  \* trimming, these can be the same at different points (rows sharing an ordering value).
  /\ phase = "final" => (sc.trim \/ NKeys = 1)
  /\ Generate => (sc.trim /\ (phase = "final" => NKeys = 1 /\ fstate[1] \in {1, 2} /\ mem.last[1].on) /\ (phase = "iter" => call.at <= call.to))
  /\ phase' = "dead" /\ count' = [count EXCEPT !.crash = @ + 1]
  /\ mem' = Mem0(sc.keys, {}) /\ pend' = [k \in KS_ |-> <<>>]
  /\ hist' = IF ~Generate THEN hist
             ELSE LET nx == SubSeq(sc.seed, call.at, call.at) IN
                  Append(hist, [op |-> "agg",
                                chunks |-> IF phase = "iter" THEN Append(call.chunks, nx) ELSE call.chunks,
                                trim |-> sc.trim, discard |-> sc.trim, final |-> TRUE, fail |-> call.fail,
                                crash |-> IF phase = "iter" THEN <<"pre", Len(call.chunks) + 1>>
                                          ELSE <<"final", IF sc.keys[1].res = "both" THEN fstate[1] ELSE 1>>,
                                order |-> <<>>])
  /\ UNCHANGED <<sc, store, call, fstate>>
New ==
  /\ phase \in {"idle", "dead"} /\ count.new < MaxNew
  /\ hist # <<>> \/ ~Generate
  /\ \E join \in {{}, sc.late \ count.act} :
     LET ex == {k \in KS_ : store[k].ex}
         act == count.act \cup join
         any == store[CHOOSE k \in ex : TRUE].md[1] IN
     /\ IF (\E k \in ex : store[k].md = <<>>) \/ (\E j, k \in ex : store[j].md[1].r # store[k].md[1].r)
        THEN phase' = "refused" /\ UNCHANGED mem
        \* First final write interrupted between two keys: the code goes on with the
        \* restart index of one, and without the first rows for the other (see
        \* DESIGN.md, limits). Out of the properties.
        ELSE IF ex # {} /\ (\E k \in count.act \ ex : Len(any.cons) > count.from[k]) THEN phase' = "partial" /\ UNCHANGED mem
        ELSE /\ phase' = "idle"
             /\ mem' = IF ex = {} THEN Mem0(sc.keys, act)
                       ELSE [Mem0(sc.keys, act) EXCEPT
                                                  !.from = [k \in KS_ |-> IF k \in ex THEN store[k].md[1].from ELSE IF k \in act THEN Len(any.cons) ELSE -1],
                                                  !.r = any.r, !.pos = any.pos, !.cons = any.cons,
                                                  !.buf = [k \in KS_ |-> IF k \in ex THEN store[k].md[1].buf ELSE @[k]],
                                                  !.done = [k \in KS_ |-> IF k \in ex THEN store[k].md[1].done ELSE @[k]]]
     /\ count' = [count EXCEPT !.new = @ + 1, !.act = act,
                               !.from = [k \in KS_ |-> IF k \in act \ ex /\ ex # {} /\ (\A j \in ex : store[j].md # <<>>) THEN Len(any.cons) ELSE @[k]]]
     /\ hist' = IF Generate THEN Append(hist, [op |-> "new", act |-> act]) ELSE hist
  /\ UNCHANGED <<sc, store, pend, call, fstate>>
Next == Begin \/ Chunk_ \/ EndIter \/ Final \/ Crash \/ New
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
\* Rows which have to be accounted for.
Due(r) == IF sc.trim THEN SelectSeq(sc.seed, LAMBDA x : T(x) < r) ELSE <<>>
AtRest == phase = "idle" /\ (\A k \in KS_ : ~mem.last[k].on)
KeyRecorded(k, rows) == /\ (sc.keys[k].res \in {"bins", "both"} => store[k].bins = ResBins(sc.keys[k], rows))
                        /\ (sc.keys[k].res \in {"snaps", "both"} => store[k].snaps = ResSnaps(sc.keys[k], rows))
\* C14, C16, C17, C18, C19, C20: recorded results, once the last run went as far as abandoned ones.
Recorded == AtRest /\ count.clean /\ Len(mem.cons) >= count.far => \A k \in KS_ : store[k].md # <<>> /\ store[k].md[1].r = mem.r => KeyRecorded(k, RowsSince(sc.keys[k], store[k].md[1].from, store[k].md[1].cons))
\* Same restart index for all, without any mix-up between keys.
SameRestart == AtRest /\ mem.r # <<>> => \A k \in {j \in KS_ : mem.from[j] >= 0} : \/ (store[k].md = <<>> /\ Len(mem.cons) = mem.from[k])
    \/ (store[k].md # <<>> /\ store[k].md[1].r = mem.r /\ store[k].md[1].buf = mem.buf[k])
\* C15: each row counts once, those sharing the last ordering value later.
EachRowOnce == AtRest /\ mem.r # <<>> =>
  /\ sc.trim => \A k \in {j \in KS_ : mem.from[j] = 0} : RowsOf(sc.keys[k], mem.cons) = RowsOf(sc.keys[k], Due(mem.r[1]))
  /\ ~sc.trim => mem.cons = SubSeq(sc.seed, 1, mem.pos)
\* C18: rows given to post-processing, once each, as completed.
PostOnce == \A k \in KS_ : mem.last[k].on =>
  LET rows == RowsSince(sc.keys[k], mem.from[k], mem.cons)
      b == Bins(sc.keys[k].cfg, rows)
      s == Snaps(sc.keys[k].cfg, rows) IN
  /\ mem.kept[k][1] \o mem.last[k].bins = From(b, mem.done[k][1])
  /\ mem.kept[k][2] \o mem.last[k].snaps = From(s, mem.done[k][2])
\* C19: refused only if nothing has been recorded, or if keys are not at the same point.
RefusedRightly == phase = "refused" => /\ count.crash > 0 \/ \E k \in KS_ : store[k].md = <<>>
                                       /\ NKeys = 1 => store[1].md = <<>>
Emit == (Generate /\ Len(hist) >= 3 /\ (phase = "refused" \/ AtRest)) =>
          PrintT(<<"HIST", ToJson([seed |-> sc.seed, keys |-> sc.keys, act |-> DOMAIN sc.keys \ sc.late, steps |-> hist])>>)
=============================================================================
