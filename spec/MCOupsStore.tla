---------------------------- MODULE MCOupsStore ----------------------------
(***************************************************************************)
(* Exhaustive exploration of histories of writes to one dataset, and       *)
(* generator (TLC -simulate) of histories replayed on the real code.       *)
(***************************************************************************)
EXTENDS OupsStore, Json, IOUtils, Randomization
CONSTANTS Values,      \* values of the ordering column: 0..Values
          DVals,       \* values of second column: 0..DVals
          MaxLen,      \* rows per write
          Depth,       \* number of writes
          Sizes,       \* set of max row group sizes
          NIrgs,       \* set of max number of incomplete row groups (besides -1, not set)
          Dups,        \* set of duplicate settings
          OrdModes,    \* subset of {"always", "never", "mixed"}
          Gen          \* TRUE when generating histories
VARIABLES rgs,     \* dataset
          cfg,     \* settings fixed for the history
          all,     \* ghost: all rows written, in order of writing
          hist,    \* ghost: writes
          bad      \* clauses broken by the last transition
vars == <<rgs, cfg, all, hist, bad>>

SortedSeqs(n) == {s \in [1..n -> 0..Values] : \A i \in 1..(n-1) : s[i] <= s[i+1]}
\* rows: second column derived from position and step so that both equal and
\* different values occur for equal ordering values; payload unique.
MkRows(s, step, dmode) ==
  [i \in DOMAIN s |-> <<s[i],
                       CASE dmode = 0 -> 0 [] dmode = 1 -> i % (DVals + 1) [] dmode = 2 -> (i + step) % (DVals + 1),
                       IF cfg.dup = "all" THEN (i + dmode) % 2 ELSE 100 * step + i>>]

Init == /\ rgs = <<>> /\ all = <<>> /\ hist = <<>> /\ bad = {}
        /\ cfg \in [dup : Dups, ordm : OrdModes, max : Sizes]

Step(w) ==
  /\ rgs' = Write(rgs, w)
  /\ all' = all \o w.data
  /\ hist' = Append(hist, w)
  /\ bad' = IF Gen THEN {} ELSE StoreClauses(rgs, w, rgs')
  /\ UNCHANGED cfg

\* Random writes (generation of histories).
RandomWrite(n) ==
  LET ord == IF cfg.ordm = "always" THEN TRUE
             ELSE IF cfg.ordm = "never" \/ ~Ascending(Flat(rgs)) THEN FALSE ELSE (Len(hist) % 2 = 0)
  IN [data |-> MkRows(IF n = 0 THEN <<>> ELSE RandomElement(SortedSeqs(n)), Len(hist) + 1, RandomElement({1, 2})),
      max |-> IF RandomElement(1..4) = 1 THEN RandomElement(Sizes) ELSE cfg.max,
      ord |-> ord, dup |-> IF ord THEN cfg.dup ELSE "none", nirgs |-> RandomElement(NIrgs \cup {-1})]

DoWrite ==
  \E n \in 1..MaxLen, nirgs \in NIrgs \cup {-1}, dmode \in (IF cfg.dup \in {"none", "o"} THEN {0} ELSE {1, 2}) :
    \E ord \in (IF cfg.ordm = "always" THEN {TRUE} ELSE IF cfg.ordm = "never" \/ ~Ascending(Flat(rgs)) THEN {FALSE} ELSE BOOLEAN) :
      \E s \in SortedSeqs(n) :
        Step([data |-> MkRows(s, Len(hist) + 1, dmode), max |-> cfg.max, ord |-> ord,
              dup |-> IF ord THEN cfg.dup ELSE "none", nirgs |-> nirgs])
Empty == \E nirgs \in NIrgs \cup {-1} : /\ rgs # <<>>
            /\ Step([data |-> <<>>, max |-> cfg.max, ord |-> cfg.ordm = "always", dup |-> "none", nirgs |-> nirgs])
GenStep == \E n \in {RandomElement(0..MaxLen)} : \E w \in {RandomWrite(n)} :   \* (bound once: RandomElement gives a new value at each evaluation)
             IF rgs = <<>> /\ w.data = <<>> THEN UNCHANGED <<rgs, cfg, all, bad>> /\ hist' = hist ELSE Step(w)
Next == Len(hist) < Depth /\ (IF Gen THEN GenStep ELSE (DoWrite \/ Empty))
Spec == Init /\ [][Next]_vars

\* The clauses, on each transition.
NoBad == bad = {}
\* The same, on histories (C01, C02): no reference to a single transition.
HistRows == cfg.dup = "none" => SameBag(Flat(rgs), all)
HistOrder == (cfg.ordm = "always") =>
   /\ Ascending(Flat(rgs))
   /\ cfg.dup = "none" => Flat(rgs) = StableSort(all)
   /\ cfg.dup # "none" => IsSubSeqOf(Flat(rgs), StableSort(all))
\* With duplicates dropped, the last written row of each key is present.
HistDup == (cfg.ordm = "always" /\ cfg.dup # "none") =>
   \A i \in DOMAIN all :
     (\A j \in (i+1)..Len(all) : DupKey(cfg.dup, all[j]) # DupKey(cfg.dup, all[i]))
        => \E k \in DOMAIN Flat(rgs) : Flat(rgs)[k] = all[i]
\* Row groups never empty.
NoEmptyRg == \A i \in DOMAIN rgs : rgs[i] # <<>>

Emit == (Gen /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
