--------------------------- MODULE MCOupsSettings ---------------------------
(***************************************************************************)
(* Histories of aggregations of keys, together or apart, then creations.   *)
(***************************************************************************)
EXTENDS OupsSettings, Json, TLC
CONSTANTS MaxTo, MaxSteps, Generate
VARIABLES st, last, hist
vars == <<st, last, hist>>
Keys == 1..4
K0(m) == [main |-> m, snap |-> 0, binby |-> "period", bkey |-> "t", bon |-> "", bout |-> "", closed |-> "left", snapby |-> 0, skey |-> "",
          sclosed |-> "left", outs |-> <<"v">>, unknown |-> 0]
\* With a key for snapshots.
KS(m, sn) == [K0(m) EXCEPT !.snap = sn, !.snapby = 1]
One(k) == [form |-> "one", given |-> 0, filters |-> <<>>, unknown |-> 0, groups |-> <<[id |-> NoFilter, keys |-> <<k>>]>>]
Dict(ks) == [One(ks[1]) EXCEPT !.form = "dict", !.groups = <<[id |-> NoFilter, keys |-> ks]>>]
SetToKeys(S) == LET q == SetToSortSeq(S, <) IN [i \in DOMAIN q |-> K0(q[i])]

\* ---------------------------------------------------------------- settings of a key
KeySettings ==
  {[main |-> 1, snap |-> 0, binby |-> bb, bkey |-> bk, bon |-> bo, bout |-> bt, closed |-> "left", snapby |-> sn[1], skey |-> sn[2],
    sclosed |-> sn[3], outs |-> outs, unknown |-> u] :
     bb \in {"period", "callable", "other", "missing"}, bk \in {"", "t", "x"}, bo \in {"", "t", "x"}, bt \in {"", "o"},
     sn \in {<<0, "", "left">>, <<1, "", "left">>, <<1, "t", "left">>, <<1, "x", "left">>, <<1, "t", "right">>},
     outs \in {<<"v">>, <<"v", "t">>, <<"o", "v">>, <<"x">>, <<>>}, u \in {0, 1}}
UsefulKeys == {k \in KeySettings : (k.bout # "" => k.bon # "") /\ (k.binby # "period" => k.bkey = "")}
KeyCreates == {[One(k) EXCEPT !.form = f, !.unknown = u] : k \in UsefulKeys, f \in {"one", "dict"}, u \in {0, 1}}
UsefulKeyCreates == {s \in KeyCreates : /\ s.form = "one" => s.groups[1].keys[1].unknown = 0
                                        /\ s.unknown = 1 => KeyOk(s.groups[1].keys[1])}

\* ---------------------------------------------------------------- settings of filters
FilterSets == {<<>>} \cup {<<[id |-> i, none |-> 0]>> : i \in {"f", "g", "_"}} \cup {<<[id |-> "_", none |-> 1]>>}
              \cup {<<[id |-> "f", none |-> 0], [id |-> j[1], none |-> j[2]]>> : j \in {<<"g", 0>>, <<"_", 0>>, <<"_", 1>>}}
GroupSets == {<<[id |-> a, keys |-> ka]>> : a \in {"f", "_"}, ka \in {<<K0(2)>>, <<K0(2), KS(3, 4)>>}}
        \cup {<<[id |-> a[1], keys |-> ka], [id |-> a[2], keys |-> kb]>> :
                a \in {<<"f", "g">>, <<"f", "_">>, <<"_", "g">>},
                ka \in {<<K0(2)>>, <<KS(2, 3), K0(1)>>}, kb \in {<<K0(3)>>, <<K0(2)>>, <<KS(2, 4)>>, <<KS(3, 3)>>, <<KS(4, 3), K0(3)>>}}
FilterCreates == {[form |-> "filters", given |-> gv, filters |-> fs, unknown |-> 0, groups |-> gs] : gv \in {0, 1}, fs \in FilterSets, gs \in GroupSets}
            \cup {[One(K0(1)) EXCEPT !.given = 1, !.filters = fs, !.form = f] : fs \in FilterSets, f \in {"one", "dict"}}
            \cup {Dict(ks) : ks \in {<<K0(1), KS(2, 1)>>, <<KS(1, 2), K0(1)>>, <<KS(1, 2), KS(3, 2)>>, <<K0(1), K0(2), KS(3, 4)>>, <<KS(1, 2), K0(3)>>}}
UsefulFilterCreates == {s \in FilterCreates : s.given = 0 => s.filters = <<>>}

\* ---------------------------------------------------------------- histories
Init == st = [k \in Keys |-> None] /\ last = [ok |-> TRUE, ks |-> {}] /\ hist = <<>>
Log(e) == hist' = IF Generate THEN Append(hist, e) ELSE hist
Short == Len(hist) < MaxSteps
Run == \E S \in SUBSET Keys \ {{}}, to \in 0..MaxTo :
         LET s == Dict(SetToKeys(S))
             ok == Acceptable(st, s) IN
         /\ st' = (IF ok THEN AfterRun(st, s, to) ELSE st)
         /\ last' = [ok |-> ok, ks |-> S]
         /\ Log([op |-> "run", s |-> s, to |-> to])
Other == last' = [ok |-> TRUE, ks |-> {}]
Write == \E k \in Keys : st[k].kind = "none" /\ st' = [st EXCEPT ![k] = Plain] /\ Log([op |-> "plain", key |-> k]) /\ Other
Delete == \E k \in Keys : st[k].kind # "none" /\ st' = [st EXCEPT ![k] = None] /\ Log([op |-> "del", key |-> k]) /\ Other
Next == Short /\ (Run \/ Write \/ Delete)
Spec == Init /\ [][Next]_vars

\* Keys which have been aggregated together are at the same point, and can go on together.
SamePoint == (last.ok /\ last.ks # {}) => /\ \A j, k \in last.ks : st[j] = st[k]
                                         /\ Acceptable(st, Dict(SetToKeys(last.ks)))
\* The point from which restarting never goes backward.
Forward == [][\A k \in Keys : st[k].kind = "agg" /\ st'[k].kind = "agg" => st'[k].r[1] >= st[k].r[1]]_vars
RefusedUnchanged == [][~last'.ok => st' = st]_vars
\* Settings: what is refused has a reason, and there are acceptable ones in each form.
SettingsSound == LET st0 == [k \in Keys |-> None] IN
  /\ \A f \in {"one", "dict"} : \E s \in UsefulKeyCreates : s.form = f /\ Acceptable(st0, s)
  /\ \E s \in UsefulFilterCreates : s.form = "filters" /\ Acceptable(st0, s)
  /\ \A s \in UsefulFilterCreates : Acceptable(st0, s) => \A k \in Keys : Cardinality({i \in DOMAIN AllKeys(s) : AllKeys(s)[i].main = k}) <= 1
ASSUME SettingsSound
ASSUME Generate => PrintT(<<"KEYS", ToJson(UsefulKeyCreates)>>) /\ PrintT(<<"FILTERS", ToJson(UsefulFilterCreates)>>)
Emit == (Generate /\ Len(hist) = MaxSteps) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
