--------------------------- MODULE MCOupsIndexer ---------------------------
(* All keys over small alphabets, for several schemas and separators: keys   *)
(* accepted convert both ways; conversions of different keys differ; and     *)
(* acceptance is tight: dropping any of its conditions breaks one of these.  *)
EXTENDS OupsIndexer
CONSTANTS Big
Seps == {"-", "1", "a", " ", "_"}
Schemas == { << <<"str">> >>, << <<"int">> >>, << <<"str", "int">> >>, << <<"int", "str">> >>, << <<"str">>, <<"str">> >>,
             << <<"str", "str">> >>, << <<"str", "str">>, <<"int">> >>, << <<"str">>, <<"str">>, <<"int">> >> }
Texts(A, n) == UNION {[1..m -> A] : m \in 0..n}
Ints == {<<"0">>, <<"1">>, <<"-", "1">>, <<"1", "0">>}
Strs(sep) == Texts({"a", "1", sep, "/"}, IF Big THEN 2 ELSE 1)
Values(ty, sep) == {[ty |-> ty, s |-> x] : x \in IF ty = "int" THEN Ints ELSE Strs(sep)}
RECURSIVE Prod(_, _)
\* All sequences of values for the types of a level / of levels of a schema.
Prod(sets, i) == IF i > Len(sets) THEN {<<>>} ELSE {<<x>> \o y : x \in sets[i], y \in Prod(sets, i + 1)}
AllKeys(schema, sep) ==
  Prod([l \in DOMAIN schema |-> Prod([i \in DOMAIN schema[l] |-> Values(schema[l][i], sep)], 1)], 1)
VARIABLES schema, sep, key
vars == <<schema, sep, key>>
Init == schema \in Schemas /\ sep \in Seps /\ key = NoKey
Next == /\ key = NoKey /\ key' \in {k \in AllKeys(schema, sep) : Accepts(schema, sep, k)} /\ UNCHANGED <<schema, sep>>
Spec == Init /\ [][Next]_vars
FromPath == key # NoKey => Parse(schema, sep, ToPath(key, sep)) = key
FromStr == key # NoKey => Parse(schema, sep, ToStr(key, sep)) = key
Depth == key # NoKey => Levels(ToPath(key, sep)) = Len(schema)
\* No level is an empty directory name.
NoEmptyDir == key # NoKey => \A l \in DOMAIN schema : LevelText(key[l], sep) # <<>>
Injective == key = NoKey =>
  LET K == {k \in AllKeys(schema, sep) : Accepts(schema, sep, k)} IN
  /\ Cardinality({ToPath(k, sep) : k \in K}) = Cardinality(K)
  /\ Cardinality({ToStr(k, sep) : k \in K}) = Cardinality(K)
\* A key not accepted, of the right shape and types and without dot, really
\* cannot be restored, or has not one directory name per level.
Tight == key = NoKey =>
  \A k \in AllKeys(schema, sep) :
    ~Accepts(schema, sep, k) => \/ Parse(schema, sep, ToPath(k, sep)) # k \/ Levels(ToPath(k, sep)) # Len(schema)
                                \/ \E l \in DOMAIN schema : LevelText(k[l], sep) = <<>>
=============================================================================
