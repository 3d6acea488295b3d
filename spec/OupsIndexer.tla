---------------------------- MODULE OupsIndexer ----------------------------
(***************************************************************************)
(* Keys, their path and their string.                                      *)
(*                                                                         *)
(*  schema : sequence of levels, level: sequence of "int" | "str"          *)
(*  sep    : fields separator, a character                                 *)
(*  key    : sequence of levels, level: sequence of [ty, s], s: sequence   *)
(*           of characters, the value as a text                            *)
(*  text   : sequence of characters                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

DirSep == "/"
Forbidden(sep) == {sep, DirSep, "."}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

\* ---------------------------------------------------------- acceptance
SameShape(schema, key) == /\ Len(key) = Len(schema)
                          /\ \A l \in DOMAIN schema : Len(key[l]) = Len(schema[l])
Accepts(schema, sep, key) ==
  /\ SameShape(schema, key)
  /\ \A l \in DOMAIN schema : \A i \in DOMAIN schema[l] :
       /\ key[l][i].ty = schema[l][i]
       /\ \A c \in DOMAIN key[l][i].s : key[l][i].s[c] \notin Forbidden(sep)
  /\ \A l \in DOMAIN schema : Len(schema[l]) = 1 => key[l][1].s # <<>>

\* ---------------------------------------------------------- to text
RECURSIVE Join(_, _)
Join(parts, s) == IF Len(parts) = 0 THEN <<>> ELSE IF Len(parts) = 1 THEN parts[1]
                  ELSE parts[1] \o s \o Join(Tail(parts), s)
LevelText(level, sep) == Join([i \in DOMAIN level |-> level[i].s], <<sep>>)
ToText(key, sep, levelsep) == Join([l \in DOMAIN key |-> LevelText(key[l], sep)], <<levelsep>>)
ToPath(key, sep) == ToText(key, sep, DirSep)
ToStr(key, sep) == ToText(key, sep, sep)

\* ---------------------------------------------------------- from text
Split(text, seps) ==
  LET S == FoldLeft(LAMBDA acc, c : IF c \in seps THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>]
                                    ELSE [acc EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], text)
  IN Append(S.done, S.cur)
NFields(schema) == FoldLeft(LAMBDA acc, l : acc + Len(l), 0, schema)
IsInt(s) == /\ s # <<>>
            /\ IF s[1] = "-" THEN Len(s) > 1 /\ \A i \in 2..Len(s) : s[i] \in Digits
               ELSE \A i \in DOMAIN s : s[i] \in Digits
\* Sequence of fields organized as per schema.
Start(schema, l) == FoldLeft(LAMBDA acc, x : acc + Len(x), 0, SubSeq(schema, 1, l - 1))
NoKey == <<>>
Parse(schema, sep, text) ==
  LET f == Split(text, {sep, DirSep}) IN
  IF Len(f) # NFields(schema) THEN NoKey
  ELSE LET key == [l \in DOMAIN schema |-> [i \in DOMAIN schema[l] |-> [ty |-> schema[l][i], s |-> f[Start(schema, l) + i]]]] IN
       IF \E l \in DOMAIN key : \E i \in DOMAIN key[l] : key[l][i].ty = "int" /\ ~IsInt(key[l][i].s) THEN NoKey ELSE key
Levels(text) == Cardinality({i \in DOMAIN text : text[i] = DirSep}) + 1

Bad(name, ok) == IF ok THEN {} ELSE {name}
\* ---------------------------------------------------------- clauses
\* ob: ok (accepted), path, str, path_back, str_back (keys), pickled, same (1 if
\* restored keys are equal to the key for the language), depth
MakeClauses(schema, sep, key, ob) ==
  IF ~Accepts(schema, sep, key) THEN Bad("C10.not_rejected", ob.ok = 0)
  ELSE IF ob.ok = 0 THEN {"C10.refused"}
  ELSE      Bad("C10.path", ob.path = ToPath(key, sep))
       \cup Bad("C10.string", ob.str = ToStr(key, sep))
       \cup Bad("C10.path_levels", Levels(ob.path) = Len(schema) /\ ob.depth = Len(schema))
       \cup Bad("C10.from_path", ob.path_back = key)
       \cup Bad("C10.from_string", ob.str_back = key)
       \cup Bad("C10.pickle", ob.pickled = key)
       \cup Bad("C10.equal", ob.same = 1)
\* Two keys: earlier one (k1, ob1) and this one.
PairClauses(k1, ob1, k2, ob2) ==
  IF k1 = k2 THEN Bad("C10.equal", ob1.path = ob2.path /\ ob1.str = ob2.str)
  ELSE Bad("C10.path_shared", ob1.path # ob2.path) \cup Bad("C10.string_shared", ob1.str # ob2.str)
\* Two keys: order of their values, field after field, level after level.
\* Value: sequence of integers (high and low parts of an integer, or code points of a text).
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))
RECURSIVE BeforeKey(_, _)
BeforeKey(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN Before(a[1], b[1]) ELSE BeforeKey(Tail(a), Tail(b))
\* ob: lt, le, gt, ge, eq, ne, hash (1 if hashes are equal), min (first of the two), frozen
OrderClauses(a, b, ob) ==
  LET lt == BeforeKey(a, b)  gt == BeforeKey(b, a)  I(c) == IF c THEN 1 ELSE 0 IN
     Bad("C10.order", ob.lt = I(lt) /\ ob.le = I(~gt) /\ ob.gt = I(gt) /\ ob.ge = I(~lt) /\ ob.first = I(~gt))
  \cup Bad("C10.equal", ob.eq = I(a = b) /\ ob.ne = I(a # b) /\ (a = b => ob.hash = 1))
  \cup Bad("C10.modified", ob.frozen = 1)
\* Text which does not have the fields of the schema: other number of fields, or
\* a letter (or nothing) where an integer is expected.
Letters == {"a", "b", "x", "é"}
HasNotFields(schema, sep, text) ==
  LET f == Split(text, {sep, DirSep}) IN
  \/ Len(f) # NFields(schema)
  \/ \E l \in DOMAIN schema : \E i \in DOMAIN schema[l] :
       schema[l][i] = "int" /\ LET s == f[Start(schema, l) + i] IN s = <<>> \/ \E c \in DOMAIN s : s[c] \in Letters
ParseClauses(schema, sep, text, res) == Bad("C10.text_not_rejected", HasNotFields(schema, sep, text) => res = NoKey)
=============================================================================
