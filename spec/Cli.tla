-------------------------------- MODULE Cli --------------------------------
(* The documents the two commands exchange (docs/cli_api_usage.rst).         *)
(* A JSON value is a tree  [j: kind, s: text, i: number, k: keys, a: values]: *)
(*   int (i; s: the digits), str (s), num, bool, null, arr (a),              *)
(*   obj (k, a: keys and their values, keys sorted, kd: a key occurs twice).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SsbNames

Has(v, key) == v.j = "obj" /\ \E q \in 1..Len(v.k) : v.k[q] = key
Get(v, key) == v.a[CHOOSE q \in 1..Len(v.k) : v.k[q] = key]
IsStr(v) == v.j = "str"
IsInt(v) == v.j = "int"
IsArr(v) == v.j = "arr"
HasStr(v, key) == Has(v, key) /\ IsStr(Get(v, key))

DungeonKeys == {"open", "closed", "request", "open_request"}
SettingsOk(v) ==
  /\ HasStr(v, "performance_progress_list_var_name")
  /\ Has(v, "dungeon_mode_constants")
  /\ \A key \in DungeonKeys : HasStr(Get(v, "dungeon_mode_constants"), key)

ConstantOk(v) == HasStr(v, "type") /\ Get(v, "type").s = "CONSTANT" /\ HasStr(v, "value")
Coordinate(v) == IsInt(v) \/ IsStr(v)
ArgOk(v) ==
  \/ IsInt(v)
  \/ ConstantOk(v)
  \/ /\ HasStr(v, "type") /\ Get(v, "type").s \in {"FIXED_POINT", "CONST_STRING"} /\ HasStr(v, "value")
  \/ /\ HasStr(v, "type") /\ Get(v, "type").s = "LANG_STRING" /\ Has(v, "value")
     /\ Get(v, "value").j = "obj"
     /\ \A q \in 1..Len(Get(v, "value").a) : IsStr(Get(v, "value").a[q])
  \/ /\ HasStr(v, "type") /\ Get(v, "type").s = "POSITION_MARK" /\ Has(v, "value")
     /\ LET m == Get(v, "value") IN
        /\ HasStr(m, "name") /\ Has(m, "x") /\ Has(m, "y")
        /\ Coordinate(Get(m, "x")) /\ Coordinate(Get(m, "y"))

OpOk(v) == /\ HasStr(v, "opcode") /\ Has(v, "params") /\ IsArr(Get(v, "params"))
           /\ \A q \in 1..Len(Get(v, "params").a) : ArgOk(Get(v, "params").a[q])

Targeted == {"ACTOR", "OBJECT", "PERFORMER"}
RoutineOk(v) ==
  /\ HasStr(v, "type") /\ Has(v, "ops") /\ IsArr(Get(v, "ops"))
  /\ \A q \in 1..Len(Get(v, "ops").a) : OpOk(Get(v, "ops").a[q])
  /\ LET t == Get(v, "type").s IN
       \/ t = "COROUTINE" /\ HasStr(v, "name")
       \/ t = "GENERIC"
       \/ t \in Targeted /\ Has(v, "target_id")
          /\ LET x == Get(v, "target_id") IN IsInt(x) \/ IsStr(x) \/ ConstantOk(x)

DocOk(v) ==
  /\ v.j = "obj" /\ Has(v, "settings") /\ SettingsOk(Get(v, "settings"))
  /\ Has(v, "routines") /\ IsArr(Get(v, "routines"))
  /\ \A q \in 1..Len(Get(v, "routines").a) : RoutineOk(Get(v, "routines").a[q])

Routines(v) == Get(v, "routines").a
OpsOf(r) == Get(r, "ops").a

\* the offset of op q of routine r: one more than the number of ops in front
RECURSIVE Before(_, _)
Before(v, r) == IF r = 1 THEN 0 ELSE Before(v, r - 1) + Len(OpsOf(Routines(v)[r - 1]))
OpCount(v) == Before(v, Len(Routines(v)) + 1)

\* every jump lands on an op of the document
JumpsOk(v) ==
  \A r \in 1..Len(Routines(v)) : \A q \in 1..Len(OpsOf(Routines(v)[r])) :
    LET op == OpsOf(Routines(v)[r])[q]  p == Get(op, "params").a IN
    Get(op, "opcode").s \in JumpOps =>
      Len(p) > 0 /\ IsInt(p[Len(p)]) /\ p[Len(p)].i \in 1..OpCount(v)

\* what an argument denotes: [t: kind, f: texts]
RECURSIVE KeysAndTexts(_, _)
KeysAndTexts(o, q) == IF q > Len(o.k) THEN <<>> ELSE <<o.k[q], o.a[q].s>> \o KeysAndTexts(o, q + 1)
Arg(v) ==
  IF IsInt(v) THEN [t |-> "int", f |-> <<v.s>>]
  ELSE LET x == Get(v, "value") IN
    CASE Get(v, "type").s = "FIXED_POINT" -> [t |-> "dec", f |-> <<x.s>>]
      [] Get(v, "type").s = "CONSTANT" -> [t |-> "const", f |-> <<x.s>>]
      [] Get(v, "type").s = "CONST_STRING" -> [t |-> "str", f |-> <<x.s>>]
      [] Get(v, "type").s = "LANG_STRING" -> [t |-> "lang", f |-> KeysAndTexts(x, 1)]
      [] Get(v, "type").s = "POSITION_MARK" -> [t |-> "pos", f |-> <<Get(x, "name").s, Get(x, "x").s, Get(x, "y").s>>]

\* the routine a header denotes: <<kind, target, name>>
Header(r) ==
  LET t == Get(r, "type").s IN
  CASE t = "COROUTINE" -> <<"coro", "", Get(r, "name").s>>
    [] t = "GENERIC" -> <<"", "", "">>
    [] OTHER ->
       LET x == Get(r, "target_id")
           w == IF IsInt(x) THEN "i:" \o x.s ELSE IF IsStr(x) THEN "c:" \o x.s ELSE "c:" \o Get(x, "value").s
           k == CASE t = "ACTOR" -> "actor" [] t = "OBJECT" -> "object" [] t = "PERFORMER" -> "performer"
       IN <<k, w, "">>
=============================================================================
