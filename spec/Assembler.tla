------------------------------ MODULE Assembler ------------------------------
(* An assembler for op lists, as a machine.  It lays the ops of a compilation *)
(* result out one after the other, remembering under which offset each was    *)
(* known to the compiler, and then patches the jump parameters; it consults   *)
(* nothing but the list.  It gets stuck - and the list is then not closed -   *)
(* on an offset it has seen before, on an op only the compiler knows, on a    *)
(* jump without an offset of the list as its last parameter.                  *)
(* With a second list (kind "same") two assemblers run in lockstep and must   *)
(* produce the same program: same routines, ops, parameters, jump targets.    *)
(* Input: [cases |-> <<[id, kind, l, r]>>], a list being                      *)
(*   [ops |-> <<[o, n, p, li, rt]>>, ninfo, ncoro, nops, table]               *)
(* o: offset, n: opcode name, p: parameters as text, li: the last parameter   *)
(* if it is an integer, else -1, rt: routine id; internal: cls is not an op.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SsbNames

In == JsonDeserialize(IOEnv.VERIF_IN)
C == In.cases

VARIABLES c, ph, i, seen
vars == <<c, ph, i, seen>>

L(k) == C[k].l
R(k) == C[k].r
Both(k) == C[k].kind = "same"
N(k) == Len(L(k).ops)

Front(s) == SubSeq(s, 1, Len(s) - 1)
Plain(op) == IF op.n \in JumpOps /\ Len(op.p) > 0 THEN Front(op.p) ELSE op.p

\* position of the op that the jump parameter of op j denotes; 0: none
Target(l, j) ==
  LET t == l.ops[j].li
      S == {q \in 1..Len(l.ops) : l.ops[q].o = t}
  IN IF l.ops[j].n \notin JumpOps THEN -1
     ELSE IF t < 0 \/ S = {} THEN 0
     ELSE CHOOSE q \in S : \A s \in S : q <= s

Init == /\ c \in 1..Len(C) /\ ph = "table" /\ i = 0 /\ seen = {}

\* what is wrong in this state ("" if nothing)
Fault ==
  LET l == L(c)  r == R(c) IN
  CASE ph = "table" ->
         IF Both(c) /\ ~(l.nops = r.nops /\ Len(l.ops) = Len(r.ops)) THEN "number of routines or ops differs"
         ELSE IF Both(c) /\ l.table # r.table THEN "routine tables differ"
         ELSE IF ~(l.ninfo = l.nops /\ l.ncoro = l.nops) THEN "tables have different lengths"
         \* the routine table the source text declares, by routine id
         ELSE IF ~Both(c) /\ Len(r.table) > 0 /\ l.table # r.table THEN "table differs from the source"
         ELSE ""
    [] ph = "layout" ->
         LET op == l.ops[i] IN
         IF op.o \in seen THEN "offset used twice"
         ELSE IF op.internal \/ op.n \in InternalOps THEN "pseudo operation remains"
         ELSE IF Both(c) /\ op.rt # r.ops[i].rt THEN "op in another routine"
         ELSE IF Both(c) /\ op.n # r.ops[i].n THEN "opcode differs"
         ELSE IF Both(c) /\ Plain(op) # Plain(r.ops[i]) THEN "parameters differ"
         ELSE ""
    [] ph = "patch" ->
         IF Target(l, i) = 0 THEN "jump does not denote an op of the list"
         ELSE IF Both(c) /\ Target(l, i) # Target(r, i) THEN "jump denotes another op"
         ELSE ""
    [] OTHER -> ""

Advance ==
  IF i < N(c) THEN /\ i' = i + 1 /\ UNCHANGED ph
  ELSE /\ i' = IF ph = "patch" \/ N(c) = 0 THEN 0 ELSE 1
       /\ ph' = IF N(c) = 0 THEN "done" ELSE CASE ph = "layout" -> "patch" [] ph = "patch" -> "done"

Next ==
  /\ ph # "done"
  /\ Fault = ""
  /\ IF ph = "table"
     THEN /\ ph' = (IF N(c) = 0 THEN "done" ELSE "layout") /\ i' = (IF N(c) = 0 THEN 0 ELSE 1) /\ UNCHANGED seen
     ELSE /\ Advance
          /\ seen' = IF ph = "layout" THEN seen \cup {L(c).ops[i].o} ELSE seen
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

Report ==
  Fault = "" \/ PrintT(ToJson([verdict |-> "bad", id |-> C[c].id, clause |-> Fault, at |-> i,
                               lop |-> IF i > 0 THEN L(c).ops[i] ELSE [n |-> "table", p |-> <<>>],
                               rop |-> IF i > 0 /\ Both(c) THEN R(c).ops[i] ELSE [n |-> "", p |-> <<>>]]))
=============================================================================
