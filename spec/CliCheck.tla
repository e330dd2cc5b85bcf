------------------------------ MODULE CliCheck ------------------------------
(* Monitor of recorded runs of the two commands.                             *)
(* "compile": a run of the compile command on a text the compiler accepts     *)
(*   (acc) or not; ops: the ops the compiler yields, in order, as             *)
(*   [o: offset, n, p: arguments [t, f], li: last argument as a number, rt],  *)
(*   table: the routine table.  A reader walks the printed document op by op, *)
(*   numbering them from 1, next to the compiler's list.                      *)
(* "decompile": a run of the decompile command on doc.                        *)
EXTENDS Cli, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
C == In.cases

VARIABLES c, r, q, n
vars == <<c, r, q, n>>

Init == c \in 1..Len(C) /\ r = 0 /\ q = 0 /\ n = 0

Doc == C[c].doc
CurOp == OpsOf(Routines(Doc)[r])[q]

\* position of the op the compiler knows under offset o
PositionOf(o) == CHOOSE x \in 1..Len(C[c].ops) : C[c].ops[x].o = o

Tab(t) == IF t[1] = "none" THEN <<"", "", "">> ELSE <<t[1], t[2], t[3]>>

HeadFault ==
  LET x == C[c] IN
  IF x.kind = "compile" THEN
    IF ~x.acc THEN (IF x.status = 0 THEN "succeeds on a program the compiler rejects" ELSE "")
    ELSE IF x.status # 0 THEN "fails on an accepted program"
    ELSE IF ~x.json THEN "does not print one JSON document"
    ELSE IF ~DocOk(Doc) THEN "document has not the documented structure"
    ELSE IF Get(Doc, "settings") # x.settings THEN "other settings than given"
    ELSE IF Len(Routines(Doc)) # Len(x.table) THEN "number of routines differs"
    ELSE IF OpCount(Doc) # Len(x.ops) THEN "number of ops differs"
    ELSE IF ~JumpsOk(Doc) THEN "jump parameter is not the position of an op"
    ELSE ""
  ELSE
    IF DocOk(Doc) /\ JumpsOk(Doc)
    THEN (IF x.status # 0 THEN "rejects a document that follows the documentation" ELSE "")
    ELSE (IF x.status = 0 THEN "succeeds on a document that cannot be read" ELSE "")

OpFault ==
  LET x == C[c].ops[n]  p == Get(CurOp, "params").a
      jump == x.n \in JumpOps
      plain == IF jump THEN Len(x.p) - 1 ELSE Len(x.p)
  IN IF x.rt # r - 1 THEN "op in another routine"
     ELSE IF Get(CurOp, "opcode").s # x.n THEN "opcode differs"
     ELSE IF Len(p) # Len(x.p) THEN "number of parameters differs"
     ELSE IF \E k \in 1..plain : Arg(p[k]) # x.p[k] THEN "parameter differs"
     ELSE IF jump /\ p[Len(p)].i # PositionOf(x.li) THEN "jump parameter is not the position of the target"
     ELSE ""

Fault == IF r = 0 THEN HeadFault
         ELSE IF q = 0 THEN (IF Header(Routines(Doc)[r]) # Tab(C[c].table[r]) THEN "routine header differs" ELSE "")
         ELSE OpFault

AtEnd == IF r = 0 THEN TRUE ELSE q = Len(OpsOf(Routines(Doc)[r]))

Next ==
  /\ Fault = ""
  /\ C[c].kind = "compile" /\ C[c].acc
  /\ IF AtEnd THEN r < Len(Routines(Doc)) /\ r' = r + 1 /\ q' = 0 /\ n' = n
     ELSE q' = q + 1 /\ n' = n + 1 /\ r' = r
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

Report == Fault = "" \/ PrintT(ToJson([verdict |-> "bad", id |-> C[c].id, clause |-> Fault, routine |-> r, op |-> n]))
=============================================================================
