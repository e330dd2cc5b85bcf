----------------------------- MODULE StaticCheck ------------------------------
(* Recorded compilations [id, evs, ok, mro]: evs the events of the project    *)
(* (<<>> for a text that is no program), ok whether the compiler accepted it, *)
(* mro the classes of the exception it raised.                                *)
EXTENDS StaticRules, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.VERIF_IN).cases
VARIABLES c, i, st
Init == c \in 1..Len(C) /\ i = 1 /\ st = Start
Next == i <= Len(C[c].evs) /\ st' = Step(st, [k |-> C[c].evs[i][1], n |-> C[c].evs[i][2], a |-> C[c].evs[i][3]]) /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i, st>>

Documented == {"ParseError", "SsbCompilerError", "ValueError"}
Rules == IF C[c].evs = <<>> THEN {} ELSE Final(st, "main")
Bad == IF C[c].ok THEN IF Rules = {} THEN "" ELSE "accepted although: " \o SetToSeq(Rules)[1]
       ELSE IF ToSet(C[c].mro) \cap Documented = {} THEN "undocumented exception" ELSE ""
Report == i > Len(C[c].evs) =>
  /\ (Bad = "" \/ PrintT(ToJson([id |-> C[c].id, clause |-> Bad])))
  /\ (C[c].evs = <<>> \/ PrintT(ToJson([id |-> C[c].id, rules |-> SetToSeq(Rules)])))
=============================================================================
