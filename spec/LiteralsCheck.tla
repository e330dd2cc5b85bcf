---------------------------- MODULE LiteralsCheck ----------------------------
(* Reads recorded literal texts: each must be a literal and denote the value. *)
(* Input: [cases |-> <<[id, t, v]>>], texts and values as code points.        *)
EXTENDS Literals, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
C == In.cases
VARIABLES c, ph
Init == c \in 1..Len(C) /\ ph = "read"
Next == ph = "read" /\ ph' = (IF IsString(C[c].t) THEN "value" ELSE "bad") /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, ph>>
Report ==
  /\ ph = "bad" => PrintT(ToJson([id |-> C[c].id, clause |-> "printed text is not a string literal", got |-> <<>>]))
  /\ ph = "value" => LET v == StringValue(C[c].t) IN
       v = C[c].v \/ PrintT(ToJson([id |-> C[c].id, clause |-> "printed literal denotes another string", got |-> v]))
=============================================================================
