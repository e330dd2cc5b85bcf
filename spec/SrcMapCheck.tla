----------------------------- MODULE SrcMapCheck ------------------------------
(* Recorded histories of source maps: [cases |-> <<[id, s, a]>>], s: states,  *)
(* a: the action between s[i] and s[i+1]: [k: "trip"|"rewrite", m, eq, text]. *)
EXTENDS SrcMap, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.VERIF_IN).cases
VARIABLES c, i
Init == c \in 1..Len(C) /\ i = 1
Next == i < Len(C[c].s) /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i>>

Bad(a, x, y) ==
  IF a.k = "trip"
  THEN IF ~IsTrip(x, y) THEN "the map read back has other contents"
       ELSE IF ~a.eq THEN "the map read back does not compare equal to the original"
       ELSE IF ~a.text THEN "serialising again gives another text" ELSE ""
  ELSE IF ~IsRewrite(x, {<<p[1], p[2]>> : p \in ToSet(a.m)}, y) THEN "rewriting offsets gives other entries" ELSE ""
Report == i > 1 => LET b == Bad(C[c].a[i - 1], C[c].s[i - 1], C[c].s[i]) IN b = "" \/ PrintT(ToJson([id |-> C[c].id, step |-> i - 1, clause |-> b]))
=============================================================================
