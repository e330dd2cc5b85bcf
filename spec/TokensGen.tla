------------------------------ MODULE TokensGen ------------------------------
(* Which separators may stand between which tokens: for every pair (a, b) of  *)
(* the input all sequences of pieces of at most pair.deep pieces are tried;   *)
(* an empty a or b stands for the begin or the end of the text.               *)
EXTENDS Tokens, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
P == In.pairs
S == In.pieces

VARIABLES c, s
vars == <<c, s>>

RECURSIVE Glue(_, _)
Glue(l, i) == IF i > Len(l) THEN <<>> ELSE S[l[i]] \o Glue(l, i + 1)
Sep == Glue(s, 1)

Init == c \in 1..Len(P) /\ s = <<>>
Next == /\ Len(s) < P[c].deep
        /\ \E k \in 1..Len(S) : s' = Append(s, k)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Report == ~Neutral(P[c].a, Sep, P[c].b) \/ PrintT(ToJson([id |-> c, s |-> s]))
=============================================================================
