--------------------------- MODULE HighlightCheck ---------------------------
(* Reads token streams recorded from the real highlighting lexer along the    *)
(* text it was given. Input: cases of [id, text, plain, ev, err, hung]; ev    *)
(* are the token texts as code points, err says which of them are error       *)
(* tokens, plain is the text with line ends and byte order mark as Pygments   *)
(* normalises them for every lexer.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
C == In.cases
NL == 10

VARIABLES c, i, p, v        \* case, tokens read, characters read, what is wrong
vars == <<c, i, p, v>>

Ev == C[c].ev
T == C[c].text
\* a stretch of the text, the newline that may be appended included
Part(t, from, n) == SubSeq(Append(t, NL), from + 1, from + n)
Whole(t, n) == n = Len(t) \/ n = Len(t) + 1

Init == c \in 1..Len(C) /\ i = 0 /\ p = 0 /\ v = ""
Read == /\ v = "" /\ i < Len(Ev)
        /\ i' = i + 1
        /\ p' = p + Len(Ev[i + 1])
        /\ v' = IF Part(T, p, Len(Ev[i + 1])) # Ev[i + 1] THEN "other text"
                ELSE IF C[c].accepted /\ (i + 1) \in {C[c].err[k] : k \in 1..Len(C[c].err)} THEN "error token in accepted source"
                ELSE ""
        /\ UNCHANGED c
End == /\ v = "" /\ i = Len(Ev)
       /\ v' = IF C[c].hung THEN "does not end" ELSE IF ~Whole(T, p) THEN "text is missing at the end" ELSE "good"
       /\ UNCHANGED <<c, i, p>>
Next == Read \/ End
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_, _)
Cat(l, k) == IF k > Len(l) THEN <<>> ELSE l[k] \o Cat(l, k + 1)
\* the stream is that of the normalised text
OnlyNormalised == LET o == Cat(Ev, 1) IN C[c].plain # T /\ ~C[c].hung /\ (o = C[c].plain \/ o = Append(C[c].plain, NL))

Report == v \in {"", "good"} \/
  PrintT(ToJson([id |-> C[c].id, v |-> IF v \notin {"error token in accepted source", "does not end"} /\ OnlyNormalised THEN "normalised" ELSE v, i |-> i, p |-> p]))
=============================================================================
