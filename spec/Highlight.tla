------------------------------ MODULE Highlight ------------------------------
(* The highlighting lexer as a machine: it stands at a position of the text   *)
(* in a mode (plain text or inside one of four kinds of strings) and each     *)
(* step takes one token. Every text made of at most MaxPieces pieces is run.  *)
(* TLC shows that in every mode and before every text there is a step that    *)
(* takes at least one character (so the machine ends and loses nothing and    *)
(* never needs an error token); the texts are replayed into the real lexer.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
Pieces == In.pieces          \* sequences of code points
First == {In.first[i] : i \in 1..Len(In.first)}
MaxPieces == In.max

NL == 10
DQ == 34
SQ == 39
Digit == 48..57
Letter == (65..90) \cup (97..122) \cup {95}

RECURSIVE Glue(_, _)
Glue(l, i) == IF i > Len(l) THEN <<>> ELSE Pieces[l[i]] \o Glue(l, i + 1)

At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
RECURSIVE Run(_, _, _)                       \* number of characters of S from p on
Run(t, p, S) == IF At(t, p) \in S THEN 1 + Run(t, p + 1, S) ELSE 0
RECURSIVE RunNot(_, _, _)
RunNot(t, p, x) == IF p > Len(t) \/ At(t, p) = x THEN 0 ELSE 1 + RunNot(t, p + 1, x)
RECURSIVE Close(_, _)                        \* position behind the next */ or 0
Close(t, p) == IF p >= Len(t) THEN 0 ELSE IF t[p] = 42 /\ t[p + 1] = 47 THEN p + 2 ELSE Close(t, p + 1)
Triple(t, p, q) == At(t, p) = q /\ At(t, p + 1) = q /\ At(t, p + 2) = q

Tok(n, k, m) == [n |-> n, k |-> k, m |-> m]

Name(t, p) == IF At(t, p) \in Letter THEN Run(t, p, Letter \cup Digit) ELSE 0

Plain(t, p) ==
  IF Name(t, p) > 0 THEN Tok(Name(t, p), "name", "plain")
  ELSE IF At(t, p) = 47 /\ At(t, p + 1) = 42 /\ Close(t, p + 2) > 0 THEN Tok(Close(t, p + 2) - p, "comment", "plain")
  ELSE IF At(t, p) = 47 /\ At(t, p + 1) = 47 /\ p + RunNot(t, p, NL) <= Len(t) THEN Tok(RunNot(t, p, NL) + 1, "comment", "plain")
  ELSE IF At(t, p) \in {36, 64, 167} /\ Name(t, p + 1) > 0 THEN Tok(1 + Name(t, p + 1), "mark", "plain")
  ELSE IF At(t, p) \in Digit THEN Tok(Run(t, p, Digit), "number", "plain")
  ELSE IF Triple(t, p, DQ) THEN Tok(3, "string", "mdq")
  ELSE IF Triple(t, p, SQ) THEN Tok(3, "string", "msq")
  ELSE IF At(t, p) = DQ THEN Tok(1, "string", "dq")
  ELSE IF At(t, p) = SQ THEN Tok(1, "string", "sq")
  ELSE Tok(1, "text", "plain")

Inside(t, p, m) ==
  LET q == IF m \in {"dq", "mdq"} THEN DQ ELSE SQ
      multi == m \in {"mdq", "msq"}
  IN IF At(t, p) # q THEN Tok(RunNot(t, p, q), "string", m)
     ELSE IF ~multi THEN Tok(1, "string", "plain")
     ELSE IF Triple(t, p, q) THEN Tok(3, "string", "plain")
     ELSE Tok(1, "string", m)

Step(t, p, m) == IF m = "plain" THEN Plain(t, p) ELSE Inside(t, p, m)

VARIABLES l, t, p, m, out
vars == <<l, t, p, m, out>>

\* the text is chosen first (p = 0), then read
Init == l = <<>> /\ t = <<>> /\ p = 0 /\ m = "plain" /\ out = <<>>
Choose == /\ p = 0
          /\ \/ /\ Len(l) < MaxPieces
                /\ \E k \in 1..Len(Pieces) : (l # <<>> \/ k \in First) /\ l' = Append(l, k)
                /\ UNCHANGED <<t, p, m, out>>
             \/ /\ l # <<>>
                /\ LET x == Glue(l, 1) IN t' = IF x[Len(x)] = NL THEN x ELSE Append(x, NL)
                /\ p' = 1
                /\ UNCHANGED <<l, m, out>>
Read == /\ p > 0 /\ p <= Len(t)
        /\ LET s == Step(t, p, m) IN
             /\ p' = p + s.n
             /\ m' = s.m
             /\ out' = out \o SubSeq(t, p, p + s.n - 1)
        /\ UNCHANGED <<l, t>>
Next == Choose \/ Read
Spec == Init /\ [][Next]_vars

Progress == (p > 0 /\ p <= Len(t)) => Step(t, p, m).n > 0
InText == p <= Len(t) + 1
NothingLost == p > 0 => out = SubSeq(t, 1, p - 1)
Report == ~(p > 0 /\ p > Len(t)) \/ PrintT(ToJson([l |-> l, m |-> m]))
=============================================================================
