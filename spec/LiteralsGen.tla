----------------------------- MODULE LiteralsGen -----------------------------
(* Grows texts symbol by symbol.  Mode "value": every string over the         *)
(* alphabet, with whether the language can spell it (and a proof in form of a *)
(* witness).  Mode "lit": every literal with such a body and the string it    *)
(* denotes.  Modes "int", "dec", "coord": spellings of numbers.               *)
EXTENDS Literals, TLC, Json

CONSTANTS Mode, Depth

Q3(q) == <<q, q, q>>
Alpha == CASE Mode = "value" -> {<<97>>, <<SP>>, <<NL>>, <<DQ>>, <<SQ>>, Q3(DQ), Q3(SQ), <<BS>>, <<EN>>, <<CR>>}
           [] Mode = "lit" -> {<<97>>, <<SP>>, <<NL>>, <<DQ>>, <<SQ>>, <<BS>>, <<EN>>, <<NL, SP, SP>>}
           [] Mode = "int" -> {<<48>>, <<49>>, <<55>>, <<57>>, <<97>>, <<70>>}
           [] OTHER -> {<<48>>, <<49>>, <<53>>, <<46>>}
Opens == CASE Mode = "lit" -> {<<DQ>>, <<SQ>>, Q3(DQ), Q3(SQ)}
           [] Mode = "int" -> {<<>>, <<45>>, <<48, 120>>, <<48, 88>>, <<45, 48, 120>>, <<48, 111>>, <<48, 79>>, <<45, 48, 111>>, <<48, 98>>,
                               <<48, 66>>, <<45, 48, 98>>}
           [] Mode \in {"dec", "coord"} -> {<<>>, <<45>>}
           [] OTHER -> {<<>>}

VARIABLES open, body, n
vars == <<open, body, n>>
Init == open \in Opens /\ body = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E a \in Alpha : body' = body \o a /\ UNCHANGED open
Spec == Init /\ [][Next]_vars

Text == IF Mode = "lit" THEN open \o body \o open ELSE open \o body

Dots == Cardinality({i \in 1..Len(body) : body[i] = 46})
Digits(t) == \A i \in 1..Len(t) : t[i] \in 48..57
\* the spellings the lexical grammar has
IntText ==
  /\ body # <<>>
  /\ CASE open \in {<<>>, <<45>>} -> Digits(body) /\ (body[1] # 48 \/ \A i \in 1..Len(body) : body[i] = 48)
       [] open[Len(open)] \in {120, 88} -> TRUE
       [] open[Len(open)] \in {111, 79} -> \A i \in 1..Len(body) : body[i] \in 48..55
       [] OTHER -> \A i \in 1..Len(body) : body[i] \in 48..49
DecText == Dots = 1 /\ Len(body) >= 2 /\ body[Len(body)] # 46

\* the specification itself: what Spellable promises is delivered, and a literal's value is spellable
Sound ==
  /\ Mode = "value" => (Spellable(body) <=> HasWitness(body))
  /\ Mode = "lit" /\ IsString(Text) => Spellable(StringValue(Text))

Emit ==
  CASE Mode = "value" -> PrintT(ToJson([s |-> body, ok |-> Spellable(body)]))
    [] Mode = "lit" -> IsString(Text) => PrintT(ToJson([t |-> Text, v |-> StringValue(Text)]))
    [] Mode = "int" -> IntText => PrintT(ToJson([t |-> Text, v |-> IntValue(Text)]))
    [] Mode = "dec" -> DecText => PrintT(ToJson([t |-> Text, v |-> DecValue(Text)]))
    [] Mode = "coord" -> (DecText \/ (Dots = 0 /\ body # <<>> /\ (body[1] # 48 \/ Len(body) = 1))) =>
                            PrintT(ToJson([t |-> Text, ok |-> CoordOk(Text), v |-> Coord(Text)]))
=============================================================================
