------------------------------- MODULE Literals -------------------------------
(* The literals of the language, on sequences of code points: which texts are *)
(* string literals, the string each denotes, which strings have a literal at  *)
(* all, the number an integer, decimal or coordinate spelling denotes.        *)
EXTENDS Integers, Sequences, FiniteSets

SP == 32  NL == 10  CR == 13  FF == 12  DQ == 34  SQ == 39  BS == 92  EN == 110

Front(s) == SubSeq(s, 1, Len(s) - 1)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* ---- strings
Is3(t, i) == i + 2 <= Len(t) /\ t[i] \in {DQ, SQ} /\ t[i + 1] = t[i] /\ t[i + 2] = t[i]

\* first position >= i at which the three quotes q start; 0 if there is none
RECURSIVE Find3(_, _, _)
Find3(t, q, i) == IF i + 2 > Len(t) THEN 0
                  ELSE IF t[i] = q /\ t[i + 1] = q /\ t[i + 2] = q THEN i
                  ELSE Find3(t, q, i + 1)

IsMulti(t) == Len(t) >= 6 /\ Is3(t, 1) /\ Find3(t, t[1], 4) = Len(t) - 2

\* the scanner inside of a single line literal: position of the closing quote, 0 if there is none
RECURSIVE Close(_, _, _)
Close(t, q, i) ==
  IF i > Len(t) THEN 0
  ELSE IF t[i] = BS THEN IF i + 1 > Len(t) THEN 0 ELSE Close(t, q, i + 2)
  ELSE IF t[i] = q THEN i
  ELSE IF t[i] \in {CR, NL, FF} THEN 0
  ELSE Close(t, q, i + 1)

IsSingle(t) == Len(t) >= 2 /\ t[1] \in {DQ, SQ} /\ Close(t, t[1], 2) = Len(t) /\ ~(Is3(t, 1) /\ Find3(t, t[1], 4) > 0)

\* \n stands for a new line, \" and \' for the quotes, any other backslash for itself
RECURSIVE Unescape(_, _)
Unescape(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE IF b[i] = BS /\ i < Len(b) /\ b[i + 1] \in {DQ, SQ, EN}
       THEN <<IF b[i + 1] = EN THEN NL ELSE b[i + 1]>> \o Unescape(b, i + 2)
  ELSE <<b[i]>> \o Unescape(b, i + 1)

\* lines of a text, and back
RECURSIVE Lines(_, _, _)
Lines(b, i, cur) ==
  IF i > Len(b) THEN <<cur>>
  ELSE IF b[i] = NL THEN <<cur>> \o Lines(b, i + 1, <<>>)
  ELSE IF b[i] = CR /\ i < Len(b) /\ b[i + 1] = NL THEN <<cur>> \o Lines(b, i + 2, <<>>)
  ELSE Lines(b, i + 1, Append(cur, b[i]))

RECURSIVE Join(_)
Join(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o Join(Tail(ls))

RECURSIVE Indent(_)
Indent(l) == IF l # <<>> /\ Head(l) = SP THEN 1 + Indent(Tail(l)) ELSE 0
Blank(l) == Indent(l) = Len(l)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the dedent rules
Dedent(b) ==
  LET ls == Lines(b, 1, <<>>)
      first == ls[1]
      others == Tail(ls)
      rest == IF others # <<>> /\ Blank(others[Len(others)]) THEN Front(others) ELSE others
      k == IF rest = <<>> THEN 0 ELSE Least({Indent(rest[i]) : i \in 1..Len(rest)})
      cut == [i \in 1..Len(rest) |-> Drop(rest[i], k)]
  IN IF first = <<>> THEN Join(cut) ELSE Join(<<first>> \o cut)

IsString(t) == IsSingle(t) \/ IsMulti(t)
StringValue(t) == IF IsMulti(t) THEN Dedent(SubSeq(t, 4, Len(t) - 3)) ELSE Unescape(SubSeq(t, 2, Len(t) - 1), 1)

\* which strings the language can spell
\* Is there a single line literal with quotes q for s?  Every character is written as itself or, if it has one, as its escape.
\* p: the scanner is behind a backslash that takes the next character along; b: the last character is a backslash that stands for itself.
RECURSIVE Single(_, _, _, _, _)
Single(s, i, q, p, b) ==
  IF i > Len(s) THEN ~p
  ELSE LET c == s[i] IN
    \/ ~(b /\ c \in {DQ, SQ, EN}) /\ (p \/ c \notin {q, CR, NL, FF}) /\ Single(s, i + 1, q, ~p /\ c = BS, c = BS)
    \/ c \in {NL, DQ, SQ} /\ ~(p /\ c = q) /\ Single(s, i + 1, q, FALSE, FALSE)
SingleSpells(s) == Single(s, 1, DQ, FALSE, FALSE) \/ Single(s, 1, SQ, FALSE, FALSE)
MultiSpells(s, q) ==
  /\ Find3(s, q, 1) = 0
  /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = CR /\ s[i + 1] = NL)
  /\ LET ls == Lines(s, 1, <<>>) IN
     \/ \E i \in 1..Len(ls) : Indent(ls[i]) = 0
     \/ ls[1] # <<>> /\ (Len(ls) = 1 \/ \E i \in 2..Len(ls) : Indent(ls[i]) = 0)
Spellable(s) == SingleSpells(s) \/ MultiSpells(s, DQ) \/ MultiSpells(s, SQ)

\* all literals made that way, as witnesses
RECURSIVE Bodies(_)
Bodies(s) == IF s = <<>> THEN {<<>>}
             ELSE LET c == Head(s)
                      ways == {<<c>>} \cup IF c = NL THEN {<<BS, EN>>} ELSE IF c \in {DQ, SQ} THEN {<<BS, c>>} ELSE {}
                  IN {w \o r : w \in ways, r \in Bodies(Tail(s))}
Witnesses(s) ==
  {<<q>> \o r \o <<q>> : q \in {DQ, SQ}, r \in Bodies(s)} \cup
  {q \o o \o s \o e \o q : q \in {<<DQ, DQ, DQ>>, <<SQ, SQ, SQ>>}, o \in {<<>>, <<NL>>}, e \in {<<>>, <<NL>>}}
HasWitness(s) == \E w \in Witnesses(s) : IsString(w) /\ StringValue(w) = s

\* ---- numbers
Digit(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55
RECURSIVE Num(_, _)
Num(ds, b) == IF ds = <<>> THEN 0 ELSE Num(Front(ds), b) * b + Digit(ds[Len(ds)])

IntValue(t) ==
  LET neg == t[1] = 45
      u == IF neg THEN Tail(t) ELSE t
      base == IF Len(u) < 3 \/ u[1] # 48 THEN 10
              ELSE CASE u[2] \in {120, 88} -> 16 [] u[2] \in {111, 79} -> 8 [] u[2] \in {98, 66} -> 2 [] OTHER -> 10
      v == Num(IF base = 10 THEN u ELSE Drop(u, 2), base)
  IN IF neg THEN 0 - v ELSE v

RECURSIVE StripZ(_)
StripZ(f) == IF f # <<>> /\ f[Len(f)] = 48 THEN StripZ(Front(f)) ELSE f
DotAt(t) == CHOOSE i \in 1..Len(t) : t[i] = 46
\* sign, whole part, digits of the fraction without trailing zeros; zero has no sign
DecValue(t) ==
  LET neg == t[1] = 45
      u == IF neg THEN Tail(t) ELSE t
      d == DotAt(u)
      w == Num(SubSeq(u, 1, d - 1), 10)
      f == StripZ(Drop(u, d))
  IN [neg |-> neg /\ ~(w = 0 /\ f = <<>>), w |-> w, f |-> f]

IsDec(t) == \E i \in 1..Len(t) : t[i] = 46
\* coordinate of a position mark: tile and whether it lies half a tile further
CoordOk(t) == ~IsDec(t) \/ DecValue(t).f \in {<<>>, <<53>>}
Coord(t) == IF ~IsDec(t) THEN [rel |-> IntValue(t), half |-> FALSE]
            ELSE LET v == DecValue(t) IN [rel |-> IF t[1] = 45 THEN 0 - v.w ELSE v.w, half |-> v.f = <<53>>]
=============================================================================
