------------------------------- MODULE Tokens -------------------------------
(* The scanner of the language, on sequences of code points: at every         *)
(* position the longest token wins; white space, comments and joined lines    *)
(* are dropped.  A separator between two tokens is neutral iff the scanner    *)
(* delivers exactly these two tokens.                                         *)
EXTENDS Literals

TAB == 9  DOLLAR == 36  TILDE == 126  MINUS == 45  DOT == 46  SLASH == 47  STAR == 42
IsDigit(x) == x \in 48..57
Letter(x) == x \in 65..90 \/ x \in 97..122 \/ x = 95
Space(x) == x \in {SP, TAB, NL, CR}
InText(t, i) == i <= Len(t)

\* first position >= i whose code point is not of the given kind
RECURSIVE Run(_, _, _)
Run(t, i, k) ==
  IF ~InText(t, i) THEN i
  ELSE IF CASE k = "digit" -> IsDigit(t[i])
            [] k = "zero" -> t[i] = 48
            [] k = "oct" -> t[i] \in 48..55
            [] k = "bin" -> t[i] \in 48..49
            [] k = "hex" -> IsDigit(t[i]) \/ t[i] \in 65..70 \/ t[i] \in 97..102
            [] k = "word" -> Letter(t[i]) \/ IsDigit(t[i])
            [] k = "space" -> Space(t[i])
            [] k = "line" -> t[i] \notin {NL, CR}
       THEN Run(t, i + 1, k) ELSE i

\* position behind a token that starts at i, by kind; 0: none of that kind there
Word(t, i) == IF InText(t, i) /\ Letter(t[i]) THEN Run(t, i, "word") ELSE 0
Sigil(t, i) == IF t[i] \in {DOLLAR, TILDE} THEN Word(t, i + 1) ELSE 0

Based(t, i, marks, k) ==
  IF i + 2 <= Len(t) /\ t[i] = 48 /\ t[i + 1] \in marks /\ Run(t, i + 2, k) > i + 2 THEN Run(t, i + 2, k) ELSE 0
Number(t, i0) ==
  LET i == IF t[i0] = MINUS THEN i0 + 1 ELSE i0
      d == Run(t, i, "digit")
      whole == IF d = i THEN 0 ELSE IF t[i] = 48 THEN Run(t, i, "zero") ELSE d
      frac == IF InText(t, d) /\ t[d] = DOT /\ Run(t, d + 1, "digit") > d + 1 THEN Run(t, d + 1, "digit") ELSE 0
  IN IF ~InText(t, i) THEN 0
     ELSE LET S == {whole, frac, Based(t, i, {79, 111}, "oct"), Based(t, i, {88, 120}, "hex"), Based(t, i, {66, 98}, "bin")}
          IN CHOOSE x \in S : \A y \in S : y <= x

Text(t, i) ==
  IF t[i] \notin {DQ, SQ} THEN 0
  ELSE LET one == Close(t, t[i], i + 1)
           three == IF Is3(t, i) THEN Find3(t, t[i], i + 3) ELSE 0
           S == {IF one = 0 THEN 0 ELSE one + 1, IF three = 0 THEN 0 ELSE three + 3}
       IN CHOOSE x \in S : \A y \in S : y <= x

\* = == < > <= >= != & &<< ^ -= += *= /= || ( ) , : @ section { } [ ] ; +
Signs == {<<61>>, <<61, 61>>, <<60>>, <<62>>, <<60, 61>>, <<62, 61>>, <<33, 61>>, <<38>>, <<38, 60, 60>>, <<94>>, <<45, 61>>, <<43, 61>>,
          <<42, 61>>, <<47, 61>>, <<124, 124>>, <<40>>, <<41>>, <<44>>, <<58>>, <<64>>, <<167>>, <<123>>, <<125>>, <<91>>, <<93>>, <<59>>, <<43>>}
Sign(t, i) ==
  LET S == {s \in Signs : i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s} IN
  IF S = {} THEN 0 ELSE i + Len(CHOOSE s \in S : \A u \in S : Len(u) <= Len(s))

RECURSIVE EndOfBlock(_, _)
EndOfBlock(t, i) == IF i + 1 > Len(t) THEN Len(t) + 1
                    ELSE IF t[i] = STAR /\ t[i + 1] = SLASH THEN i + 2 ELSE EndOfBlock(t, i + 1)
\* a backslash, white space, the end of a line
RECURSIVE LastBreak(_, _, _)
LastBreak(t, i, j) == IF j <= i THEN 0 ELSE IF t[j - 1] \in {NL, CR} THEN j ELSE LastBreak(t, i, j - 1)
Joined(t, i) ==
  IF t[i] # BS THEN 0
  ELSE LET w == Run(t, i + 1, "space") IN
       IF InText(t, w) /\ t[w] = FF THEN w + 1 ELSE LastBreak(t, i + 1, w)
Skipped(t, i) ==
  IF Space(t[i]) THEN Run(t, i, "space")
  ELSE IF t[i] = BS THEN Joined(t, i)
  ELSE IF t[i] = SLASH /\ InText(t, i + 1) /\ t[i + 1] = SLASH THEN Run(t, i, "line")
  ELSE IF t[i] = SLASH /\ InText(t, i + 1) /\ t[i + 1] = STAR THEN EndOfBlock(t, i + 2)
  ELSE 0

RECURSIVE Scan(_, _)
Scan(t, i) ==
  IF ~InText(t, i) THEN <<>>
  ELSE LET S == {Word(t, i), Sigil(t, i), Number(t, i), Text(t, i), Sign(t, i)}
           e == CHOOSE x \in S : \A y \in S : y <= x
           k == Skipped(t, i)
       IN IF e = 0 /\ k = 0 THEN <<<<>>>>     \* no token: the empty one
          ELSE IF k > e THEN Scan(t, k)
          ELSE <<SubSeq(t, i, e - 1)>> \o Scan(t, e)

Neutral(a, s, b) == Scan(a \o s \o b, 1) = (IF a = <<>> THEN <<>> ELSE <<a>>) \o (IF b = <<>> THEN <<>> ELSE <<b>>)
=============================================================================
