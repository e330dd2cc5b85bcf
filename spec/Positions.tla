------------------------------ MODULE Positions ------------------------------
(* Where the Position literals of a source text are.  A scanner walks over    *)
(* the text token by token, as the lexical rules of the language cut it, with *)
(* the line and column it stands at; the tokens of a Position literal are     *)
(* collected as they come by.  At the end the collected literals are the      *)
(* listing: start, end (of the closing >), name, tiles, half tiles.           *)
(* Input: [cases |-> <<[id, t, list, params, edits]>>]; texts as code points; *)
(*   list   the recorded listing: <<[sl, sc, el, ec, name, x, xo, y, yo]>>    *)
(*   params the marks in the parameters of the compiled program (names are    *)
(*          unique in the text): <<[name, x, xo, y, yo]>>                     *)
(*   edits  <<[from, to, before, after]>>: ops (opcode and parameters, as     *)
(*          text) before and after the delimited span was replaced            *)
EXTENDS Literals, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.VERIF_IN).cases
TAB == 9  MINUS == 45  DOT == 46
Digits == 48..57
Letters == (65..90) \cup (97..122) \cup {95}
IdChars == Letters \cup Digits
Spaces == {SP, TAB, NL, CR}
PositionWord == <<80, 111, 115, 105, 116, 105, 111, 110>>

RECURSIVE While(_, _, _)
While(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN While(t, i + 1, S) ELSE i
RECURSIVE Until(_, _, _)
Until(t, i, S) == IF i <= Len(t) /\ t[i] \notin S THEN Until(t, i + 1, S) ELSE i
RECURSIVE Find2(_, _, _, _)
Find2(t, a, b, i) == IF i + 1 > Len(t) THEN 0 ELSE IF t[i] = a /\ t[i + 1] = b THEN i ELSE Find2(t, a, b, i + 1)
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0

\* kind of the token at i and the position behind it
Token(t, i) ==
  LET c == t[i] d == At(t, i + 1) IN
  IF c \in Spaces THEN <<"skip", While(t, i, Spaces)>>
  ELSE IF c = BS THEN <<"skip", i + 1>>
  ELSE IF c = FF THEN <<"skip", i + 1>>
  ELSE IF c = 47 /\ d = 47 THEN <<"skip", Until(t, i, {CR, NL})>>
  ELSE IF c = 47 /\ d = 42 THEN LET e == Find2(t, 42, 47, i + 2) IN <<"skip", IF e = 0 THEN Len(t) + 1 ELSE e + 2>>
  ELSE IF c \in {DQ, SQ} THEN
    (IF Is3(t, i) /\ Find3(t, c, i + 3) > 0 THEN <<"multi", Find3(t, c, i + 3) + 3>>
     ELSE LET e == Close(t, c, i + 1) IN IF e > 0 THEN <<"string", e + 1>> ELSE <<"other", i + 1>>)
  ELSE IF c \in {36, 126} /\ d \in Letters THEN <<"other", While(t, i + 1, IdChars)>>
  ELSE IF c \in Letters THEN LET e == While(t, i, IdChars) IN <<IF SubSeq(t, i, e - 1) = PositionWord THEN "position" ELSE "other", e>>
  ELSE IF c \in Digits \/ (c \in {MINUS, DOT} /\ (d \in Digits \/ d = DOT)) THEN <<"number", While(t, i + 1, IdChars \cup {DOT})>>
  ELSE <<CASE c = 60 -> "<" [] c = 62 -> ">" [] c = 44 -> "," [] OTHER -> "other", i + 1>>

\* the tokens of a literal, in order
Shape == <<"position", "<", "string", ",", "number", ",", "number", ">">>

RECURSIVE Walk(_, _, _, _)
\* line and column after the characters from i to e - 1
Walk(t, i, e, lc) == IF i >= e THEN lc ELSE Walk(t, i + 1, e, IF t[i] = NL THEN <<lc[1] + 1, 0>> ELSE <<lc[1], lc[2] + 1>>)

VARIABLES c, i, lc, st, m, out
vars == <<c, i, lc, st, m, out>>
Blank0 == [sl |-> 0, sc |-> 0, el |-> 0, ec |-> 0, name |-> <<>>, x |-> 0, xo |-> 0, y |-> 0, yo |-> 0]
Init == c \in 1..Len(C) /\ i = 1 /\ lc = <<0, 0>> /\ st = 0 /\ m = Blank0 /\ out = <<>>
Tile(p) == Coord(p).rel
Half(p) == IF Coord(p).half THEN 2 ELSE 0
Scan ==
  /\ st >= 0 /\ i <= Len(C[c].t)
  /\ LET t == C[c].t
         k == Token(t, i)
         s == SubSeq(t, i, k[2] - 1)
     IN /\ i' = k[2]
        /\ lc' = Walk(t, i, k[2], lc)
        /\ IF k[1] = "skip" \/ (st = 0 /\ k[1] # "position") THEN UNCHANGED <<st, m, out>>
           ELSE IF k[1] # Shape[st + 1] THEN st' = -1 /\ UNCHANGED <<m, out>>
           ELSE /\ st' = (st + 1) % 8
                /\ m' = CASE st = 0 -> [Blank0 EXCEPT !.sl = lc[1], !.sc = lc[2]]
                          [] st = 2 -> [m EXCEPT !.name = StringValue(s)]
                          [] st = 4 -> [m EXCEPT !.x = Tile(s), !.xo = Half(s)]
                          [] st = 6 -> [m EXCEPT !.y = Tile(s), !.yo = Half(s)]
                          [] st = 7 -> [m EXCEPT !.el = lc[1], !.ec = lc[2]]
                          [] OTHER -> m
                /\ out' = IF st = 7 THEN Append(out, m') ELSE out
  /\ UNCHANGED c
Next == Scan
Spec == Init /\ [][Next]_vars

\* ---- what was recorded, against it
Done == i > Len(C[c].t) \/ st < 0
SameSpan(a, b) == a.sl = b.sl /\ a.sc = b.sc /\ a.el = b.el /\ a.ec = b.ec
SameMark(a, b) == a.name = b.name /\ a.x = b.x /\ a.xo = b.xo /\ a.y = b.y /\ a.yo = b.yo
ListBad(l) ==
  IF Len(l) # Len(out) THEN "the listing has another number of entries than there are literals"
  ELSE IF \E k \in 1..Len(l) : ~SameSpan(l[k], out[k]) THEN "an entry has another start or end than its literal"
  ELSE IF \E k \in 1..Len(l) : ~SameMark(l[k], out[k]) THEN "an entry has another name or coordinate than its literal"
  ELSE ""
ParamsBad(p) == IF \A a \in {p[k] : k \in 1..Len(p)} : \E k \in 1..Len(out) : SameMark(a, out[k]) THEN ""
                ELSE "a compiled mark has another value than the literals of the text"
EditBad(e) ==
  IF e.after = [r \in 1..Len(e.before) |-> [q \in 1..Len(e.before[r]) |-> [z \in 1..Len(e.before[r][q]) |->
                 IF e.before[r][q][z] = e.from THEN e.to ELSE e.before[r][q][z]]]]
  THEN "" ELSE "replacing the span of a mark changed something else than that mark"
Say(b, x) == b = "" \/ PrintT(ToJson([id |-> C[c].id, clause |-> b, x |-> x]))
Report == Done =>
  /\ Say(IF st # 0 THEN "the text is not cut into literals as the scanner expects" ELSE "", 0)
  /\ Say(ListBad(C[c].list), 0)
  /\ Say(ParamsBad(C[c].params), 0)
  /\ \A k \in 1..Len(C[c].edits) : Say(EditBad(C[c].edits[k]), k)
=============================================================================
