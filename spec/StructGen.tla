------------------------------- MODULE StructGen -------------------------------
(* The flat structured programs: a routine is written statement by statement  *)
(* (plain statements, if chains, switches with break-terminated cases; blocks *)
(* hold plain statements only).  Every action writes one more piece of text.  *)
(* Input: [max |-> number of pieces].                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MAX == JsonDeserialize(IOEnv.VERIF_IN).max
VARIABLES prog,     \* finished statements
          cur,      \* the if chain or switch being written, or <<>>
          w         \* pieces written so far
vars == <<prog, cur, w>>

None == [k |-> ""]
Init == prog = <<>> /\ cur = None /\ w = 0
Put(c, k) == w + k <= MAX /\ cur' = c /\ w' = w + k /\ UNCHANGED prog
Plain == cur.k = "" /\ w < MAX /\ prog' = Append(prog, [k |-> "p"]) /\ w' = w + 1 /\ UNCHANGED cur

Arms == [n : 1..2, neg : BOOLEAN, b : 0..1]    \* conditions, not, statements of the block
OpenIf == cur.k = "" /\ \E a \in Arms : Put([k |-> "if", arms |-> <<a>>, els |-> -1], a.n + a.b)
ElseIf == cur.k = "if" /\ cur.els = -1 /\ \E a \in Arms : Put([cur EXCEPT !.arms = Append(@, a)], a.n + a.b)
Else == cur.k = "if" /\ cur.els = -1 /\ \E b \in 0..1 : Put([cur EXCEPT !.els = b], 1 + b)

\* cases: d is the default; b = -1: shares the block of the next case
OpenSwitch == cur.k = "" /\ Put([k |-> "sw", cs |-> <<>>], 1)
Defaults == \E i \in 1..Len(cur.cs) : cur.cs[i].d
Case == cur.k = "sw" /\ \E b \in -1..1 : Put([cur EXCEPT !.cs = Append(@, [d |-> FALSE, b |-> b])], 1)
Default == cur.k = "sw" /\ ~Defaults /\ \E b \in -1..1 : Put([cur EXCEPT !.cs = Append(@, [d |-> TRUE, b |-> b])], 1)

Complete == \/ cur.k = "if"
            \/ cur.k = "sw" /\ Len(cur.cs) > 0 /\ cur.cs[Len(cur.cs)].b # -1
Close == Complete /\ prog' = Append(prog, cur) /\ cur' = None /\ UNCHANGED w

Next == Plain \/ OpenIf \/ ElseIf \/ Else \/ OpenSwitch \/ Case \/ Default \/ Close
Spec == Init /\ [][Next]_vars

Report == cur.k = "" /\ prog # <<>> => PrintT(ToJson([prog |-> prog]))
=============================================================================
