------------------------------ MODULE StaticGen -------------------------------
(* All small programs over an alphabet (VERIF_IN: [evs, max, depth, arms,     *)
(* leaves, nitems]), with the rules each of them breaks.                      *)
EXTENDS StaticRules, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLES st, evs, left
vars == <<st, evs, left>>
Ev(k) == [k |-> k, n |-> "", a |-> 0]
EndEv == Ev("end")
Init == /\ st = Step(Start, [k |-> "file", n |-> "main", a |-> 0])
        /\ evs = <<[k |-> "file", n |-> "main", a |-> 0]>> /\ left = P.nitems

Body == {"item", "if", "else", "loop", "case"}
Leaves == Simple \cup {"mcall", "str"}
Room == Len(evs) + Len(st.stk) < P.max
\* (a macro or routine without statements cannot be written; blocks can be empty)
Can(e) ==
  LET t == Top(st) IN
  CASE e.k \in {"routine", "macro"} -> t = "" /\ left > 0 /\ (e.k = "macro" => \A m \in st.macros : m[2] # e.n)
    [] e.k \in {"case", "default"} -> t \in {"switch", "msw"} /\ Last(st.stk).n < P.arms
    [] e.k = "str" -> t = "mcase" /\ Last(st.stk).n = 0
    [] e.k \in {"elif", "else"} -> t \in Body /\ st.last = "if" /\ Len(st.stk) < P.depth
    [] e.k \in {"if", "loop", "switch", "msw", "with"} -> t \in Body /\ Len(st.stk) < P.depth
    [] e.k = "end" -> t # "" /\ (t = "with" => Last(st.stk).n = 1) /\ (t = "item" => Last(st.stk).n > 0)
    [] e.k \in Simple -> t \in Body \/ (t = "with" /\ Last(st.stk).n = 0) \/ (t = "mcase" /\ Last(st.stk).n = 0 /\ e.k = "op")
    [] OTHER -> t \in Body

Next == \E i \in 0..Len(P.evs) :
  LET e == IF i = 0 THEN EndEv ELSE P.evs[i] IN
  /\ Can(e) /\ (i # 0 => Room)
  /\ e.k \in Leaves => Cardinality({j \in 1..Len(evs) : evs[j].k \in Leaves}) < P.leaves
  /\ st' = Step(st, e) /\ evs' = Append(evs, e)
  /\ left' = IF e.k \in {"routine", "macro"} THEN left - 1 ELSE left
Spec == Init /\ [][Next]_vars

Complete == st.stk = <<>> /\ st.routines # {}
Report == Complete => PrintT(ToJson([e |-> [j \in 1..Len(evs) |-> <<evs[j].k, evs[j].n, evs[j].a>>], r |-> SetToSeq(Final(st, "main"))]))
\* the machine never loses track of the blocks
Balanced == /\ st.stk = <<>> => st.item = "" /\ (Len(evs) = 1 \/ Last(evs).k = "end")
            /\ Cardinality({j \in 1..Len(evs) : evs[j].k = "end"}) + Len(st.stk)
               = Cardinality({j \in 1..Len(evs) : evs[j].k \in {"routine", "macro", "if", "elif", "else", "loop", "switch", "msw", "with", "case", "default"}})
=============================================================================
