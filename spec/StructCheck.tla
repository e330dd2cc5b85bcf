------------------------------ MODULE StructCheck ------------------------------
(* What the text of a decompiled flat structured program has to look like:    *)
(* no jump statement, and every operation and test the source writes down is  *)
(* written down exactly as often.  Input: [cases |-> <<[id, src, out]>>] with *)
(* the node tables of both programs (see ExpsMachine).                        *)
EXTENDS ExpsMachine, Json, IOUtils, TLC, FiniteSets

Cases == JsonDeserialize(IOEnv.VERIF_IN).cases
VARIABLE c
Init == c \in 1..Len(Cases)
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c

\* the states in which node n does something observable
States(m, n) ==
  LET nd == m.nodes[n]  k == nd.k  At(x, a, j) == <<P(x, n, a, j, <<>>)>> IN
  CASE k = "op" -> At("in", 0, 0) \o (IF HasCtx(nd) THEN At("x", 0, 0) ELSE <<>>)
    [] k \in {"asg", "with", "return", "end", "hold"} -> At("in", 0, 0)
    [] k = "msgsw" -> [i \in 1..Len(nd.cases) + 1 |-> P(IF i = 1 THEN "in" ELSE "msg", n, i - 1, 0, <<>>)]
    [] k = "switch" -> At("in", 0, 0) \o (IF nd.h.k = "operation" /\ HasCtx(nd.h) THEN At("x", 0, 0) ELSE <<>>)
    [] OTHER -> <<>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Tests(m, n) ==
  LET nd == m.nodes[n] IN
  CASE nd.k \in {"if", "while", "for"} ->
         Cat([a \in 1..Len(nd.arms) |-> [j \in 1..Len(nd.arms[a].conds) |-> P("cond", n, a, j, <<>>)]])
    [] nd.k = "switch" -> LET I == SelectSeq([i \in 1..Len(nd.cases) |-> i], LAMBDA i : nd.cases[i].k # "default") IN
                          [i \in 1..Len(I) |-> P("case", n, I[i], 0, <<>>)]
    [] OTHER -> <<>>
Written(m) == LET ss == Cat([n \in 1..Len(m.nodes) |-> States(m, n) \o Tests(m, n)])
              IN [i \in 1..Len(ss) |-> SrcObs(m, ss[i])]
Count(o, s) == Cardinality({i \in 1..Len(s) : s[i] = o})

Report ==
  LET src == Written(Cases[c].src)  out == Written(Cases[c].out)
      J == {n \in 1..Len(Cases[c].out.nodes) : Cases[c].out.nodes[n].k = "jump"}
      bad == {i \in 1..Len(src) : Count(src[i], src) # Count(src[i], out)} IN
  /\ J # {} => PrintT(ToJson([id |-> Cases[c].id, clause |-> "jump statement", op |-> "", n |-> Cardinality(J)]))
  /\ bad # {} => LET i == CHOOSE k \in bad : TRUE IN
       PrintT(ToJson([id |-> Cases[c].id, clause |-> "not exactly once", op |-> src[i], n |-> Count(src[i], out)]))
  /\ Cases[c].src.nodes # <<>>
=============================================================================
