---------------------------- MODULE DecMapPairs -----------------------------
(* What was printed for which op.  Equiv with a decompiled text as machine l   *)
(* and the input ops as machine r: every state in which both sides are about   *)
(* to do the same thing says at which header or statement of the text the op   *)
(* was printed.  With ops on both sides (input and recompiled text) it says    *)
(* which op became which.  Prints:                                            *)
(*   op:   [verdict |-> "op", id, i (op), own, p]  own: it is the first op of  *)
(*          its statement or header; p: where that begins                      *)
(*   jump: [verdict |-> "jump", id, js (Jump ops), src <<[k, p]>> (statements  *)
(*          that jump, passed at the same time), after (directly after a plain *)
(*          operation)]                                                        *)
(*   pair: [verdict |-> "pair", id, i, j]                                      *)
(* DecMapRules checks the recorded entries against these.                      *)
EXTENDS Equiv

PosOf(m, s) ==
  LET x == s.x nd == m.nodes[x[2]] IN
  CASE x[1] \in {"cond", "condx"} -> IF nd.k = "if" THEN nd.arms[x[3]].pos ELSE nd.pos
    [] x[1] = "case" -> nd.cases[x[3]].kpos
    [] x[1] = "msg" -> nd.cases[MsgOrder(nd)[x[3]]].kpos
    [] OTHER -> nd.pos
Own(m, s) == ~(s.x[1] = "cond" /\ s.x[4] > 1) /\ s.x[1] # "condx" /\ s.x[1] # "x"

RECURSIVE SsbWay(_, _, _)
SsbWay(m, s, fuel) ==
  IF Special(s) \/ fuel = 0 THEN <<>>
  ELSE LET op == m.ops[s.x[2]] IN
    IF op.n # "Jump" \/ op.t <= 0 THEN <<>> ELSE <<s.x[2]>> \o SsbWay(m, SsbAt(op.t, 0), fuel - 1)
JumpLike == {"jump", "break", "continue", "break_loop"}
RECURSIVE SrcWay(_, _, _)
SrcWay(m, s, fuel) ==
  IF Special(s) \/ fuel = 0 THEN <<>>
  ELSE LET s2 == Silent(m, s) IN
    (IF s.x[1] = "in" /\ m.nodes[s.x[2]].k \in JumpLike THEN <<[k |-> m.nodes[s.x[2]].k, p |-> m.nodes[s.x[2]].pos]>> ELSE <<>>)
      \o (IF s2 = s THEN <<>> ELSE SrcWay(m, s2, fuel - 1))
Way(p, from, to, after) ==
  LET js == SsbWay(R(p), to, Fuel(R(p))) src == SrcWay(L(p), from, Fuel(L(p))) IN
  (L(p).kind = "src" /\ (js # <<>> \/ src # <<>>)) => PrintT(ToJson([verdict |-> "jump", id |-> PAIRS[p].id, js |-> js, src |-> src, after |-> after]))

Live == ~Special(a) /\ ~Special(b) /\ Same(pi, a, b)
Facts ==
  /\ Live => PrintT(ToJson(IF L(pi).kind = "ssb" THEN [verdict |-> "pair", id |-> PAIRS[pi].id, i |-> a.x[2], j |-> b.x[2]]
                           ELSE [verdict |-> "op", id |-> PAIRS[pi].id, i |-> b.x[2], own |-> Own(L(pi), a), p |-> PosOf(L(pi), a)]))
  /\ (a = DIVERGE \/ ~Same(pi, a, b)) => PrintT(ToJson([verdict |-> "bad", id |-> PAIRS[pi].id]))
  /\ Live => \A tk \in (IF Obs(L(pi), a).t = "test" THEN {TRUE, FALSE} ELSE {FALSE}) :
       Way(pi, Succ(L(pi), a, tk), Succ(R(pi), b, tk), Obs(L(pi), a).t = "op" /\ L(pi).kind = "src" /\ L(pi).nodes[a.x[2]].k \in {"op", "asg"})
ASSUME \A p \in 1..Len(PAIRS) : \A q \in 1..NRout(R(p)) : q <= NRout(L(p)) => Way(p, Start(L(p), q), Start(R(p), q), FALSE)
=============================================================================
