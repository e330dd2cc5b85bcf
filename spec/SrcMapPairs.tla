---------------------------- MODULE SrcMapPairs ----------------------------
(* The product of the source machine and the compiled ops (Equiv), read for   *)
(* what was written where: every state in which both sides are about to do    *)
(* the same thing says which piece of source the op came from, and every step *)
(* says which pieces of source the Jump ops passed on the way stand for.      *)
(* Prints one line per fact; SrcMapRules checks the recorded entries.         *)
(*   op:   [verdict |-> "op", id, i (index of the op), stk (calls, innermost  *)
(*          first), ps (positions the piece of source begins at)]             *)
(*   jump: [verdict |-> "jump", id, js (indexes of Jump ops), src <<[stk, ps]>>] *)
EXTENDS Equiv

Pos(m, s) ==
  LET x == s.x nd == m.nodes[x[2]] IN
  CASE x[1] \in {"cond", "condx"} -> <<nd.arms[x[3]].conds[x[4]].pos>>
    [] x[1] = "case" -> <<nd.cases[x[3]].pos>>
    [] x[1] = "msg" -> LET c == nd.cases[MsgOrder(nd)[x[3]]] IN <<c.pos>>
    [] x[1] \in {"in", "x"} /\ nd.k = "switch" -> <<nd.h.pos>>
    [] OTHER -> <<nd.pos>>

\* a Jump op may stand for any statement passed, for a block that encloses it or for the header of one
ArmsAt(nd) == [j \in 1..Len(nd.arms) |-> nd.arms[j].pos] \o [j \in 1..Len(nd.arms) |-> nd.arms[j].conds[1].pos]
RECURSIVE Above(_, _)
Above(m, n) ==
  LET nd == m.nodes[n] bl == m.blocks[nd.b]
      own == <<nd.pos>> \o (CASE nd.k = "switch" -> <<nd.h.pos>> \o [j \in 1..Len(nd.cases) |-> nd.cases[j].pos] \o [j \in 1..Len(nd.cases) |-> nd.cases[j].kpos]
                             [] nd.k = "if" /\ nd.els # 0 -> <<nd.epos>> \o ArmsAt(nd)
                             [] nd.k \in {"if", "while", "for"} -> ArmsAt(nd)
                             [] OTHER -> <<>>)
  IN own \o (IF bl.o = 0 THEN <<>> ELSE Above(m, bl.o))

RECURSIVE SsbWay(_, _, _)
SsbWay(m, s, fuel) ==
  IF Special(s) \/ fuel = 0 THEN <<>>
  ELSE LET op == m.ops[s.x[2]] IN
    IF op.n # "Jump" \/ op.t <= 0 THEN <<>> ELSE <<s.x[2]>> \o SsbWay(m, SsbAt(op.t, 0), fuel - 1)

Piece(m, s) ==
  LET x == s.x IN
  IF x[1] = "blk" THEN (IF m.blocks[x[2]].o = 0 THEN <<>> ELSE <<[stk |-> s.k, ps |-> Above(m, m.blocks[x[2]].o)]>>)
  ELSE <<[stk |-> s.k, ps |-> Above(m, x[2])]>>
RECURSIVE SrcWay(_, _, _)
SrcWay(m, s, fuel) ==
  IF Special(s) \/ fuel = 0 THEN <<>>
  ELSE LET s2 == Silent(m, s) IN Piece(m, s) \o (IF s2 = s THEN <<>> ELSE SrcWay(m, s2, fuel - 1))

Way(from, to, first) ==
  LET js == SsbWay(R(pi), to, Fuel(R(pi))) IN
  js # <<>> => PrintT(ToJson([verdict |-> "jump", id |-> PAIRS[pi].id, js |-> js, src |-> first \o SrcWay(L(pi), from, Fuel(L(pi)))]))

Live == ~Special(a) /\ ~Special(b) /\ Same(pi, a, b)
Facts ==
  /\ Live => PrintT(ToJson([verdict |-> "op", id |-> PAIRS[pi].id, i |-> b.x[2], stk |-> a.k, ps |-> Pos(L(pi), a)]))
  /\ (a.x[1] = "offend" /\ ~Special(b)) => PrintT(ToJson([verdict |-> "op", id |-> PAIRS[pi].id, i |-> b.x[2], stk |-> <<>>, ps |-> <<>>]))
  /\ (a # DIVERGE /\ ~Same(pi, a, b)) => PrintT(ToJson([verdict |-> "bad", id |-> PAIRS[pi].id]))
  /\ Live => \A tk \in (IF Obs(L(pi), a).t = "test" THEN {TRUE, FALSE} ELSE {FALSE}) :
       Way(Succ(L(pi), a, tk), Succ(R(pi), b, tk), Piece(L(pi), a))
Starts == \A p \in 1..Len(PAIRS) : \A q \in 1..NRout(L(p)) :
  LET js == SsbWay(R(p), SsbStart(R(p), q), Fuel(R(p))) IN
  js # <<>> => PrintT(ToJson([verdict |-> "jump", id |-> PAIRS[p].id, js |-> js, src |-> SrcWay(L(p), SrcStart(L(p), q), Fuel(L(p)))]))
ASSUME Starts
=============================================================================
