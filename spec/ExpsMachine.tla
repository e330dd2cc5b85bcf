---------------------------- MODULE ExpsMachine ----------------------------
(* The abstract machine of the ExplorerScript source language, after          *)
(* docs/language_spec.rst.  A program is a table of nodes (statements) and    *)
(* blocks (see harness/flatten.py).  A state is a control point x and a stack *)
(* k of macro call nodes (innermost first):                                   *)
(*   <<"in", n, 0, 0>>    about to run node n                                 *)
(*   <<"x", n, 0, 0>>     the operation itself, after its inline context op   *)
(*   <<"cond", n, a, j>>  about to test condition j of arm a of node n        *)
(*   <<"condx", n, a, j>> same, after the condition's inline context          *)
(*   <<"case", n, j, 0>>  about to test the header of case j of switch n      *)
(*   <<"msg", n, j, 0>>   about to emit text case number j of message switch  *)
(*   <<"af", n, 0, 0>>    node n is done                                      *)
(*   <<"blk", b, j, 0>>   about to run statement j of block b                 *)
EXTENDS SsbMachine

P(k, n, a, j, stk) == [x |-> <<k, n, a, j>>, k |-> stk]

OpCode(s) ==
  CASE s = "FALSE" -> "i:0" [] s = "TRUE" -> "i:1" [] s = "==" -> "i:2" [] s = ">" -> "i:3"
    [] s = "<" -> "i:4" [] s = ">=" -> "i:5" [] s = "<=" -> "i:6" [] s = "!=" -> "i:7"
    [] s = "&" -> "i:8" [] s = "^" -> "i:9" [] s = "&<<" -> "i:10"
AsgCode(s) ==
  CASE s = "=" -> "i:0" [] s = "-=" -> "i:1" [] s = "+=" -> "i:2" [] s = "*=" -> "i:3" [] s = "/=" -> "i:4"
CtxName(c) ==
  CASE c = "actor" -> "lives" [] c = "object" -> "object" [] c = "performer" -> "performer"

\* value of parameter p under the macro calls on the stack
RECURSIVE Res(_, _, _)
Res(m, stk, p) ==
  IF stk = <<>> THEN p
  ELSE LET bind == m.nodes[Head(stk)].bind IN
       IF p \in DOMAIN bind THEN Res(m, Tail(stk), bind[p]) ELSE p
ResAll(m, stk, ps) == [i \in 1..Len(ps) |-> Res(m, stk, ps[i])]

Op(n, p) == [t |-> "op", n |-> n, p |-> p]
Test(n, p) == [t |-> "test", n |-> n, p |-> p]

\* ---- documented opcode and parameter order of every condition -------------
CondObs(m, stk, c) ==
  LET R(p) == Res(m, stk, p) IN
  CASE c.k = "op" /\ c.isv -> Test("BranchVariable", <<R(c.var), OpCode(c.op), R(c.val)>>)
    [] c.k = "op" /\ ~c.isv /\ c.op = "==" -> Test("Branch", <<R(c.var), R(c.val)>>)
    [] c.k = "op" /\ ~c.isv /\ c.op # "==" -> Test("BranchValue", <<R(c.var), OpCode(c.op), R(c.val)>>)
    [] c.k = "bit" /\ R(c.var) = m.perf -> Test("BranchPerformance", <<c.idx, IF c.neg THEN "i:0" ELSE "i:1">>)
    [] c.k = "bit" /\ R(c.var) # m.perf -> Test("BranchBit", <<R(c.var), c.idx>>)
    [] c.k = "neg" -> Test(CASE c.w = "debug" -> "BranchDebug" [] c.w = "edit" -> "BranchEdit"
                             [] c.w = "variation" -> "BranchVariation",
                           <<IF c.neg THEN "i:0" ELSE "i:1">>)
    [] c.k = "scn" -> Test(CASE c.op = "==" -> "BranchScenarioNow" [] c.op = ">=" -> "BranchScenarioNowAfter"
                             [] c.op = "<=" -> "BranchScenarioNowBefore" [] c.op = ">" -> "BranchScenarioAfter"
                             [] c.op = "<" -> "BranchScenarioBefore",
                           <<R(c.var), c.a, c.b>>)
    [] c.k = "operation" -> Test(c.name, ResAll(m, stk, c.params))

\* ---- assignments ----------------------------------------------------------
AsgObs(m, stk, a) ==
  LET R(p) == Res(m, stk, p) IN
  CASE a.f = "clear" -> Op("flag_Clear", <<R(a.var)>>)
    [] a.f = "init" -> Op("flag_Initial", <<R(a.var)>>)
    [] a.f = "resetdr" -> Op("flag_ResetDungeonResult", <<>>)
    [] a.f = "resetscn" -> Op("flag_ResetScenario", <<R(a.var)>>)
    [] a.f = "advlog" -> Op("flag_SetAdventureLog", <<R(a.val)>>)
    [] a.f = "dmode" -> Op("flag_SetDungeonMode", <<R(a.var), R(a.val)>>)
    [] a.f = "scn" -> Op("flag_SetScenario", <<R(a.var), a.sa, a.sb>>)
    [] a.f = "reg" /\ a.idx # "" /\ R(a.var) = m.perf -> Op("flag_SetPerformance", <<a.idx, R(a.val)>>)
    [] a.f = "reg" /\ a.idx # "" /\ R(a.var) # m.perf -> Op("flag_CalcBit", <<R(a.var), a.idx, R(a.val)>>)
    [] a.f = "reg" /\ a.idx = "" /\ a.isv -> Op("flag_CalcVariable", <<R(a.var), AsgCode(a.op), R(a.val)>>)
    [] a.f = "reg" /\ a.idx = "" /\ ~a.isv /\ a.op = "=" -> Op("flag_Set", <<R(a.var), R(a.val)>>)
    [] a.f = "reg" /\ a.idx = "" /\ ~a.isv /\ a.op # "=" -> Op("flag_CalcValue", <<R(a.var), AsgCode(a.op), R(a.val)>>)

\* ---- switch and case headers ----------------------------------------------
SwitchObs(m, stk, h) ==
  LET R(p) == Res(m, stk, p) IN
  CASE h.k = "var" -> Op("Switch", <<R(h.v)>>)
    [] h.k = "scn" /\ h.i = 0 -> Op("SwitchScenario", <<R(h.v)>>)
    [] h.k = "scn" /\ h.i = 1 -> Op("SwitchScenarioLevel", <<R(h.v)>>)
    [] h.k = "random" -> Op("SwitchRandom", <<R(h.v)>>)
    [] h.k = "dmode" -> Op("SwitchDungeonMode", <<R(h.v)>>)
    [] h.k = "sector" -> Op("SwitchSector", <<>>)
    [] h.k = "operation" -> Op(h.name, ResAll(m, stk, h.params))

CaseObs(m, stk, sw, c) ==
  LET R(p) == Res(m, stk, p) IN
  CASE c.k = "val" -> Test("Case", <<R(c.v)>>)
    [] c.k = "menu" -> Test("CaseMenu", <<R(c.v)>>)
    [] c.k = "menu2" -> Test("CaseMenu2", <<R(c.v)>>)
    [] c.k = "op" /\ c.isv -> Test("CaseVariable", <<OpCode(c.op), R(c.v)>>)
    [] c.k = "op" /\ ~c.isv /\ sw.h.k = "scn" /\ sw.h.i = 0 -> Test("CaseScenario", <<OpCode(c.op), R(c.v)>>)
    [] c.k = "op" /\ ~c.isv /\ ~(sw.h.k = "scn" /\ sw.h.i = 0) -> Test("CaseValue", <<OpCode(c.op), R(c.v)>>)

\* text cases: every case in order, then the default
MsgOrder(nd) ==
  LET cs == nd.cases
      I == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : ~cs[i].def)
      D == SelectSeq([i \in 1..Len(cs) |-> i], LAMBDA i : cs[i].def)
  IN I \o D

\* ---- structure ------------------------------------------------------------
RECURSIVE Enclosing(_, _, _)
\* innermost node enclosing block b through a block of one of the given roles
Enclosing(m, b, roles) ==
  LET bl == m.blocks[b] IN
  IF bl.r \in roles THEN bl.o
  ELSE IF bl.o = 0 THEN 0
  ELSE Enclosing(m, m.nodes[bl.o].b, roles)

InCtx(m, n) == m.blocks[m.nodes[n].b].r = "with"

Blk(b, stk) == P("blk", b, 1, 0, stk)
Af(n, stk) == P("af", n, 0, 0, stk)

EndBlock(m, b, stk) ==
  LET bl == m.blocks[b] IN
  CASE bl.r = "routine" -> OFFEND
    [] bl.r = "macro" -> Af(Head(stk), Tail(stk))
    [] bl.r = "with" -> Af(bl.o, stk)
    [] bl.r = "if" -> Af(bl.o, stk)
    [] bl.r = "case" -> IF bl.i < Len(m.nodes[bl.o].cases)
                        THEN Blk(m.nodes[bl.o].cases[bl.i + 1].body, stk)
                        ELSE Af(bl.o, stk)
    [] bl.r = "loop" -> LET o == m.nodes[bl.o] IN
                        (CASE o.k = "forever" -> Blk(o.body, stk)
                           [] o.k = "while" -> P("cond", bl.o, 1, 1, stk)
                           [] o.k = "for" -> Blk(o.inc, stk))
    [] bl.r = "forinit" -> P("cond", bl.o, 1, 1, stk)
    [] bl.r = "forinc" -> P("cond", bl.o, 1, 1, stk)

\* first case header to test at or after index j; default last
RECURSIVE FirstCase(_, _, _, _)
FirstCase(m, n, j, stk) ==
  LET cs == m.nodes[n].cases IN
  IF j > Len(cs)
  THEN LET D == {i \in 1..Len(cs) : cs[i].k = "default"} IN
       IF D = {} THEN Af(n, stk) ELSE Blk(cs[CHOOSE i \in D : TRUE].body, stk)
  ELSE IF cs[j].k = "default" THEN FirstCase(m, n, j + 1, stk)
  ELSE P("case", n, j, 0, stk)

\* where node n goes silently, or the state itself when it is observable
ArmFail(m, n, a, stk) ==   \* no condition of arm a makes its body run
  LET nd == m.nodes[n] IN
  CASE nd.k = "if" -> IF a < Len(nd.arms) THEN P("cond", n, a + 1, 1, stk)
                      ELSE IF nd.els # 0 THEN Blk(nd.els, stk) ELSE Af(n, stk)
    [] nd.k \in {"while", "for"} -> Af(n, stk)
ArmBody(m, n, a, stk) ==
  LET nd == m.nodes[n] IN
  IF nd.k = "if" THEN Blk(nd.arms[a].body, stk) ELSE Blk(nd.body, stk)

CondSucc(m, n, a, j, stk, taken) ==
  LET arm == m.nodes[n].arms[a] IN
  IF taken THEN IF arm.neg THEN ArmFail(m, n, a, stk) ELSE ArmBody(m, n, a, stk)
  ELSE IF j < Len(arm.conds) THEN P("cond", n, a, j + 1, stk)
  ELSE IF arm.neg THEN ArmBody(m, n, a, stk) ELSE ArmFail(m, n, a, stk)

LoopNode(m, n) == Enclosing(m, m.nodes[n].b, {"loop"})
Continue(m, n, stk) ==
  LET l == LoopNode(m, n)  o == m.nodes[l] IN
  CASE o.k = "forever" -> Blk(o.body, stk)
    [] o.k = "while" -> P("cond", l, 1, 1, stk)
    [] o.k = "for" -> Blk(o.inc, stk)

Silent(m, s) ==   \* one silent step; s itself if s is observable
  LET x == s.x  n == x[2]  stk == s.k IN
  CASE x[1] = "blk" -> LET bl == m.blocks[n] IN
         IF x[3] <= Len(bl.ss) THEN P("in", bl.ss[x[3]], 0, 0, stk) ELSE EndBlock(m, n, stk)
    [] x[1] = "af" -> P("blk", m.nodes[n].b, m.nodes[n].j + 1, 0, stk)
    [] x[1] = "in" ->
       LET nd == m.nodes[n]  kd == nd.k IN
       (CASE kd = "label" -> Af(n, stk)
         [] kd = "jump" -> IF nd.to = 0 THEN STUCK ELSE P("in", nd.to, 0, 0, stk)
         [] kd = "return" -> IF stk # <<>> THEN Af(Head(stk), Tail(stk)) ELSE s
         [] kd = "break" -> Af(Enclosing(m, nd.b, {"case"}), stk)
         [] kd = "break_loop" -> Af(LoopNode(m, n), stk)
         [] kd = "continue" -> Continue(m, n, stk)
         [] kd = "if" -> P("cond", n, 1, 1, stk)
         [] kd = "forever" -> Blk(nd.body, stk)
         [] kd = "while" -> P("cond", n, 1, 1, stk)
         [] kd = "for" -> Blk(nd.init, stk)
         [] kd = "mcall" -> Blk(nd.body, <<n>> \o stk)
         [] OTHER -> s)
    [] OTHER -> s

RECURSIVE SrcSettle(_, _, _)
SrcSettle(m, s, fuel) ==
  IF Special(s) THEN s
  ELSE IF fuel = 0 THEN DIVERGE
  ELSE LET s2 == Silent(m, s) IN
       IF s2 = s THEN (IF s.x[1] = "blk" \/ (s.x[1] = "in" /\ m.nodes[s.x[2]].k \in {"jump"}) THEN DIVERGE ELSE s)
       ELSE SrcSettle(m, s2, fuel - 1)

RECURSIVE SrcStart(_, _)
SrcStart(m, r) == IF r = 0 THEN STOP
                  ELSE IF m.routines[r].alias THEN SrcStart(m, r - 1)
                  ELSE Blk(m.routines[r].body, <<>>)

HasCtx(r) == r.ctx # ""
CtxObs(m, stk, r) == Op(CtxName(r.ctx), <<Res(m, stk, r.ctxv)>>)

SrcObs(m, s) ==
  LET x == s.x  n == x[2]  nd == m.nodes[n]  stk == s.k  kd == nd.k IN
  CASE x[1] = "cond" -> LET c == nd.arms[x[3]].conds[x[4]] IN
         IF c.k = "operation" /\ HasCtx(c) THEN CtxObs(m, stk, c) ELSE CondObs(m, stk, c)
    [] x[1] = "condx" -> CondObs(m, stk, nd.arms[x[3]].conds[x[4]])
    [] x[1] = "case" -> CaseObs(m, stk, nd, nd.cases[x[3]])
    [] x[1] = "msg" -> LET c == nd.cases[MsgOrder(nd)[x[3]]] IN
         IF c.def THEN Op("DefaultText", <<Res(m, stk, c.s)>>)
         ELSE Op("CaseText", <<Res(m, stk, c.v), Res(m, stk, c.s)>>)
    [] x[1] = "in" /\ kd = "op" -> IF HasCtx(nd) THEN CtxObs(m, stk, nd) ELSE Op(nd.name, ResAll(m, stk, nd.params))
    [] x[1] = "x" /\ kd = "op" -> Op(nd.name, ResAll(m, stk, nd.params))
    [] x[1] = "in" /\ kd = "with" -> CtxObs(m, stk, nd)
    [] x[1] = "in" /\ kd = "asg" -> AsgObs(m, stk, nd)
    [] x[1] = "in" /\ kd = "return" -> Op("Return", <<>>)
    [] x[1] = "in" /\ kd = "end" -> Op("End", <<>>)
    [] x[1] = "in" /\ kd = "hold" -> Op("Hold", <<>>)
    [] x[1] = "in" /\ kd = "call" -> Test("Call", <<>>)
    [] x[1] = "in" /\ kd = "switch" ->
         IF nd.h.k = "operation" /\ HasCtx(nd.h) THEN CtxObs(m, stk, nd.h) ELSE SwitchObs(m, stk, nd.h)
    [] x[1] = "x" /\ kd = "switch" -> SwitchObs(m, stk, nd.h)
    [] x[1] = "in" /\ kd = "msgsw" -> Op(nd.name, <<Res(m, stk, nd.arg)>>)

AfterOp(m, n, stk, name, inctx) ==
  IF name \in FlowEnd /\ ~inctx THEN STOP ELSE Af(n, stk)

SrcSucc(m, s, taken) ==
  LET x == s.x  n == x[2]  nd == m.nodes[n]  stk == s.k  kd == nd.k IN
  CASE x[1] = "cond" -> LET c == nd.arms[x[3]].conds[x[4]] IN
         IF c.k = "operation" /\ HasCtx(c) THEN P("condx", n, x[3], x[4], stk)
         ELSE CondSucc(m, n, x[3], x[4], stk, taken)
    [] x[1] = "condx" -> CondSucc(m, n, x[3], x[4], stk, taken)
    [] x[1] = "case" -> IF taken THEN Blk(nd.cases[x[3]].body, stk) ELSE FirstCase(m, n, x[3] + 1, stk)
    [] x[1] = "msg" -> IF x[3] < Len(nd.cases) THEN P("msg", n, x[3] + 1, 0, stk) ELSE Af(n, stk)
    [] x[1] = "in" /\ kd = "op" -> IF HasCtx(nd) THEN P("x", n, 0, 0, stk)
                                   ELSE AfterOp(m, n, stk, nd.name, InCtx(m, n))
    [] x[1] = "x" /\ kd = "op" -> Af(n, stk)
    [] x[1] = "in" /\ kd = "with" -> Blk(nd.body, stk)
    [] x[1] = "in" /\ kd = "asg" -> Af(n, stk)
    [] x[1] = "in" /\ kd \in {"return", "end", "hold"} -> IF InCtx(m, n) THEN Af(n, stk) ELSE STOP
    [] x[1] = "in" /\ kd = "call" -> IF taken THEN (IF nd.to = 0 THEN STUCK ELSE P("in", nd.to, 0, 0, stk)) ELSE Af(n, stk)
    [] x[1] = "in" /\ kd = "switch" ->
         IF nd.h.k = "operation" /\ HasCtx(nd.h) THEN P("x", n, 0, 0, stk) ELSE FirstCase(m, n, 1, stk)
    [] x[1] = "x" /\ kd = "switch" -> FirstCase(m, n, 1, stk)
    [] x[1] = "in" /\ kd = "msgsw" -> IF Len(nd.cases) = 0 THEN Af(n, stk) ELSE P("msg", n, 1, 0, stk)
=============================================================================
