------------------------------- MODULE Equiv -------------------------------
(* Product automaton.  Input (JSON, file named by the environment variable   *)
(* VERIF_IN): [machines |-> <<..>>, pairs |-> <<[id, l, r, tab, lim]>>].      *)
(* For every pair TLC explores every outcome of every test of every routine  *)
(* of machine l side by side with machine r.  The two behave alike iff no    *)
(* reachable product state disagrees on its observation.  Each disagreement  *)
(* is printed as a verdict; the state is then not explored further.          *)
EXTENDS ExpsMachine, Json, IOUtils

In == JsonDeserialize(IOEnv.VERIF_IN)
M == In.machines
PAIRS == In.pairs

Fuel(m) == IF m.kind = "ssb" THEN Len(m.ops) + 5 ELSE 4 * Len(m.nodes) + 4 * Len(m.blocks) + 50
Settle(m, s) == IF m.kind = "ssb" THEN SsbSettle(m, s, Fuel(m)) ELSE SrcSettle(m, s, Fuel(m))
Start(m, r) == IF m.kind = "ssb" THEN SsbStart(m, r) ELSE SrcStart(m, r)
Obs(m, s) == IF Special(s) THEN SpecialObs(s) ELSE IF m.kind = "ssb" THEN SsbObs(m, s) ELSE SrcObs(m, s)
Succ(m, s, tk) == IF s.x[1] = "offend" THEN STOP
                  ELSE IF m.kind = "ssb" THEN SsbSucc(m, s, tk) ELSE SrcSucc(m, s, tk)
NRout(m) == IF m.kind = "ssb" THEN Len(m.starts) ELSE Len(m.routines)

VARIABLES pi, r, a, b
vars == <<pi, r, a, b>>

L(p) == M[PAIRS[p].l]
R(p) == M[PAIRS[p].r]

Verdict(p, rec) == PrintT(ToJson([verdict |-> "bad", id |-> PAIRS[p].id] @@ rec))

\* ---- routine tables: [kind, id, name, tk, tv] per routine -----------------
\* expected by the source: routine i of the table is the one with id i-1
TabOK(p) ==
  LET l == L(p)  rr == R(p) IN
  /\ Len(l.table) = Len(rr.table)
  /\ \A i \in 1..Len(l.table) : l.table[i] = rr.table[i]

Init ==
  /\ pi \in 1..Len(PAIRS)
  /\ r \in 1..NRout(L(pi))
  /\ a = IF r <= NRout(R(pi)) THEN Settle(L(pi), Start(L(pi), r)) ELSE STOP
  /\ b = IF r <= NRout(R(pi)) THEN Settle(R(pi), Start(R(pi), r)) ELSE STOP

Same(p, x, y) == Obs(L(p), x) = Obs(R(p), y)

\* source divergence (an op-free cycle) is outside the claim
Next ==
  /\ a # STOP
  /\ a # DIVERGE
  /\ Same(pi, a, b)
  /\ \E tk \in (IF Obs(L(pi), a).t = "test" THEN {TRUE, FALSE} ELSE {FALSE}) :
       /\ a' = Settle(L(pi), Succ(L(pi), a, tk))
       /\ b' = Settle(R(pi), Succ(R(pi), b, tk))
  /\ UNCHANGED <<pi, r>>

Spec == Init /\ [][Next]_vars

Report ==
  IF a = DIVERGE THEN PrintT(ToJson([verdict |-> "diverge", id |-> PAIRS[pi].id]))
  ELSE IF Same(pi, a, b) THEN TRUE
  ELSE Verdict(pi, [clause |-> "behaviour", routine |-> r, left |-> a.x, leftstack |-> a.k, right |-> b.x,
                    lobs |-> Obs(L(pi), a), robs |-> Obs(R(pi), b)])

ReportTab == 
  \A p \in 1..Len(PAIRS) :
     PAIRS[p].tab => (TabOK(p) \/ Verdict(p, [clause |-> "routine table", left |-> L(p).table, right |-> R(p).table]))
ASSUME ReportTab

\* the same, as an invariant, for error traces on a single case
Agree == a = DIVERGE \/ Same(pi, a, b)
=============================================================================
