------------------------------ MODULE SrcMapGen -------------------------------
(* All small source maps and everything that can be done with them: histories *)
(* of trips through the serialised form and rewritings.  Checks the laws of   *)
(* rewriting and prints the histories for replay.                             *)
EXTENDS SrcMap, TLC, Json

CONSTANTS N, Steps

Offs == 0..(N - 1)
Wide == 0..N
Rets == -1..N
Entry(o) == {{}} \cup {{[o |-> o, k |-> "d", f |-> <<o>>]}} \cup {{[o |-> o, k |-> "m", f |-> <<o>>, ret |-> r]} : r \in Rets}
Injective(m) == \A p, q \in m : p[2] = q[2] => p = q
Rewrites == {m \in UNION {{{<<o, g[o]>> : o \in D} : g \in [D -> Wide]} : D \in SUBSET Wide} : Injective(m)}

Trip == {<<-9, -9>>}   \* stands for the trip through the serialised form

VARIABLES base, cur, hist, n
vars == <<base, cur, hist, n>>
Init == base = {} /\ cur = {} /\ hist = <<>> /\ n = 0
Grow == \E e \in Entry(n) : base' = base \cup e /\ cur' = base' /\ UNCHANGED hist
Act == UNCHANGED base /\ \/ cur' = cur /\ hist' = Append(hist, Trip)
                         \/ \E m \in Rewrites : cur' = Rewritten(cur, m) /\ hist' = Append(hist, m)
Next == n < N + Steps /\ n' = n + 1 /\ IF n < N THEN Grow ELSE (base # {} /\ Act)
Spec == Init /\ [][Next]_vars

Laws == n = N =>
  \A m \in Rewrites :
    LET r == Rewritten(cur, m) IN
    /\ \A e \in r : e.o \in {p[2] : p \in m}
    /\ Cardinality(r) = Cardinality({e \in cur : e.o \in Dom(m)})
    /\ (m = {<<o, o>> : o \in Wide} => r = cur)
    /\ \A e \in r : e.k = "m" => e.ret \in {-2, -1} \cup {p[2] : p \in m}
    \* an order preserving rewriting keeps the order of entries and return addresses
    /\ (\A p, q \in m : p[1] < q[1] => p[2] < q[2]) =>
         \A e \in cur : e.k = "m" /\ e.o \in Dom(m) /\ e.ret > e.o => Ret(m, e.ret) = -2 \/ Ret(m, e.ret) > New(m, e.o)
Emit == n = N + Steps => PrintT(ToJson([base |-> base, h |-> hist]))
=============================================================================
