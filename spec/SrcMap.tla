-------------------------------- MODULE SrcMap --------------------------------
(* A source map as state: entries by op offset (plain or inside of a macro),  *)
(* position marks.  Two actions: a trip through the serialised form, and the  *)
(* rewriting of offsets through an old-to-new mapping.                        *)
(* entry: [o, k, f]  (plain: k = "d"), [o, k, f, ret]  (macro: k = "m");      *)
(* f: everything else the entry says; ret = -1: no return address             *)
EXTENDS Integers, Sequences, FiniteSets

ToSet(s) == {s[i] : i \in 1..Len(s)}
Dom(m) == {p[1] : p \in m}
New(m, o) == (CHOOSE p \in m : p[1] = o)[2]
Later(m, a) == {o \in Dom(m) : o >= a}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

\* where the return address goes: to its op or the next surviving one; -2: nothing is promised
Ret(m, a) == IF a < 0 THEN a ELSE IF Later(m, a) = {} THEN -2 ELSE New(m, Least(Later(m, a)))

Rewritten(es, m) ==
  {IF e.k = "d" THEN [o |-> New(m, e.o), k |-> "d", f |-> e.f]
   ELSE [o |-> New(m, e.o), k |-> "m", f |-> e.f, ret |-> Ret(m, e.ret)] : e \in {x \in es : x.o \in Dom(m)}}

\* does what is there agree with what is promised
Agrees(want, got) ==
  /\ Cardinality(want) = Cardinality(got)
  /\ \A w \in want : \E g \in got : /\ g.o = w.o /\ g.k = w.k /\ g.f = w.f
                                    /\ w.k = "m" => (w.ret = -2 \/ g.ret = w.ret)

IsRewrite(before, m, after) == Agrees(Rewritten(ToSet(before.entries), m), ToSet(after.entries)) /\ after.marks = before.marks
IsTrip(before, after) == ToSet(after.entries) = ToSet(before.entries) /\ after.marks = before.marks
=============================================================================
