----------------------------- MODULE SsbMachine -----------------------------
(* The SSB machine: a routine set is a flat sequence of ops                   *)
(*   m.ops[i] = [n: name, p: parameters without the jump target,              *)
(*               t: index of the target op (0: no such op, -1: not a jump),   *)
(*               last: TRUE on the last op of its routine]                    *)
(*   m.starts[r] = index of the first op of routine r (0: routine is empty)   *)
(* Ops run in order; Jump always goes (silently); Branch*, Case* and Call ops *)
(* are tests that go to their target exactly when taken; flow ending ops stop *)
(* unless they run in a context (directly after lives/object/performer);      *)
(* running off the end of a routine stops it like Return.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SsbNames

STOP == [x |-> <<"stop", 0, 0, 0>>, k |-> <<>>]
DIVERGE == [x |-> <<"diverge", 0, 0, 0>>, k |-> <<>>]
STUCK == [x |-> <<"stuck", 0, 0, 0>>, k |-> <<>>]
OFFEND == [x |-> <<"offend", 0, 0, 0>>, k |-> <<>>]
Special(s) == s.x[1] \in {"stop", "diverge", "stuck", "offend"}
SpecialObs(s) ==
  CASE s.x[1] = "offend" -> [t |-> "op", n |-> "Return", p |-> <<>>]
    [] OTHER -> [t |-> s.x[1], n |-> "", p |-> <<>>]

SsbAt(i, c) == [x |-> <<"at", i, c, 0>>, k |-> <<>>]
SsbNext(m, i, c) == IF m.ops[i].last THEN OFFEND ELSE SsbAt(i + 1, c)

RECURSIVE SsbSettle(_, _, _)
SsbSettle(m, s, fuel) ==
  IF Special(s) THEN s
  ELSE IF fuel = 0 THEN DIVERGE
  ELSE LET op == m.ops[s.x[2]] IN
    IF op.n # "Jump" THEN s
    ELSE IF op.t <= 0 THEN STUCK
    ELSE SsbSettle(m, SsbAt(op.t, 0), fuel - 1)

\* an empty routine is an alias: it runs the ops of the routine before it
RECURSIVE SsbStart(_, _)
SsbStart(m, r) == IF r = 0 THEN STOP
                  ELSE IF m.starts[r] = 0 THEN SsbStart(m, r - 1)
                  ELSE SsbAt(m.starts[r], 0)

SsbObs(m, s) ==
  LET op == m.ops[s.x[2]] IN
    [t |-> IF op.n \in JumpOps THEN "test" ELSE "op", n |-> op.n, p |-> op.p]

SsbSucc(m, s, taken) ==
  LET i == s.x[2]  op == m.ops[i] IN
    IF op.n \in JumpOps /\ taken
    THEN IF op.t <= 0 THEN STUCK ELSE SsbAt(op.t, 0)
    ELSE IF op.n \in FlowEnd /\ s.x[3] = 0 THEN STOP
    ELSE SsbNext(m, i, IF op.n \in CtxOps THEN 1 ELSE 0)
=============================================================================
