----------------------------- MODULE DecMapRules -----------------------------
(* What the decompiler has to record about the text it writes.  One step per   *)
(* op of the input.  Input: [cases |-> <<case>>],                              *)
(*   ops   <<[n, at (<<>> or the recorded <<line, column>>), lines]>>          *)
(*         lines: lines the ops it became are recorded at when the text is     *)
(*         compiled again                                                      *)
(*   attr  <<[own, p]>> per op (DecMapPairs)                                   *)
(*   ways  <<[js, src, after]>> Jump ops and jump statements passed at the same time  *)
(*   starts <<p>> where a statement or header begins in the text               *)
(*   stray  <<offset>> keys that are not offsets of input ops                  *)
(*   strict  Jump ops printed as a statement of their own need an entry (the     *)
(*          decompiler may drop a Jump and write one for the structure instead) *)
(* SsbScript: attr has exactly the statement of the op.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.VERIF_IN).cases
VARIABLES c, i
Init == c \in 1..Len(C) /\ i = 1
Next == i < Len(C[c].ops) /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i>>

K == C[c]
\* jump statements that can only have been printed for op j, and op j for nothing else
Printed(j) ==
  LET of == {w \in ToSet(K.ways) : j \in ToSet(w.js)}
      ps == UNION {ToSet(w.src) : w \in of}
  IN IF of # {} /\ (\A w \in of : w.after /\ ToSet(w.src) = ps) /\ Cardinality(ps) = 1 /\ \A w \in ToSet(K.ways) : ToSet(w.src) = ps <=> ToSet(w.js) = {j} THEN ps ELSE {}
Passed(j) == UNION {ToSet(w.src) : w \in {w \in ToSet(K.ways) : j \in ToSet(w.js)}}

Bad(j) ==
  LET e == K.ops[j] f == ToSet(K.attr[j]) IN
  IF e.n = "Jump" THEN
    IF e.at # <<>> THEN IF IF \E w \in ToSet(K.ways) : j \in ToSet(w.js) THEN e.at \in {s.p : s \in Passed(j)} ELSE e.at \in ToSet(K.starts) THEN "" ELSE "is a jump recorded where no jump was printed for it"
    ELSE IF K.strict /\ Printed(j) # {} THEN "is printed as a jump and has no entry" ELSE ""
  ELSE IF e.at # <<>> THEN
    IF f # {} /\ ~\E x \in f : x.p = e.at THEN "is not recorded where it was printed"
    ELSE IF f = {} /\ e.at \notin ToSet(K.starts) THEN "is recorded where nothing begins"
    ELSE IF e.lines # <<>> /\ e.at[1] \notin ToSet(e.lines) THEN "is on another line when the text is compiled"
    ELSE ""
  ELSE IF \E x \in f : x.own THEN "is printed and has no entry" ELSE ""

Report ==
  /\ LET b == Bad(i) IN b = "" \/ PrintT(ToJson([id |-> K.id, i |-> i, clause |-> b]))
  /\ (i = 1 /\ K.stray # <<>>) => PrintT(ToJson([id |-> K.id, i |-> 0, clause |-> "there are entries for offsets no op has"]))
=============================================================================
