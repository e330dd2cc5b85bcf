-------------------------------- MODULE SetGen --------------------------------
(* All routine sets of a given shape over an alphabet of opcodes, as a binary *)
(* reader could deliver them, and which of them are well-formed.              *)
(* Input: [sizes |-> <<ops of routine 1, ...>>, names |-> <<opcode, ...>>].    *)
(* Op i of the set (counted through the file) has the offset i - 1.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SsbNames

P == JsonDeserialize(IOEnv.VERIF_IN)
SIZES == P.sizes
Names == {P.names[i] : i \in 1..Len(P.names)}
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
N == Sum(SIZES, Len(SIZES))
Starts == {Sum(SIZES, k - 1) + 1 : k \in {j \in 1..Len(SIZES) : SIZES[j] > 0}}
Ends == {Sum(SIZES, k) : k \in 1..Len(SIZES)}

VARIABLE ops                   \* <<[n |-> opcode, t |-> target op or 0]>>
Jumps(n) == n \in JumpOps
Init == ops = <<>>
\* (an op that goes on must not be the last one of its routine)
Fits(n) == ~(Len(ops) + 1 \in Ends) \/ n = "Jump" \/ n \in FlowEnd
Next == /\ Len(ops) < N
        /\ \E n \in Names : /\ Fits(n)
              /\ \E t \in (IF Jumps(n) THEN 1..N ELSE {0}) : ops' = Append(ops, [n |-> n, t |-> t])
Spec == Init /\ [][Next]_ops

\* ---- well-formedness ------------------------------------------------------
InCtx(i) == i > 1 /\ i \notin Starts /\ ops[i - 1].n \in CtxOps
Falls(i) == ~(ops[i].n = "Jump" \/ (ops[i].n \in FlowEnd /\ ~InCtx(i)))
Succs(i) == (IF ops[i].t > 0 THEN {ops[i].t} ELSE {}) \cup (IF Falls(i) /\ i \notin Ends THEN {i + 1} ELSE {})
RECURSIVE Reach(_, _)
Reach(done, todo) == IF todo = {} THEN done
                     ELSE Reach(done \cup todo, UNION {Succs(i) : i \in todo} \ (done \cup todo))
RECURSIVE Chase(_, _)
Chase(i, k) == IF ops[i].n # "Jump" THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Chase(ops[i].t, k - 1)
WellFormed == LET r == Reach({}, Starts) IN
              /\ \A i \in r : Falls(i) => i \notin Ends
              /\ \A i \in 1..N : Chase(i, N)

Report == Len(ops) = N =>
  PrintT(ToJson([w |-> WellFormed, o |-> [i \in 1..N |-> <<ops[i].n, ops[i].t>>]]))
=============================================================================
