------------------------------ MODULE Memo ------------------------------
(* The state that calls of the decompiler share within one process: a memo
   table whose keys are addresses of graphs, and an allocator that may give
   the address of a dead graph to a new one.  A call works on one graph: it
   asks for the common end of some edges (a query), changes the graph (the
   answers of the same query may change), clears the entries of its graph,
   and may fail at any of these steps.  Answers are "none" or "edge"; an
   answer with edges in the table keeps its graph alive.  Looking up and
   storing are atomic (there is a lock), the search between them is not.
   SameAsAlone: every answer a call gets is the answer it gets when it runs
   in a process of its own.  It holds if the entries of a graph are cleared
   when it is created (ClearAtStart), and with any number of threads. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Addrs, MaxCalls, ClearAtStart

Keys == {1, 2}
\* what the calls do with their graph: "q1", "q2" queries, "mut", "clear", "raise"
Programs == <<
  << "q1", "clear", "mut", "q1", "q2" >>,
  << "q1", "mut", "clear", "q1" >>,
  << "q2", "raise" >>,
  << "q1", "q2", "mut", "clear", "q2", "raise" >>,
  << "mut", "q1" >>,
  << >> >>
\* the answer of query k on the graph of call class c after m changes
Truth(c, k, m) == IF (c * c + k + m) % 2 = 0 THEN "edge" ELSE "none"
NoEntry == "-"
Empty == [k \in Keys |-> NoEntry]

KeyOf(s) == IF s = "q1" THEN 1 ELSE 2

\* the answers of a call that runs alone
RECURSIVE Alone(_, _, _, _, _)
Alone(c, p, m, mem, out) ==
  IF p > Len(Programs[c]) THEN out
  ELSE LET s == Programs[c][p] IN
       CASE s = "mut" -> Alone(c, p + 1, m + 1, mem, out)
         [] s = "clear" -> Alone(c, p + 1, m, Empty, out)
         [] s = "raise" -> Append(out, "raise")
         [] OTHER -> LET k == KeyOf(s) v == IF mem[k] # NoEntry THEN mem[k] ELSE Truth(c, k, m)
                     IN Alone(c, p + 1, m, [mem EXCEPT ![k] = v], Append(out, v))
Expected == [c \in 1..Len(Programs) |-> Alone(c, 1, 0, Empty, << >>)]

VARIABLES
  table,   \* address -> entries
  t,       \* thread -> [cls, pc, adr, ver, out, want]
  calls,   \* how many calls were started
  last     \* the last finished call: [cls, out]

vars == << table, t, calls, last >>
Idle == [cls |-> 0, pc |-> 0, adr |-> 0, ver |-> 0, out |-> << >>, want |-> 0]

Init == /\ table = [a \in Addrs |-> Empty]
        /\ t = [x \in Threads |-> Idle]
        /\ calls = 0
        /\ last = [cls |-> 0, out |-> << >>]

InUse == {t[x].adr : x \in {y \in Threads : t[y].cls # 0}}
Pinned == {a \in Addrs : \E k \in Keys : table[a][k] = "edge"}

Start(x) == /\ t[x].cls = 0 /\ calls < MaxCalls
            /\ \E c \in 1..Len(Programs), a \in Addrs \ (InUse \cup Pinned) :
                 /\ t' = [t EXCEPT ![x] = [Idle EXCEPT !.cls = c, !.pc = 1, !.adr = a]]
                 /\ table' = IF ClearAtStart THEN [table EXCEPT ![a] = Empty] ELSE table
            /\ calls' = calls + 1
            /\ UNCHANGED last

AtStep(x) == t[x].cls # 0 /\ t[x].want = 0 /\ t[x].pc <= Len(Programs[t[x].cls])
Here(x) == Programs[t[x].cls][t[x].pc]

Look(x) == /\ AtStep(x) /\ Here(x) \in {"q1", "q2"}
           /\ LET k == KeyOf(Here(x)) e == table[t[x].adr][k] IN
                IF e # NoEntry
                THEN t' = [t EXCEPT ![x].out = Append(@, e), ![x].pc = @ + 1]
                ELSE t' = [t EXCEPT ![x].want = k]
           /\ UNCHANGED << table, calls, last >>
Store(x) == /\ t[x].cls # 0 /\ t[x].want # 0
            /\ LET v == Truth(t[x].cls, t[x].want, t[x].ver) IN
                 /\ table' = [table EXCEPT ![t[x].adr][t[x].want] = v]
                 /\ t' = [t EXCEPT ![x].out = Append(@, v), ![x].pc = @ + 1, ![x].want = 0]
            /\ UNCHANGED << calls, last >>
Mutate(x) == /\ AtStep(x) /\ Here(x) = "mut"
             /\ t' = [t EXCEPT ![x].ver = @ + 1, ![x].pc = @ + 1]
             /\ UNCHANGED << table, calls, last >>
Clear(x) == /\ AtStep(x) /\ Here(x) = "clear"
            /\ table' = [table EXCEPT ![t[x].adr] = Empty]
            /\ t' = [t EXCEPT ![x].pc = @ + 1]
            /\ UNCHANGED << calls, last >>
Finish(x) == /\ t[x].cls # 0 /\ t[x].want = 0
             /\ IF t[x].pc > Len(Programs[t[x].cls]) THEN TRUE ELSE Here(x) = "raise"
             /\ last' = [cls |-> t[x].cls,
                         out |-> IF t[x].pc > Len(Programs[t[x].cls]) THEN t[x].out ELSE Append(t[x].out, "raise")]
             /\ t' = [t EXCEPT ![x] = Idle]
             /\ UNCHANGED << table, calls >>

Next == \E x \in Threads : Start(x) \/ Look(x) \/ Store(x) \/ Mutate(x) \/ Clear(x) \/ Finish(x)
Spec == Init /\ [][Next]_vars

SameAsAlone == last.cls # 0 => last.out = Expected[last.cls]
\* no two live graphs at one address
OneGraphEach == \A x, y \in Threads : x # y /\ t[x].cls # 0 /\ t[y].cls # 0 => t[x].adr # t[y].adr
=============================================================================
