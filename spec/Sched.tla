------------------------------ MODULE Sched ------------------------------
(* Shapes of schedules of N threads of which one runs at a time.  A thread
   runs until it is preempted - when it gets to a place of the code for the
   first time, when it gets there again later, or after a number of steps -
   or until it is done.  At most K preemptions; afterwards the threads are
   finished one after the other.  A schedule is a sequence of segments
   <<thread, how it ends>>. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VERIF_IN)
N == Data.n
K == Data.k
Stops == {"first", "later", "count"}

VARIABLES segs, done, used
vars == << segs, done, used >>
Init == segs = << >> /\ done = {} /\ used = 0

Last == IF segs = << >> THEN 0 ELSE segs[Len(segs)][1]
Live == (1..N) \ done
\* threads are alike: the first segment of a new one is that of the lowest
Seen == {segs[j][1] : j \in 1..Len(segs)}
Fresh(t) == t \in Seen \/ \A u \in 1..(t - 1) : u \in Seen
Preempted(t) == /\ t \in Live \ {Last} /\ Fresh(t) /\ used < K /\ Cardinality(Live) > 1
                /\ \E s \in Stops : segs' = Append(segs, << t, s >>)
                /\ used' = used + 1 /\ UNCHANGED done
Finished(t) == /\ t \in Live /\ (t # Last \/ Live = {t}) /\ Fresh(t)
               /\ segs' = Append(segs, << t, "end" >>)
               /\ done' = done \cup {t} /\ UNCHANGED used
Next == \E t \in 1..N : Preempted(t) \/ Finished(t)
Spec == Init /\ [][Next]_vars
\* every thread gets to its end, and no segment follows it
Complete == done = 1..N
Sound == \A j \in 1..Len(segs) : segs[j][2] = "end" => \A k \in (j + 1)..Len(segs) : segs[k][1] # segs[j][1]
Report == Complete /\ used > 0 => PrintT(ToJson([s |-> segs]))
=============================================================================
