------------------------------ MODULE HistCheck ------------------------------
(* Monitor of recorded histories (or of recorded concurrent calls): the result
   of every call is a function of its input alone, the result each input has
   in a process of its own; the arguments mean afterwards what they meant
   before; what a call returned earlier still is what it was. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.VERIF_IN)
VARIABLE n
Init == n \in 1..Len(Data.runs)
Next == FALSE /\ n' = n
Spec == Init /\ [][Next]_n
R == Data.runs[n]
Alone(i) == Data.alone[i]
Bad == {k \in 1..Len(R.calls) : LET c == R.calls[k] IN
          \/ c.res # Alone(c.inp)
          \/ c.before # c.after
          \/ c.late # "" /\ c.late # c.kept}
Why(k) == LET c == R.calls[k] IN
  IF c.res # Alone(c.inp) THEN "result" ELSE IF c.before # c.after THEN "arguments" ELSE "kept"
Report == PrintT(ToJson([id |-> R.id, ok |-> Bad = {}, at |-> IF Bad = {} THEN 0 ELSE CHOOSE k \in Bad : \A j \in Bad : k <= j,
                         why |-> IF Bad = {} THEN "" ELSE Why(CHOOSE k \in Bad : \A j \in Bad : k <= j)]))
=============================================================================
