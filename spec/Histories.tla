------------------------------ MODULE Histories ------------------------------
(* Histories of one process.  A call is of a class of inputs; the input is the
   n-th new one of its class or one that was used before; the objects involved
   are new ones, the argument objects of an earlier call, or also the compiler
   or decompiler object of an earlier call.  Between the calls the user may
   let all objects go, collect garbage, or use the allocator for other things.
   The classes and which reuse makes sense for them come with the input. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Data == JsonDeserialize(IOEnv.VERIF_IN)
Classes == 1..Len(Data.classes)
Len0 == Data.len
Twice == Data.inputs          \* how many different inputs of a class in one history

VARIABLES hist,  \* <<class, input, reuse>>
          used   \* class -> number of different inputs so far
vars == << hist, used >>
Init == hist = << >> /\ used = [c \in Classes |-> 0]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Call == /\ Len(hist) < Len0
        /\ \E c \in Classes :
             \E i \in (IF Data.classes[c].kind = "pseudo" THEN {1} ELSE 1..Min2(Twice, used[c] + 1)) :
               \E r \in 1..Len(Data.classes[c].reuse) :
                 /\ hist' = Append(hist, << c, i, r >>)
                 /\ used' = [used EXCEPT ![c] = Max2(@, i)]
\* a pseudo-call at the end, or two of the same in a row, tell nothing
Sensible == /\ \A k \in 2..Len(hist) : ~(hist[k] = hist[k - 1] /\ Data.classes[hist[k][1]].kind = "pseudo")
            /\ Len(hist) = Len0 => Data.classes[hist[Len0][1]].kind # "pseudo"
Spec == Init /\ [][Call]_vars
Report == Sensible /\ (Len(hist) = Len0 => PrintT(ToJson([h |-> hist])))
=============================================================================
