----------------------------- MODULE SrcMapRules ------------------------------
(* What the compiler has to record about the ops it emits.  One step per op,  *)
(* in the order the ops are emitted.  Input: [cases |-> <<case>>],            *)
(*   ops    <<[o, n, k, at, file, macro, called, ret, gap]>> k: "d"|"m"|"n"   *)
(*          gap: the op before it was dropped and all of its expansion         *)
(*   stks   <<[macro, file, from, pos, up, all, any, jumps]>>  the expansions:*)
(*          the innermost call (macro, its file, file and position of the     *)
(*          call), the expansion the call is in (0: none), the indexes of the *)
(*          ops with facts that are all / partly inside, of Jump ops that may *)
(*          be inside                                                         *)
(*   attr   <<fact>> per op: <<[stk, ps]>> (SrcMapPairs), stk: expansion      *)
(*   jumps  <<fact>> per op: <<[stk, ps]>> pieces a Jump op may stand for     *)
(*   (a Return added at the end of a routine has no piece of source)          *)
(*   places <<[file, macro, ps]>>: every piece of source there is             *)
(*   marks  [own, out, args]: recorded marks, marks of the parameters, marks  *)
(*          that are arguments of macro calls                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json, IOUtils

C == JsonDeserialize(IOEnv.VERIF_IN).cases
VARIABLES c, i
Init == c \in 1..Len(C) /\ i = 1
Next == i < Len(C[c].ops) /\ i' = i + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, i>>

K == C[c]
RECURSIVE Tails(_, _)
Tails(k, e) == IF e = 0 THEN {} ELSE {e} \cup Tails(k, k.stks[e].up)

\* the entry of op j points at one of ps, below the calls stk
Fits(k, j, f) ==
  LET e == k.ops[j] IN
  /\ e.at \in ToSet(f.ps)
  /\ IF f.stk = 0 THEN e.k = "d"
     ELSE e.k = "m" /\ e.macro = k.stks[f.stk].macro /\ e.file = k.stks[f.stk].file

\* ---- expansions: their first op, the highest offset of their ops, the next offset that is certainly outside
Expansion(k, e) ==
  LET x == k.stks[e]
      some == ToSet(x.any)
      jmp == {j \in ToSet(x.jumps) : LET fs == {f \in ToSet(k.jumps[j]) : Fits(k, j, f)} IN fs # {} /\ \A f \in fs : e \in Tails(k, f.stk)}
      in == ToSet(x.all) \cup jmp
      last == Max({k.ops[j].o : j \in in})
      after == {k.ops[j].o : j \in {j \in 1..Len(k.ops) : k.ops[j].o > last /\ (k.ops[j].k = "d" \/ (k.attr[j] # <<>> /\ j \notin some))}}
  IN [first |-> Min(in), last |-> last, next |-> IF after = {} THEN -1 ELSE Min(after)]
Table == [n \in 1..Len(C) |-> [e \in 1..Len(C[n].stks) |-> Expansion(C[n], e)]]
RetOk(j, e) ==
  LET x == Table[c][e] IN K.ops[j].ret > x.last /\ K.ops[j].ret > K.ops[j].o /\ (x.next # -1 => K.ops[j].ret <= x.next)

\* expansions op j is the first of / may be (nothing but Jump ops of unknown origin before it)
FirstOf(j, e) == j = Table[c][e].first
Called(j) == K.ops[j].called
At(e) == LET x == K.stks[e] IN <<x.from>> \o x.pos
\* Jump ops directly before op j that may belong to the expansion as well
RECURSIVE Lead(_)
Lead(j) == IF j = 1 \/ K.ops[j - 1].n # "Jump" \/ K.ops[j - 1].k # "m" THEN {} ELSE {j - 1} \cup Lead(j - 1)
\* ops of macros without a fact in front of it: nothing can be said
RECURSIVE Dark(_)
Dark(j) == j > 1 /\ K.ops[j - 1].k = "m" /\ K.attr[j - 1] = <<>> /\ (K.ops[j - 1].n # "Jump" \/ Dark(j - 1))

CallOk(j, stk) ==
  LET firsts == {e \in Tails(K, stk) : FirstOf(j, e)} IN
  IF firsts = {}
  THEN Called(j) = <<>> \/ Dark(j)
  ELSE \/ Called(j) \in {At(e) : e \in firsts}
       \/ Called(j) = <<>> /\ \E l \in Lead(j) : Called(l) \in {At(e) : e \in firsts}
       \/ Dark(j)

Bad(j) ==
  LET e == K.ops[j] fs == ToSet(K.attr[j]) IN
  IF e.k \notin {"d", "m"} THEN "has no entry (or two)"
  ELSE IF K.attr[j] # <<>> THEN
    IF \E f \in fs : f.ps # <<>> /\ ~Fits(K, j, f) THEN "is not recorded where it was written"
    ELSE IF \E f \in fs : f.stk = 0 /\ e.k # "d" THEN "is recorded as coming from a macro"
    ELSE IF \E f \in fs : f.stk # 0 /\ ~RetOk(j, f.stk) THEN "has a return address inside or behind the end of the expansion"
    ELSE IF \E f \in fs : f.stk # 0 /\ ~CallOk(j, f.stk)
    THEN "does not tell where its macro was called" \o (IF Called(j) = <<>> /\ e.gap THEN ", the macro called first there has no ops left" ELSE "")
    ELSE ""
  ELSE IF K.jumps[j] # <<>> /\ ~\E f \in ToSet(K.jumps[j]) : Fits(K, j, f) THEN "is a jump not recorded at a statement it belongs to"
  ELSE IF K.jumps[j] = <<>> /\ e.n # "Return" /\ ~\E p \in ToSet(K.places) : p.file = e.file /\ p.macro = e.macro /\ e.at \in ToSet(p.ps)
       THEN "points at no piece of source"
  ELSE IF e.k = "m" /\ e.ret <= e.o THEN "has a return address not behind it" ELSE ""

MarksOk ==
  /\ \A p \in ToSet(K.marks.out) : \E q \in ToSet(K.marks.own) : p.c = q.c
  /\ \A q \in ToSet(K.marks.own) : (\E p \in ToSet(K.marks.out) : p.c = q.c) \/ q.c \in ToSet(K.marks.args)
  /\ \A q \in ToSet(K.marks.own) \cup ToSet(K.marks.out) : q.c \in ToSet(K.marks.args) \/
       Cardinality({n \in 1..Len(K.marks.own) : K.marks.own[n].c = q.c}) = Cardinality({n \in 1..Len(K.marks.out) : K.marks.out[n].c = q.c})
Report ==
  /\ LET b == Bad(i) IN b = "" \/ PrintT(ToJson([id |-> K.id, i |-> i, clause |-> b]))
  /\ i = 1 => MarksOk \/ PrintT(ToJson([id |-> K.id, i |-> 0, clause |-> "other position marks recorded than emitted"]))
=============================================================================
