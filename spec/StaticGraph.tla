----------------------------- MODULE StaticGraph ------------------------------
(* All small import graphs and all small macro call graphs, as event          *)
(* sequences of StaticRules, with the rules each of them breaks.              *)
(* VERIF_IN: [family: "imports"|"macros", n, out]                             *)
EXTENDS StaticRules, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.VERIF_IN)
Names == [i \in 1..4 |-> <<"main", "f1", "f2", "f3">>[i]]
MNames == [i \in 1..4 |-> <<"m1", "m2", "m3", "m4">>[i]]
Few(S, k) == {T \in SUBSET S : Cardinality(T) <= k}
Ev(k, n, a) == [k |-> k, n |-> n, a |-> a]
Many(S, f(_)) == LET s == SetToSeq(S) IN [i \in 1..Len(s) |-> f(s[i])]

\* imports: for every file its set of imports (0: a file that does not exist) and whether it has a routine
File(i, g, r) ==
  <<Ev("file", Names[i], 0)>> \o Many(g[i], LAMBDA t : Ev("import", IF t = 0 THEN "missing" ELSE Names[t], 0))
  \o <<Ev("macro", MNames[i], 0), Ev("op", "", 0), Ev("end", "", 0)>>
  \o (IF r[i] THEN <<Ev("routine", "", 0), Ev("op", "", 0), Ev("end", "", 0)>> ELSE <<>>)
Imports == UNION {{FlattenSeq([i \in 1..P.n |-> File(i, g, r)]) : r \in {x \in [1..P.n -> BOOLEAN] : x[1]}}
                  : g \in [1..P.n -> Few(0..P.n, P.out)]}

\* macros: for every macro its number of parameters and its set of calls (0: an unknown macro), and one call too short at most
Call(i, t, p, s) == Ev("mcall", IF t = 0 THEN "nomacro" ELSE MNames[t], IF t = 0 THEN 1 ELSE IF s = <<i, t>> THEN p[t] - 1 ELSE p[t])
Macro(i, g, p, s) == <<Ev("macro", MNames[i], p[i]), Ev("op", "", 0)>> \o Many(g[i], LAMBDA t : Call(i, t, p, s)) \o <<Ev("end", "", 0)>>
Shorts(g, p) == {<<0, 0>>} \cup {e \in (1..P.n) \X (1..P.n) : e[2] \in g[e[1]] /\ p[e[2]] > 0}
MacroProg(g, p, s, u, l) ==
  <<Ev("file", "main", 0)>> \o FlattenSeq([i \in 1..P.n |-> Macro(i, g, p, s)])
  \o <<Ev("routine", "", 0), Ev("op", "", 0)>> \o Many(u, LAMBDA t : Call(0, t, p, l)) \o <<Ev("end", "", 0)>>
Macros == UNION {UNION {UNION {{MacroProg(g, p, s, u, l) : l \in IF s = <<0, 0>> /\ u # {} THEN {<<9, 9>>} \cup {<<0, t>> : t \in {x \in u : x # 0 /\ p[x] > 0}} ELSE {<<9, 9>>}}
                 : s \in Shorts(g, p), u \in {{}, {1}, {P.n}}} : p \in [1..P.n -> 0..P.params]}
                 : g \in [1..P.n -> Few(0..P.n, P.out)]}

VARIABLES evs, st, i
Init == evs \in (IF P.family = "imports" THEN Imports ELSE Macros) /\ st = Start /\ i = 1
Next == i <= Len(evs) /\ st' = Step(st, evs[i]) /\ i' = i + 1 /\ UNCHANGED evs
Spec == Init /\ [][Next]_<<evs, st, i>>
Report == i > Len(evs) => PrintT(ToJson([e |-> [j \in 1..Len(evs) |-> <<evs[j].k, evs[j].n, evs[j].a>>], r |-> SetToSeq(Final(st, "main"))]))
=============================================================================
