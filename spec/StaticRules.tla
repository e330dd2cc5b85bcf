----------------------------- MODULE StaticRules ------------------------------
(* Which projects are statically meaningless. A project is read as a sequence *)
(* of events [k, n, a] (kind, name, count), a pushdown machine as the parser  *)
(* sees it; rules about enclosing blocks are decided on the way, rules about  *)
(* names and files at the end (Final).                                        *)
EXTENDS Sequences, SequencesExt, Integers, FiniteSets

Simple == {"op", "break", "cont", "brkl", "ret", "jump", "call", "label"}
Frame(k) == [k |-> k, n |-> 0, d |-> 0, e |-> FALSE]
Start == [file |-> "", item |-> "", stk |-> <<>>, last |-> "", bad |-> {}, files |-> {}, imports |-> {}, routines |-> {},
          macros |-> {}, calls |-> {}, labels |-> {}, uses |-> {}]

Top(st) == IF st.stk = <<>> THEN "" ELSE Last(st.stk).k
Has(st, k) == \E i \in 1..Len(st.stk) : st.stk[i].k = k
Flag(c, r) == IF c THEN {r} ELSE {}
\* one more statement in the innermost block
Bump(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![Len(s)].n = @ + 1]

Open(st, k, extra) == [st EXCEPT !.stk = Append(Bump(@), Frame(k)), !.last = "", !.bad = @ \cup extra]
Leaf(st, extra) == [st EXCEPT !.stk = Bump(@), !.last = "", !.bad = @ \cup extra \cup Flag(Top(st) = "mcase", "statement in message switch")]

Close(st) ==
  LET f == Last(st.stk)  s == Front(st.stk) IN
  [st EXCEPT !.last = f.k,
     !.stk = IF f.k \in {"case", "mcase"} THEN [s EXCEPT ![Len(s)].e = (f.n = 0)] ELSE s,
     !.item = IF s = <<>> THEN "" ELSE @,
     !.bad = @ \cup Flag(f.k = "switch" /\ f.e, "switch ends in an empty case")
               \cup Flag(f.k \in {"switch", "msw"} /\ f.d > 1, "two defaults")]

Step(st, ev) ==
  CASE ev.k = "file" -> [st EXCEPT !.file = ev.n, !.files = @ \cup {ev.n}]
    [] ev.k = "import" -> [st EXCEPT !.imports = @ \cup {<<st.file, ev.n>>}]
    [] ev.k = "routine" -> [Open(st, "item", {}) EXCEPT !.item = "", !.routines = @ \cup {st.file}]
    [] ev.k = "macro" -> [Open(st, "item", {}) EXCEPT !.item = ev.n, !.macros = @ \cup {<<st.file, ev.n, ev.a>>}]
    \* blocks; n = "notbit": the condition negates a bit test of an ordinary variable
    [] ev.k \in {"if", "elif", "else", "loop"} -> [Open(st, IF ev.k = "elif" THEN "if" ELSE ev.k, Flag(ev.n = "notbit", "not on a bit test"))
                                                   EXCEPT !.bad = @ \cup Flag(Top(st) = "mcase", "statement in message switch")]
    [] ev.k \in {"switch", "msw", "with"} -> Open(st, ev.k, Flag(Top(st) = "mcase", "statement in message switch"))
    [] ev.k \in {"case", "default"} ->
         LET t == Top(st) IN
         [Open(st, IF t = "msw" THEN "mcase" ELSE "case", {}) EXCEPT !.stk[Len(st.stk)].d = @ + (IF ev.k = "default" THEN 1 ELSE 0)]
    [] ev.k = "str" -> [st EXCEPT !.stk[Len(st.stk)].n = @ + 1, !.last = ""]
    [] ev.k = "end" -> Close(st)
    \* statements
    [] ev.k = "break" -> Leaf(st, Flag(~Has(st, "case"), "break outside a case"))
    [] ev.k \in {"cont", "brkl"} -> Leaf(st, Flag(~Has(st, "loop"), "continue or break_loop outside a loop"))
    [] ev.k = "label" -> [Leaf(st, Flag(Top(st) = "with", "label in a with-block")) EXCEPT !.labels = @ \cup {<<st.file, st.item, ev.n>>}]
    [] ev.k \in {"jump", "call"} -> [Leaf(st, {}) EXCEPT !.uses = @ \cup {<<st.file, st.item, ev.n>>}]
    [] ev.k = "mcall" -> [Leaf(st, {}) EXCEPT !.calls = @ \cup {<<st.file, st.item, ev.n, ev.a>>}]
    [] OTHER -> Leaf(st, {})

--------------------------------------------------------------------------------
RECURSIVE Grow(_, _)
Grow(S, R) == LET T == S \cup {e[2] : e \in {r \in R : r[1] \in S}} IN IF T = S THEN S ELSE Grow(T, R)
\* what one reaches from x in one step or more
After(x, R) == Grow({e[2] : e \in {r \in R : r[1] = x}}, R)

Final(st, main) ==
  LET reach == Grow({main}, st.imports)
      scope(f) == LET fs == Grow({f}, st.imports) IN {m \in st.macros : m[1] \in fs}
      calls == {c \in st.calls : c[1] \in reach}
      uses == {u \in st.uses : u[1] \in reach}
      deps == {<<c[2], c[3]>> : c \in {x \in calls : x[2] # ""}}
  IN st.bad
     \cup Flag(\E f \in reach : f \notin st.files, "missing import")
     \cup Flag(\E f \in reach : f \in After(f, st.imports), "cyclic import")
     \cup Flag(\E f \in reach \ {main} : f \in st.routines, "routines in an imported file")
     \cup Flag(\E c \in calls : ~\E m \in scope(c[1]) : m[2] = c[3], "unknown macro")
     \cup Flag(\E c \in calls : \E m \in scope(c[1]) : m[2] = c[3] /\ c[4] < m[3], "too few macro arguments")
     \cup Flag(\E m \in st.macros : m[1] \in reach /\ m[2] \in After(m[2], deps), "recursive macro")
     \cup Flag(\E u \in uses : u \notin st.labels, "undefined label")
=============================================================================
