------------------------------ MODULE Imports ------------------------------
(* How an import statement finds its file (language_spec.rst, Imports):      *)
(* paths starting with ./ or ../ are relative to the importing file, paths   *)
(* starting with / are absolute, all others are searched below the lookup    *)
(* paths in their order; such a path must not contain . or .. segments.      *)
(* The machine walks the path one segment at a time.  TLC enumerates every   *)
(* combination of importing directory, import string, lookup list and set of *)
(* existing files in the bounds and prints the expected outcome of each; the *)
(* harness builds the same file system and asks the compiler.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Deep     \* TRUE: larger universe (thorough)

\* a path is a sequence of segments below the scratch root
Froms == IF Deep THEN {<<"p">>, <<"p", "s">>, <<"l">>} ELSE {<<"p">>, <<"p", "s">>}
\* places where the imported file may lie
Places == {<<"p", "m.exps">>, <<"p", "s", "m.exps">>, <<"l", "m.exps">>, <<"l", "s", "m.exps">>, <<"k", "m.exps">>}
          \cup (IF Deep THEN {<<"m.exps">>, <<"k", "s", "m.exps">>} ELSE {})
\* import strings: kind and segments; "abs" ones are below the scratch root
Strings == {<<"rel", <<".", "m.exps">> >>, <<"rel", <<"..", "m.exps">> >>, <<"rel", <<".", "s", "m.exps">> >>,
            <<"rel", <<"..", "l", "m.exps">> >>, <<"rel", <<".", "..", "k", "m.exps">> >>,
            <<"rel", <<".", "s", "..", "m.exps">> >>, <<"rel", <<"..", "..", "l", "s", "m.exps">> >>,
            <<"abs", <<"l", "m.exps">> >>, <<"abs", <<"p", "s", "..", "m.exps">> >>, <<"abs", <<"k", ".", "m.exps">> >>,
            <<"look", <<"m.exps">> >>, <<"look", <<"s", "m.exps">> >>, <<"look", <<"s", "..", "m.exps">> >>,
            <<"look", <<"s", ".", "m.exps">> >>, <<"look", <<"p", "m.exps">> >>}
Dirs == IF Deep THEN {<<"l">>, <<"k">>, <<"p">>, <<"nowhere">>} ELSE {<<"l">>, <<"k">>, <<"p">>}
Lookups == {<<>>} \cup {<<a>> : a \in Dirs} \cup {<<a, b>> : a \in Dirs, b \in Dirs}
           \cup {<<a, b, d>> : a \in Dirs, b \in Dirs \ {<<"k">>}, d \in {<<"k">>}}

\* directories that exist whatever files there are
VARIABLES from, str, look, files, ph, cur, rest, li, found
vars == <<from, str, look, files, ph, cur, rest, li, found>>

Relevant(s) ==   \* files that the import string could mean, to keep the enumeration small
  IF s[1] = "look" THEN {p \in Places : TRUE} ELSE {p \in Places : TRUE}

Init ==
  /\ from \in Froms
  /\ str \in Strings
  /\ look \in (IF str[1] = "look" THEN Lookups ELSE {<<>>, << <<"l">>, <<"k">> >>})
  /\ files \in SUBSET Relevant(str)
  /\ ph = "start" /\ cur = <<>> /\ rest = <<>> /\ li = 0 /\ found = <<>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
Keep == UNCHANGED <<from, str, look, files>>

Start ==
  /\ ph = "start"
  /\ IF str[1] = "look"
     THEN IF \E i \in 1..Len(str[2]) : str[2][i] \in {".", ".."}
          THEN ph' = "rejected" /\ UNCHANGED <<cur, rest, li, found>>
          ELSE ph' = "try" /\ li' = 1 /\ UNCHANGED <<cur, rest, found>>
     ELSE /\ ph' = "walk" /\ rest' = str[2] /\ UNCHANGED <<li, found>>
          /\ cur' = IF str[1] = "abs" THEN <<>> ELSE from
  /\ Keep

Try ==
  /\ ph = "try"
  /\ IF li > Len(look) THEN ph' = "rejected" /\ UNCHANGED <<cur, rest>>
     ELSE ph' = "walk" /\ cur' = look[li] /\ rest' = str[2]
  /\ UNCHANGED <<li, found>> /\ Keep

Walk ==
  /\ ph = "walk" /\ rest # <<>>
  /\ cur' = CASE Head(rest) = "." -> cur
              [] Head(rest) = ".." -> IF cur = <<>> THEN <<"outside">> ELSE Front(cur)   \* nothing lies outside the root
              [] OTHER -> Append(cur, Head(rest))
  /\ rest' = Tail(rest)
  /\ UNCHANGED <<ph, li, found>> /\ Keep

Open ==
  /\ ph = "walk" /\ rest = <<>>
  /\ IF cur \in files THEN ph' = "done" /\ found' = cur /\ UNCHANGED li
     ELSE /\ UNCHANGED found
          /\ IF str[1] = "look" THEN ph' = "try" /\ li' = li + 1
             ELSE ph' = "rejected" /\ UNCHANGED li
  /\ UNCHANGED <<cur, rest>> /\ Keep

Next == Start \/ Try \/ Walk \/ Open
Spec == Init /\ [][Next]_vars

\* sanity of the specification itself
Sound ==
  /\ ph = "done" => found \in files
  /\ ph = "done" /\ str[1] = "look" =>
       \A i \in 1..(li - 1) : look[i] \o str[2] \notin files
  /\ ph = "rejected" /\ str[1] = "look" /\ ~(\E i \in 1..Len(str[2]) : str[2][i] \in {".", ".."}) =>
       \A i \in 1..Len(look) : look[i] \o str[2] \notin files

Emit ==
  ph \in {"done", "rejected"} =>
    PrintT(ToJson([from |-> from, kind |-> str[1], segs |-> str[2], look |-> look, files |-> files, found |-> found]))
=============================================================================
