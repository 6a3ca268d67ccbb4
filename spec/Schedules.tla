----------------------------- MODULE Schedules -----------------------------
(* Every schedule of at most Depth operations of two enumerations A and B     *)
(* over one model: start, ask for a solution, drain, close, modify the last   *)
(* solution, and a whole optimization in between.                             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt, TLC
CONSTANT Depth
\* state of an enumeration: 0 not started, 1 started, 2 has a solution, 3 over
Ops(st) ==
  UNION {LET s == st[w] IN
           (IF s = 0 /\ (w = "A" \/ st["A"] > 0) THEN {<<"s", w>>} ELSE {})
           \cup (IF s \in {1, 2} THEN {<<"n", w>>, <<"d", w>>} ELSE {})
           \cup (IF s = 2 THEN {<<"c", w>>, <<"m", w>>} ELSE {}) : w \in {"A", "B"}}
  \cup (IF st["A"] = 2 /\ st["o"] = 0 THEN {<<"o", "">>} ELSE {})
After(st, o) == IF o[1] = "o" THEN [st EXCEPT !["o"] = 1]
                ELSE [st EXCEPT ![o[2]] = IF o[1] = "s" THEN 1 ELSE IF o[1] \in {"n", "m"} THEN 2 ELSE 3]
RECURSIVE Runs(_, _)
\* maximal schedules: those that end, or are cut at Depth
Runs(st, n) == IF n = 0 \/ Ops(st) = {} THEN {<<>>}
               ELSE UNION {{<<o[1] \o o[2]>> \o t : t \in Runs(After(st, o), n - 1)} : o \in Ops(st)}
All == Runs([w \in {"A", "B", "o"} |-> 0], Depth)
VARIABLE n
Init == n = Cardinality(All) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> r] : r \in All}))
Next == UNCHANGED n
=============================================================================
