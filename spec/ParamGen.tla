------------------------------ MODULE ParamGen ------------------------------
(* Every history of at most Depth steps in which parameters change between    *)
(* solves: 0..2 set the parameter to that value, "c" / "i" solve with the     *)
(* compiling / interpreting solver, "x" / "y" the same with an additional     *)
(* constraint on the parameter, "o" an optimization, "a" a solve abandoned    *)
(* after one solution, "e" an evaluation outside of any solve.                *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt, TLC
CONSTANT Depth
Sets == {"0", "1", "2"}
Ops == Sets \cup {"c", "i", "x", "y", "o", "a", "e"}
RECURSIVE Hist(_)
\* no value set twice in a row, no history ending with a change
Hist(n) == IF n = 0 THEN {<<>>}
           ELSE Hist(n - 1) \cup {h \in {<<o>> \o t : o \in Ops, t \in {t \in Hist(n - 1) : Len(t) = n - 1}} :
                                    /\ Len(h) < 2 \/ ~(h[1] \in Sets /\ h[2] \in Sets)
                                    /\ h[Len(h)] \notin Sets}
\* at least one change after the first use
Wanted == {h \in Hist(Depth) : \E i, j \in 1..Len(h) : i < j /\ h[i] \notin Sets /\ h[j] \in Sets}
VARIABLE n
Init == n = Cardinality(Wanted) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> h] : h \in Wanted}))
Next == UNCHANGED n
=============================================================================
