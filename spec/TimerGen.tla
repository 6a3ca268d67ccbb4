------------------------------ MODULE TimerGen ------------------------------
(* Writes every behaviour of Timer of a given length, as operation sequences. *)
EXTENDS Integers, Sequences, Json, IOUtils, SequencesExt, FiniteSets, TLC
CONSTANT Depth
Ops == {[op |-> "start", n |-> 0], [op |-> "stop", n |-> 1], [op |-> "stop", n |-> 3], [op |-> "stop", n |-> 0],
        [op |-> "abort", n |-> 0], [op |-> "tick", n |-> 2], [op |-> "tick", n |-> 5]}
\* two ticks in a row are one tick; keep the sequences without them
Ok(s) == \A i \in 1..Len(s) - 1 : ~(s[i].op = "tick" /\ s[i + 1].op = "tick")
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {s \in {Append(t, o) : t \in Seqs(n - 1), o \in Ops} : Ok(s)}
VARIABLE n
Init == n = Depth /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> s] : s \in Seqs(Depth)}))
Next == UNCHANGED n
=============================================================================
