------------------------------ MODULE ModelGen ------------------------------
(* Writes every model building history of a given length over an abstract     *)
(* alphabet: name classes (generated, new, used, illegal), domain classes,    *)
(* constraint classes.                                                        *)
EXTENDS Integers, Sequences, Json, IOUtils, SequencesExt, FiniteSets, TLC
CONSTANT Depth
Ops == {<<"var", n, d>> : n \in {"gen", "new", "used", "bad"}, d \in {"ok"}}
       \cup {<<"var", n, "dup">> : n \in {"gen", "new"}}
       \cup {<<"par", n, "">> : n \in {"gen", "new", "used", "bad"}}
       \cup {<<"con", c, "">> : c \in {"vars", "foreign", "mixed", "true", "never", "junk", "ad", "adforeign"}}
       \cup {<<"solv", b, "">> : b \in {"0", "1"}}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, o) : t \in Seqs(n - 1), o \in Ops}
VARIABLE n
Init == n = Depth /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[s |-> s] : s \in Seqs(Depth)}))
Next == UNCHANGED n
=============================================================================
