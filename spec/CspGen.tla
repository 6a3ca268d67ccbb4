------------------------------- MODULE CspGen -------------------------------
(* Writes the problems of module Instances to a file, each with its number of *)
(* solutions, for replay into the code.                                       *)
EXTENDS Instances, Json, IOUtils, SequencesExt, TLC
VARIABLE n
Describe(P) == [dom |-> P.dom, cons |-> P.cons, objs |-> SetToSeq(Objectives(P)), total |-> Cardinality(Solutions(P))]
Init == n = Cardinality(Problems) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({Describe(P) : P \in Problems}))
Next == UNCHANGED n
=============================================================================
