------------------------------ MODULE ExprGen ------------------------------
(* Enumerates all formulas of bounded depth over two variables, a parameter  *)
(* and the constants that the library treats specially, and writes them to a *)
(* file for replay into the code.  F(2) has a leaf on one side.              *)
EXTENDS ExprSem, Json, IOUtils, SequencesExt, TLC
CONSTANT Depth

Leaves == {<<"v", 1>>, <<"v", 2>>, <<"p", 1>>}
          \cup {<<k, n>> : k \in {"i", "c"}, n \in {-1, 0, 1, 2}}
Apply(op, A, B) == {<<op, a, b>> : a \in A, b \in B}
NonNeg == {<<k, n>> : k \in {"i", "c"}, n \in {0, 1, 2}}
Combine(A, B) == UNION {Apply(op, A, B) : op \in Binary \ {"**"}} \cup Apply("**", A, NonNeg)
                 \cup {<<u, a>> : u \in Unary, a \in A}
                 \cup {<<s, c, <<a, b>>>> : s \in {"sum", "prod"}, c \in {0, 1, 2}, a \in A, b \in B}
F1 == Combine(Leaves, Leaves)
Small == {<<"v", 1>>, <<"p", 1>>, <<"c", 0>>, <<"c", 1>>, <<"i", 2>>}
F1s == Combine({<<"v", 1>>, <<"v", 2>>, <<"c", 0>>, <<"c", 2>>}, {<<"v", 1>>, <<"c", -1>>, <<"c", 1>>})
F2 == Combine(F1s, Small) \cup Combine(Small, F1s)
Q == Combine(Combine({<<"v", 1>>, <<"c", 1>>}, {<<"v", 2>>}), {<<"v", 1>>, <<"c", 0>>})
\* constants on either side, twice: where the library simplifies
K == {<<"c", n>> : n \in {-2, -1, 0, 1, 3}}
Arith == {"+", "-", "*", "/", "%"}
Side(A) == UNION {Apply(op, A, K) \cup Apply(op, K, A) : op \in Arith}
Towers == Side(Side({<<"v", 1>>}) \cup {<<u, <<"v", 1>>>> : u \in {"neg", "abs"}})
          \cup {<<u, f>> : u \in {"neg", "abs", "not"}, f \in Side({<<"v", 1>>})}
Forms == Towers \cup Leaves \cup F1 \cup (IF Depth >= 2 THEN F2 ELSE Q)

VARIABLE n
Init == n = Cardinality(Forms) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({[f |-> f] : f \in Forms}))
Next == UNCHANGED n
=============================================================================
