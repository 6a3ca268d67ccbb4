----------------------------- MODULE Instances -----------------------------
(* A finite family of small problems: every combination of up to MaxCons      *)
(* constraints over one, two or three variables.  Used twice: the design      *)
(* model of the search is checked on it, and it is written out and replayed   *)
(* into the implementation.                                                   *)
EXTENDS Csp
CONSTANTS MaxVars, MaxCons, DomSet

V1 == <<"v", 1>>
V2 == <<"v", 2>>
V3 == <<"v", 3>>
N(n) == <<"i", n>>
Forms == { <<"e", <<"!=", V1, N(0)>>>>,
           <<"e", <<"<=", V2, N(1)>>>>,
           <<"e", <<"&", <<">=", V3, N(0)>>, V3>>>>,
           <<"e", <<"<", V1, V2>>>>,
           <<"e", <<"==", <<"+", V1, V3>>, N(2)>>>>,
           <<"e", <<"!=", <<"*", V2, V3>>, N(2)>>>>,
           <<"e", <<"==", <<"+", V1, V2>>, V3>>>>,
           <<"e", <<"|", <<">", V1, V3>>, <<"==", V2, N(0)>>>>>>,
           <<"ad", <<1, 2>>>>, <<"ad", <<3, 2>>>>, <<"ad", <<1, 2, 3>>>>, <<"ad", <<2>>>> }
Within(n) == {c \in Forms : MaxOf(CVars(c)) <= n}
Domains == IF DomSet = "few" THEN {<<0, 1>>, <<2, 0>>} ELSE {<<0, 1>>, <<2, 0>>, <<1>>, <<1, 2, 0>>}
Tuples(n) == [1..n -> Domains]
\* at most MaxCons of them; in the order in which they are added
Choices(n) == {<<>>} \cup {<<c>> : c \in Within(n)} \cup
              (IF MaxCons < 2 THEN {} ELSE {p \in Within(n) \X Within(n) : p[1] # p[2]})
Problems == UNION {{[dom |-> d, cons |-> cs, par |-> <<>>] : d \in Tuples(n), cs \in Choices(n)} : n \in 1..MaxVars}
Objectives(P) ==
  LET n == Len(P.dom) IN
  {<<<<1, V1>>>>, <<<<-1, V1>>>>}
  \cup (IF n < 2 THEN {} ELSE {<<<<1, <<"-", V1, V2>>>>>>, <<<<-1, <<"*", V1, V2>>>>, <<1, V2>>>>})
=============================================================================
