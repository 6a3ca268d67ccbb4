-------------------------------- MODULE Csp --------------------------------
(* Constraint satisfaction problems and their solutions.                      *)
(* A problem is [dom |-> <<D1,...,Dn>>, cons |-> <<c1,...>>, par |-> <<..>>], *)
(* Di a sequence of distinct integers (the declared order), ci one of         *)
(*   <<"e", formula>>      the formula is true (non zero)                     *)
(*   <<"ad", <<k1,...>>>>  the variables k1,... have pairwise distinct values *)
(*   <<"b", 0|1>>          a constant                                         *)
EXTENDS ExprSem

Range(s) == {s[i] : i \in 1..Len(s)}

CVars(c) == IF c[1] = "e" THEN VarsOf(c[2]) ELSE IF c[1] = "ad" THEN Range(c[2]) ELSE {}
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

Distinct(ks, asg) == LET K == Range(ks) IN \A a, b \in K : a # b => asg[a] # asg[b]
\* truth value of a constraint: 1, 0, ERR (evaluation raises) or UNK
CVal(c, asg, par) ==
  IF c[1] = "e" THEN LET v == Ev(c[2], asg, par) IN IF IsBad(v) THEN v ELSE B2I(v # 0)
  ELSE IF c[1] = "ad" THEN B2I(Distinct(c[2], asg))
  ELSE c[2]
Holds(c, asg, par) == CVal(c, asg, par) = 1

RECURSIVE ExtSol(_, _, _, _)
ExtSol(P, last, k, S) ==
  IF k > Len(P.dom) THEN S
  ELSE LET C == {c \in 1..Len(P.cons) : last[c] = k}
           D == Range(P.dom[k])
           X == UNION {{Append(t, v) : v \in D} : t \in S}
       IN ExtSol(P, last, k + 1, {s \in X : \A c \in C : Holds(P.cons[c], s, P.par)})
\* all solutions: a problem whose variables are extended one at a time
Solutions(P) ==
  LET last == [c \in 1..Len(P.cons) |-> MaxOf(CVars(P.cons[c]))] IN
  IF \E c \in 1..Len(P.cons) : last[c] = 0 /\ ~Holds(P.cons[c], <<>>, P.par) THEN {}
  ELSE ExtSol(P, last, 1, {<<>>})
\* the definition it must agree with (checked by TLC on small problems)
IsSolution(P, s) == /\ Len(s) = Len(P.dom)
                    /\ \A k \in 1..Len(s) : s[k] \in Range(P.dom[k])
                    /\ \A c \in 1..Len(P.cons) : Holds(P.cons[c], s, P.par)

\* position of a value in a sequence without repetitions
PosOf(v, D) == CHOOSE i \in 1..Len(D) : D[i] = v
\* s comes before t when variables are ranked in the order ord
RECURSIVE LexLess(_, _, _, _)
LexLess(P, ord, s, t) ==
  IF ord = <<>> THEN FALSE
  ELSE LET k == Head(ord) IN
       IF s[k] = t[k] THEN LexLess(P, Tail(ord), s, t)
       ELSE PosOf(s[k], P.dom[k]) < PosOf(t[k], P.dom[k])

\* objectives: <<sign, formula>>, sign 1 to maximize, -1 to minimize
ObjVal(o, s, par) == LET v == Ev(o[2], s, par) IN o[1] * v
Better(objs, s, t, par) == \A i \in 1..Len(objs) : ObjVal(objs[i], s, par) > ObjVal(objs[i], t, par)
=============================================================================
