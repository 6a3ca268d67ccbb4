------------------------------- MODULE CspLaws -------------------------------
(* The constructive definition of the solutions of a problem agrees with the  *)
(* declarative one, and the orders enumerations are judged by are what their  *)
(* names say, for every problem of the family.                                *)
EXTENDS Instances, Enumeration
VARIABLES P, ph
Init == P \in Problems /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED P

\* a never-true constant makes it unsolvable, an always-true one changes nothing
Extra == {<<"b", 0>>, <<"b", 1>>}
All == {t \in [1..Len(P.dom) -> UNION {Range(P.dom[k]) : k \in 1..Len(P.dom)}] : \A k \in 1..Len(P.dom) : t[k] \in Range(P.dom[k])}
With(c) == [P EXCEPT !.cons = Append(@, c)]
Agree == ph = 1 => /\ Solutions(P) = {s \in All : IsSolution(P, s)}
                   /\ Solutions(With(<<"b", 0>>)) = {} /\ Solutions(With(<<"b", 1>>)) = Solutions(P)
\* the order in which constraints were added does not matter
Perm == (ph = 1 /\ Len(P.cons) = 2) => Solutions([P EXCEPT !.cons = <<@[2], @[1]>>]) = Solutions(P)
Ord(o) == \A s, t \in Solutions(P) : /\ ~(LexLess(P, o, s, t) /\ LexLess(P, o, t, s))
                                     /\ s # t => LexLess(P, o, s, t) \/ LexLess(P, o, t, s)
                                     /\ \A u \in Solutions(P) : LexLess(P, o, s, t) /\ LexLess(P, o, t, u) => LexLess(P, o, s, u)
Lex == ph = 1 => Ord(DeclOrder(P)) /\ Ord(RevOrder(P))
\* being better is a strict partial order, so an optimization that only yields
\* better solutions ends, and what it ends with is not dominated
Dominance == ph = 1 => \A o \in Objectives(P) : LET S == Solutions(P) IN
   /\ \A s, t \in S : ~(Better(o, s, t, P.par) /\ Better(o, t, s, P.par))
   /\ \A s, t, u \in S : Better(o, s, t, P.par) /\ Better(o, t, u, P.par) => Better(o, s, u, P.par)
   /\ S # {} => \E s \in S : ~ \E t \in S : Better(o, t, s, P.par)
   /\ Len(o) = 1 => \A s \in S : (~ \E t \in S : Better(o, t, s, P.par)) <=> \A t \in S : ObjVal(o[1], t, P.par) <= ObjVal(o[1], s, P.par)
=============================================================================
