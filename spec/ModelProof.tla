----------------------------- MODULE ModelProof -----------------------------
(* For models of any size and every history: names stay unique, domains stay  *)
(* free of duplicates, declarations and constraints only grow, and a model    *)
(* given a constraint no value of which can hold is not solvable.             *)
EXTENDS Model, FiniteSetTheorems, TLAPS
CONSTANTS Name, Dom, Ord
ASSUME DomSeq == Dom \subseteq Seq(Int)

Any == \/ \E n \in Name : (\E d \in Dom, o \in Ord : AddVar(n, d, o)) \/ AddPar(n)
       \/ \E o \in SUBSET Name : AddCon(o)
       \/ \E k \in {0, 1} : AddNever(k)
       \/ \E b \in BOOLEAN : SetSolvable(b)
       \/ AddTrue \/ Reject

Decl == [name : Name, kind : {"var", "par"}, dom : Seq(Int), ord : Ord \cup {1}]
TypeOK == decls \in Seq(Decl) /\ ncons \in Nat /\ solv \in BOOLEAN
Inv == TypeOK /\ Unique /\ \A i \in 1..Len(decls) : NoDup(decls[i].dom)

LEMMA Fresh == ASSUME NEW n, n \notin Names PROVE \A i \in 1..Len(decls) : decls[i].name # n
  BY DEF Names, MRange

THEOREM Declared == MInit /\ [][Any]_mvars => [](Unique /\ DomainsDistinct)
<1>1. MInit => Inv
  BY DEF MInit, Inv, TypeOK, Unique
<1>2. Inv /\ [Any]_mvars => Inv'
  <2> SUFFICES ASSUME Inv, [Any]_mvars PROVE Inv'
    OBVIOUS
  <2> USE DEF Inv, TypeOK, Unique
  <2>1. ASSUME NEW n \in Name, NEW d \in Dom, NEW o \in Ord, AddVar(n, d, o) PROVE Inv'
    <3> DEFINE r == [name |-> n, kind |-> "var", dom |-> d, ord |-> o]
    <3>1. r \in Decl /\ decls' = Append(decls, r) /\ NoDup(d) /\ n \notin Names /\ UNCHANGED <<solv, ncons>>
      BY <2>1, DomSeq DEF AddVar, Decl
    <3>2. \A i \in 1..Len(decls) : decls[i].name # n
      BY <3>1, Fresh
    <3>3. Len(decls') = Len(decls) + 1 /\ decls'[Len(decls) + 1] = r /\ \A i \in 1..Len(decls) : decls'[i] = decls[i]
      BY <3>1
    <3>4. decls' \in Seq(Decl)
      BY <3>1
    <3> QED BY <3>1, <3>2, <3>3, <3>4
  <2>2. ASSUME NEW n \in Name, AddPar(n) PROVE Inv'
    <3> DEFINE r == [name |-> n, kind |-> "par", dom |-> <<>>, ord |-> 1]
    <3>1. r \in Decl /\ decls' = Append(decls, r) /\ n \notin Names /\ UNCHANGED <<solv, ncons>>
      BY <2>2 DEF AddPar, Decl
    <3>2. \A i \in 1..Len(decls) : decls[i].name # n
      BY <3>1, Fresh
    <3>3. Len(decls') = Len(decls) + 1 /\ decls'[Len(decls) + 1] = r /\ \A i \in 1..Len(decls) : decls'[i] = decls[i]
      BY <3>1
    <3>4. decls' \in Seq(Decl)
      BY <3>1
    <3>5. NoDup(<<>>)
      <4>1. MRange(<<>>) = {} BY DEF MRange
      <4>2. Cardinality({}) = 0 BY FS_EmptySet
      <4> QED BY <4>1, <4>2 DEF NoDup
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5
  <2>3. ASSUME NEW o \in SUBSET Name, AddCon(o) PROVE Inv'
    BY <2>3 DEF AddCon
  <2>4. ASSUME NEW k \in {0, 1}, AddNever(k) PROVE Inv'
    BY <2>4 DEF AddNever
  <2>5. CASE UNCHANGED mvars
    BY <2>5 DEF mvars
  <2>6. ASSUME NEW b \in BOOLEAN, SetSolvable(b) PROVE Inv'
    BY <2>6 DEF SetSolvable
  <2> QED BY <2>1, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Any, AddTrue, Reject
<1>3. Inv => Unique /\ DomainsDistinct
  BY DEF Inv, TypeOK, DomainsDistinct, MRange
<1> QED BY <1>1, <1>2, <1>3, PTL

THEOREM Grows == MInit /\ [][Any]_mvars => OrderKept
<1>1. MInit => TypeOK
  BY DEF MInit, TypeOK
<1>2. TypeOK /\ [Any]_mvars => TypeOK'
  <2> SUFFICES ASSUME TypeOK, [Any]_mvars PROVE TypeOK' OBVIOUS
  <2> QED BY DomSeq DEF TypeOK, Any, mvars, AddVar, AddPar, AddCon, AddNever, SetSolvable, AddTrue, Reject, Decl
<1>3. TypeOK /\ [Any]_mvars => [SubSeq(decls', 1, Len(decls)) = decls /\ ncons' >= ncons]_mvars
  <2> SUFFICES ASSUME TypeOK, [Any]_mvars PROVE SubSeq(decls', 1, Len(decls)) = decls /\ ncons' >= ncons OBVIOUS
  <2>1. ncons' >= ncons
    BY DEF TypeOK, Any, mvars, AddVar, AddPar, AddCon, AddNever, SetSolvable, AddTrue, Reject
  <2>2. decls' = decls \/ \E r \in Decl : decls' = Append(decls, r)
    BY DomSeq DEF TypeOK, Any, mvars, AddVar, AddPar, AddCon, AddNever, SetSolvable, AddTrue, Reject, Decl
  <2>3. SubSeq(decls', 1, Len(decls)) = decls
    BY <2>2 DEF TypeOK
  <2> QED BY <2>1, <2>3
<1> QED BY <1>1, <1>2, <1>3, PTL DEF OrderKept
=============================================================================
