------------------------------- MODULE Model -------------------------------
(* Building a model.  decls: declarations in order, [name, kind ("var" or     *)
(* "par"), dom, ord]; solv: marked solvable; ncons: constraints held (those   *)
(* that depend on variables; a never-true one may or may not be kept).        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES decls, solv, ncons
mvars == <<decls, solv, ncons>>

MRange(s) == {s[i] : i \in 1..Len(s)}
Names == {d.name : d \in MRange(decls)}
VarDecls == SelectSeq(decls, LAMBDA d : d.kind = "var")
VarNames == {d.name : d \in MRange(VarDecls)}
NoDup(s) == Cardinality(MRange(s)) = Len(s)

MInit == decls = <<>> /\ solv = TRUE /\ ncons = 0

\* chosen: the name asked for; legal: whether it is an identifier starting with a letter
NameOk(chosen, legal) == legal /\ chosen \notin Names
AddVar(name, dom, ord) == /\ name \notin Names /\ NoDup(dom)
                          /\ decls' = Append(decls, [name |-> name, kind |-> "var", dom |-> dom, ord |-> ord])
                          /\ UNCHANGED <<solv, ncons>>
AddPar(name) == /\ name \notin Names
                /\ decls' = Append(decls, [name |-> name, kind |-> "par", dom |-> <<>>, ord |-> 1])
                /\ UNCHANGED <<solv, ncons>>
AddCon(over) == over # {} /\ over \subseteq VarNames /\ ncons' = ncons + 1 /\ UNCHANGED <<decls, solv>>
AddTrue == UNCHANGED mvars
AddNever(k) == solv' = FALSE /\ ncons' = ncons + k /\ UNCHANGED decls
SetSolvable(b) == solv' = b /\ UNCHANGED <<decls, ncons>>
Reject == UNCHANGED mvars

(* design check *)
CONSTANTS NameSet, MaxDecls, MaxCons
Doms == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>}
MNext == \/ Len(decls) < MaxDecls /\ \E n \in NameSet : (\E d \in Doms : AddVar(n, d, 1)) \/ AddPar(n)
         \/ ncons < MaxCons /\ \E o \in SUBSET NameSet : AddCon(o)
         \/ ncons < MaxCons /\ \E k \in {0, 1} : AddNever(k)
         \/ \E b \in BOOLEAN : SetSolvable(b)
         \/ AddTrue \/ Reject
MSpec == MInit /\ [][MNext]_mvars
Unique == \A i, j \in 1..Len(decls) : i # j => decls[i].name # decls[j].name
DomainsDistinct == \A d \in MRange(decls) : NoDup(d.dom)
OrderKept == [][SubSeq(decls', 1, Len(decls)) = decls /\ ncons' >= ncons]_mvars
NeverMarks == [][(ncons' = ncons /\ decls' = decls) => solv' \in BOOLEAN]_mvars
=============================================================================
