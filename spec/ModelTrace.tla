----------------------------- MODULE ModelTrace -----------------------------
(* Recorded model building histories are behaviours of Model; after every     *)
(* operation the whole public state of the model is compared.                 *)
EXTENDS Model, Json, IOUtils, TLC
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tid, l, viol
C == Cases[tid]
E == C.events[l]
V(name, broken) == IF broken THEN {name} ELSE {}
Init == MInit /\ tid \in 1..Len(Cases) /\ l = 1 /\ viol = {}

Rejected == E.out \in {"exc:ValueError", "exc:TypeError"}
Accepted == E.out = "ok"

\* the state read back: E.decls (<<name, kind>>), E.doms of the variables, by
\* name and by variable object; names of the looked up objects
SameDom(d, seen) == IF d.ord = 1 THEN seen = d.dom ELSE Len(seen) = Len(d.dom) /\ MRange(seen) = MRange(d.dom)
Observed ==
  LET vs == SelectSeq(decls', LAMBDA d : d.kind = "var") IN
  V("names", Len(E.decls) # Len(decls')
             \/ \E i \in 1..Len(decls') : E.decls[i] # <<decls'[i].name, decls'[i].kind>>)
  \cup V("domains", Len(E.doms) # Len(vs) \/ \E i \in 1..Len(vs) : ~SameDom(vs[i], E.doms[i]) \/ ~SameDom(vs[i], E.doms2[i]))
  \cup V("lookup", E.look # [i \in 1..Len(decls') |-> decls'[i].name])
  \cup V("solvable", E.solv # (IF solv' THEN 1 ELSE 0))
  \cup V("constraints", E.ncons # ncons')
Then(extra) == viol' = Observed \cup extra /\ l' = l + 1 /\ UNCHANGED tid

Dom == E.dom
TVar == /\ E.op = "addvar"
        /\ LET nameok == E.chosen = "" \/ NameOk(E.chosen, E.legal = 1)
               ok == nameok /\ NoDup(Dom)
               fresh == E.name # "" /\ E.name \notin Names /\ (E.chosen # "" => E.name = E.chosen) IN
           IF ok THEN IF Accepted /\ fresh THEN AddVar(E.name, Dom, E.ord) /\ Then({})
                      ELSE Reject /\ Then({IF Accepted THEN "unique" ELSE "accepted"})
           ELSE Reject /\ Then(V("rejected", ~Rejected))
TPar == /\ E.op = "addpar"
        /\ LET ok == E.chosen = "" \/ NameOk(E.chosen, E.legal = 1)
               fresh == E.name # "" /\ E.name \notin Names /\ (E.chosen # "" => E.name = E.chosen) IN
           IF ok THEN IF Accepted /\ fresh THEN AddPar(E.name) /\ Then({})
                      ELSE Reject /\ Then({IF Accepted THEN "unique" ELSE "accepted"})
           ELSE Reject /\ Then(V("rejected", ~Rejected))
\* E.over: names of the variables the constraint depends on; E.kind:
\* "vars", "true", "never" or "junk" (not a constraint)
TCon == /\ E.op = "addcon"
        /\ IF E.kind = "junk" THEN Reject /\ Then(V("rejected", ~Rejected))
           ELSE IF E.kind = "true" THEN AddTrue /\ Then(V("accepted", ~Accepted))
           ELSE IF E.kind = "never" THEN (\E k \in {0, 1} : E.ncons = ncons + k /\ AddNever(k) /\ Then(V("accepted", ~Accepted)))
                                         \/ (E.ncons \notin {ncons, ncons + 1} /\ AddNever(0) /\ Then(V("accepted", ~Accepted)))
           ELSE IF MRange(E.over) \subseteq VarNames
                THEN IF Accepted THEN AddCon(MRange(E.over)) /\ Then({}) ELSE Reject /\ Then({"accepted"})
                ELSE Reject /\ Then(V("rejected", ~Rejected))
TSet == E.op = "setsolv" /\ SetSolvable(E.v # 0) /\ Then(V("accepted", ~Accepted))
\* looking does not change anything: E.out outcome of a lookup of an unknown name
TLook == E.op = "look" /\ UNCHANGED mvars /\ Then(V("rejected", Accepted))
Fail == E.op \in {"fail", "crash"} /\ UNCHANGED mvars /\ viol' = {"exc"} /\ l' = l + 1 /\ UNCHANGED tid
Next == l <= Len(C.events) /\ viol = {} /\ (TVar \/ TPar \/ TCon \/ TSet \/ TLook \/ Fail)
NoViolation == viol = {}
Report == [tid |-> tid, l |-> l, viol |-> viol]
=============================================================================
