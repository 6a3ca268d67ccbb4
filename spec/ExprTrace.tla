----------------------------- MODULE ExprTrace -----------------------------
(* Validation of recorded formula sessions: expressions are built from        *)
(* formulas over variables and parameters, evaluated (interpreted and         *)
(* compiled), asked for their variables, compared; parameters change between  *)
(* evaluations.                                                               *)
EXTENDS Csp, BigInt, Json, IOUtils, TLC

CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES tid, l, par, viol
vars == <<tid, l, par, viol>>
C == Cases[tid]
E == C.events[l]

Init == tid \in 1..Len(Cases) /\ l = 1 /\ par = <<>> /\ viol = {}

Owner(c) ==
  CASE c \in {"value"} -> {"C09"}
    [] c \in {"compiled", "extra", "recompiled", "constraint", "lifecycle"} -> {"C10"}
    [] c \in {"distinct", "occurs", "free", "suffice", "convars", "partial", "full", "lists"} -> {"C14"}
    [] c \in {"eqtree", "eqvalue", "eqcopy", "eqdiffer", "eqself"} -> {"C25"}
    [] c = "exc" -> {"C09", "C10", "C14", "C25"}
Mine(S) == {c \in S : Prop \in Owner(c)}
V(name, broken) == IF broken THEN {name} ELSE {}
Step(S) == viol' = Mine(S) /\ l' = l + 1 /\ UNCHANGED tid

SetPars == /\ E.op = "pars" /\ par' = E.vals /\ Step({})

NoDup(s) == Cardinality(Range(s)) = Len(s)

(* ------------------------- one expression, probed ------------------------- *)
\* E.asgs: full assignments.  For each: E.iv value (a sentinel unless a small
\* integer), E.io interpreted outcome, E.co compiled, E.xo / E.yo the same with
\* extra names, E.ko an ExpressionConstraint interpreted, E.kc compiled,
\* E.to the truth of the interpreted value
EvalViol(i) ==
  LET v == Ev(E.ast, E.asgs[i], par)
      good == ~IsBad(v)
  IN V("value", good /\ (E.iok[i] # 1 \/ E.iv[i] # v))
     \cup V("compiled", E.io[i] # E.co[i])
     \cup V("extra", E.xo[i] # E.io[i] \/ E.yo[i] # E.co[i])
     \cup V("recompiled", E.ro[i] # E.io[i])
     \cup V("constraint", E.ko[i] # E.kc[i] \/ E.ko[i] # E.to[i])
     \* E.lo: a constraint when new, then compiled, decompiled, compiled twice, decompiled twice, through its function
     \cup V("lifecycle", E.lo[i] # [k \in 1..8 |-> <<<<0, 1, 0, 1, 1, 0, 0, 2>>[k], E.ko[i]>>])
\* E.vars: reported variables; E.frees: <<assigned, free variables reported>>
VarViol ==
  V("distinct", ~NoDup(E.vars))
  \cup V("occurs", ~(Range(E.vars) \subseteq VarsOf(E.ast)))
  \cup V("free", \E i \in 1..Len(E.frees) : LET f == E.frees[i] IN
                   ~NoDup(f[2]) \/ Range(f[2]) # Range(E.vars) \ Range(f[1]))
  \cup V("suffice", \E i \in 1..Len(E.asgs) : E.so[i] # E.io[i])
  \cup V("convars", Range(E.cvars) # Range(E.vars) \/ ~NoDup(E.cvars))
\* E.uns: <<assigned, assignment, answer of unsatisfied (2: raised)>>
UnsViol(cvars, val(_)) ==
  UNION {LET u == E.uns[i]
             lacks == \E k \in cvars : k \notin Range(u[1])
             v == val(u[2])
         IN V("partial", lacks /\ u[3] # 0)
            \cup V("full", ~lacks /\ ~IsBad(v) /\ u[3] # B2I(v = 0))
            \cup V("lists", Len(u) = 4 /\ (Range(u[4]) # cvars \ Range(u[1]) \/ ~NoDup(u[4])))
         : i \in 1..Len(E.uns)}

Expr == /\ E.op = "expr"
        /\ LET f(asg) == Ev(E.ast, asg, par) IN
           Step(UNION {EvalViol(i) : i \in 1..Len(E.asgs)} \cup VarViol \cup UnsViol(Range(E.vars), f))
        /\ UNCHANGED par
\* The operators raised when the formula was written.  As in Python, writing
\* down a division by a constant zero may raise at once.
RECURSIVE ZeroDiv(_)
ZeroDiv(e) ==
  LET op == e[1] IN
  IF op \in {"v", "p", "i", "c"} THEN FALSE
  ELSE IF op \in {"sum", "prod"} THEN \E i \in 1..Len(e[3]) : ZeroDiv(e[3][i])
  ELSE IF op \in Unary THEN ZeroDiv(e[2])
  ELSE \/ ZeroDiv(e[2]) \/ ZeroDiv(e[3])
       \/ op \in {"/", "%"} /\ \A i \in 1..Len(E.asgs) : LET d == Ev(e[3], E.asgs[i], par) IN IsBad(d) \/ d = 0
NotBuilt == /\ E.op = "exprfail"
            /\ Step(V("exc", ~(E.out = "exc:ZeroDivisionError" /\ \E i \in 1..Len(E.asts) : ZeroDiv(E.asts[i]))))
            /\ UNCHANGED par

\* values of any size: E.ast and E.asgs hold BigInt numbers, E.iv[i] the
\* recorded value (<<4, <<>>>> when it is not an integer)
BigExpr == /\ E.op = "bigexpr"
           /\ Step(UNION {LET v == BEv(E.ast, E.asgs[i], E.par) IN
                            V("value", ~BBad(v) /\ (E.iok[i] # 1 \/ E.iv[i] # v))
                            \cup V("compiled", E.io[i] # E.co[i])
                            \cup V("constraint", E.ko[i] # E.kc[i]) : i \in 1..Len(E.asgs)})
           /\ UNCHANGED par

(* a constraint other than an expression *)
Con == /\ E.op = "con"
       /\ LET f(asg) == CVal(E.con, asg, par) IN
          Step(V("convars", Range(E.cvars) # CVars(E.con) \/ ~NoDup(E.cvars))
               \cup UnsViol(CVars(E.con), f))
       /\ UNCHANGED par

(* --------------------------- structural equality --------------------------- *)
\* formulas whose operators build exactly one node each (no simplification)
RECURSIVE Plain(_), Cn(_)
Const01(e) == e[1] \in {"i", "c"}
Plain(e) ==
  LET op == e[1] IN
  IF op \in {"v", "p"} THEN TRUE
  ELSE IF op \in {"i", "c"} THEN FALSE
  ELSE IF op \in {"sum", "prod"} THEN
    /\ e[2] >= 2 /\ Len(e[3]) >= 2
    /\ \A i \in 1..Len(e[3]) : Plain(e[3][i]) /\ e[3][i][1] \notin {"sum", "prod", "+", "*"}
  ELSE IF op \in {"neg", "abs", "not"} THEN Plain(e[2])
  ELSE IF op = "pos" THEN FALSE
  ELSE /\ Plain(e[2]) /\ (Plain(e[3]) \/ (Const01(e[3]) /\ e[3][2] \notin {0, 1} /\ op \notin {"+", "*"}))
       \* Python swaps v < p into p > v: a parameter is a kind of variable
       /\ ~(op \in {"==", "!=", "<", "<=", ">", ">="} /\ e[2][1] = "v" /\ e[3][1] = "p")
       /\ op = "+" => e[2][1] \notin {"+", "sum"} /\ e[3][1] \notin {"+", "sum"}
       /\ op = "*" => e[2][1] \notin {"*", "prod"} /\ e[3][1] \notin {"*", "prod"}
\* plain integers and Const nodes are the same operand
Cn(e) == LET op == e[1] IN
  IF op = "i" THEN <<"c", e[2]>>
  ELSE IF op \in {"v", "p", "c"} THEN e
  ELSE IF op \in {"sum", "prod"} THEN <<op, e[2], [i \in 1..Len(e[3]) |-> Cn(e[3][i])]>>
  ELSE IF op \in Unary THEN <<op, Cn(e[2])>>
  ELSE <<op, Cn(e[2]), Cn(e[3])>>

\* E.r: 1 equal, 0 different, 2 raised; E.ta, E.tb the trees of the two expressions
Equal == /\ E.op = "eq"
         /\ LET x == Cn(E.a)  y == Cn(E.b) IN
            Step(V("eqtree", (E.r = 1) # (E.ta = E.tb))
                 \cup V("eqself", E.rr # 1)
                 \cup V("eqcopy", E.a = E.b /\ E.r # 1)
                 \cup V("eqdiffer", Plain(E.a) /\ Plain(E.b) /\ (x = y) # (E.r = 1))
                 \cup V("eqvalue", E.r = 1 /\ \E i \in 1..Len(E.asgs) :
                           LET u == Ev(E.a, E.asgs[i], par) w == Ev(E.b, E.asgs[i], par) IN
                           ~IsBad(u) /\ ~IsBad(w) /\ u # w)
                 \cup V("exc", E.r = 2))
         /\ UNCHANGED par

Fail == /\ E.op \in {"fail", "crash"} /\ Step({"exc"}) /\ UNCHANGED par

Next == /\ l <= Len(C.events) /\ viol = {}
        /\ (SetPars \/ Expr \/ BigExpr \/ NotBuilt \/ Con \/ Equal \/ Fail)
Spec == Init /\ [][Next]_vars
NoViolation == viol = {}
Report == [tid |-> tid, l |-> l, viol |-> viol]
=============================================================================
