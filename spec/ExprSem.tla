------------------------------ MODULE ExprSem ------------------------------
(* The meaning of a formula as its author wrote it.  Formulas are trees       *)
(* <<op, ...>>:  <<"i",n>> plain integer, <<"c",n>> Const(n), <<"v",k>>       *)
(* k-th variable, <<"p",k>> k-th parameter, <<op,l,r>>, <<"neg"|"abs"|"pos"|  *)
(* "not",x>>, <<"sum"|"prod",c,<<x...>>>> (accumulation with constant c).     *)
EXTENDS PyInt, Sequences, FiniteSets

Binary == {"+","-","*","/","%","**","==","!=","<","<=",">",">=","&","|"}
Unary == {"neg","abs","pos","not"}

RECURSIVE Ev(_, _, _), EvSum(_, _, _, _), EvProd(_, _, _, _)
Ev(e, asg, par) ==
  LET op == e[1] IN
  IF op = "v" THEN asg[e[2]]
  ELSE IF op \in {"i", "c"} THEN e[2]
  ELSE IF op = "p" THEN par[e[2]]
  ELSE IF op = "&" THEN LET a == Ev(e[2], asg, par) IN IF IsBad(a) \/ a = 0 THEN a ELSE Ev(e[3], asg, par)
  ELSE IF op = "|" THEN LET a == Ev(e[2], asg, par) IN IF IsBad(a) \/ a # 0 THEN a ELSE Ev(e[3], asg, par)
  ELSE IF op = "sum" THEN EvSum(e[2], e[3], asg, par)
  ELSE IF op = "prod" THEN EvProd(e[2], e[3], asg, par)
  ELSE IF op \in Unary THEN
    LET a == Ev(e[2], asg, par) IN
      CASE op = "neg" -> PyNeg(a) [] op = "abs" -> PyAbs(a) [] op = "not" -> PyNot(a) [] op = "pos" -> a
  ELSE
    LET a == Ev(e[2], asg, par)
        b == Ev(e[3], asg, par) IN
      CASE op = "+" -> PyAdd(a, b)
        [] op = "-" -> PySub(a, b)
        [] op = "*" -> PyMul(a, b)
        [] op = "/" -> PyDiv(a, b)
        [] op = "%" -> PyMod(a, b)
        [] op = "**" -> PyPow(a, b)
        [] OTHER -> PyCmp(op, a, b)
EvSum(c, s, asg, par) == IF s = <<>> THEN c ELSE PyAdd(Ev(Head(s), asg, par), EvSum(c, Tail(s), asg, par))
EvProd(c, s, asg, par) == IF s = <<>> THEN c ELSE PyMul(Ev(Head(s), asg, par), EvProd(c, Tail(s), asg, par))

\* indices of the variables / parameters occurring in a formula
RECURSIVE Occ(_, _)
Occ(kind, e) ==
  LET op == e[1] IN
  IF op \in {"v", "p"} THEN (IF op = kind THEN {e[2]} ELSE {})
  ELSE IF op \in {"i", "c"} THEN {}
  ELSE IF op \in {"sum", "prod"} THEN UNION {Occ(kind, e[3][i]) : i \in 1..Len(e[3])}
  ELSE IF op \in Unary THEN Occ(kind, e[2])
  ELSE Occ(kind, e[2]) \cup Occ(kind, e[3])
VarsOf(e) == Occ("v", e)
ParsOf(e) == Occ("p", e)
=============================================================================
