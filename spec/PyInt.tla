------------------------------- MODULE PyInt -------------------------------
(* Python integer semantics, total: an operation that raises in Python       *)
(* yields ERR, an operation whose result this specification does not model   *)
(* (negative exponents, magnitudes beyond LIM - TLC integers have 32 bits)   *)
(* yields UNK.  Booleans are the integers 0 and 1, as in Python.             *)
EXTENDS Integers

ERR == -2000000001
UNK == -2000000002
LIM == 100000000

IsBad(a) == a < -2000000000
Join(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE ERR   \* a or b is bad
AbsI(a) == IF a < 0 THEN -a ELSE a
Clip(a) == IF a > LIM \/ a < -LIM THEN UNK ELSE a
B2I(b) == IF b THEN 1 ELSE 0

PyAdd(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b) ELSE Clip(a + b)
PySub(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b) ELSE Clip(a - b)
PyMul(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b)
               ELSE IF a = 0 \/ b = 0 THEN 0
               ELSE IF AbsI(a) > LIM \div AbsI(b) THEN UNK ELSE a * b
\* floor division, any sign
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
PyDiv(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b)
               ELSE IF b = 0 THEN ERR ELSE FloorDiv(a, b)
PyMod(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b)
               ELSE IF b = 0 THEN ERR ELSE a - b * FloorDiv(a, b)
RECURSIVE PowR(_, _)
PowR(a, n) == IF n = 0 THEN 1 ELSE PyMul(a, PowR(a, n - 1))
PyPow(a, b) == IF IsBad(a) \/ IsBad(b) THEN Join(a, b)
               ELSE IF b < 0 THEN UNK
               ELSE IF a = 0 THEN B2I(b = 0)
               ELSE IF a = 1 THEN 1
               ELSE IF a = -1 THEN (IF b % 2 = 0 THEN 1 ELSE -1)
               ELSE IF b > 30 THEN UNK ELSE PowR(a, b)
PyNeg(a) == IF IsBad(a) THEN a ELSE -a
PyAbs(a) == IF IsBad(a) THEN a ELSE AbsI(a)
PyNot(a) == IF IsBad(a) THEN a ELSE B2I(a = 0)
PyCmp(op, a, b) ==
  IF IsBad(a) \/ IsBad(b) THEN Join(a, b)
  ELSE B2I(CASE op = "==" -> a = b
             [] op = "!=" -> a # b
             [] op = "<"  -> a < b
             [] op = "<=" -> a <= b
             [] op = ">"  -> a > b
             [] op = ">=" -> a >= b)
=============================================================================
