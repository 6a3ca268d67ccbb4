------------------------------- MODULE BigInt -------------------------------
(* Python's unbounded integers, for values beyond TLC's 32 bits.  A number is *)
(* <<sign, digits>>: sign 1, 0 or -1, digits base 10000 with the least        *)
(* significant first and no zeros on top.  <<2, <<>>>> is an operation that   *)
(* raises, <<3, <<>>>> one that is not modelled.                              *)
EXTENDS ExprSem

BASE == 10000
BErr == <<2, <<>>>>
BUnk == <<3, <<>>>>
BBad(a) == a[1] > 1
BJoin(a, b) == IF a = BUnk \/ b = BUnk THEN BUnk ELSE BErr
BZero == <<0, <<>>>>

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o Digits(n \div BASE)
BOf(n) == IF n = 0 THEN BZero ELSE IF n > 0 THEN <<1, Digits(n)>> ELSE <<-1, Digits(-n)>>
BOne == BOf(1)

(* ------------------------------- magnitudes ------------------------------- *)
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> \/ d[Len(d)] # 0 THEN d ELSE Trim(SubSeq(d, 1, Len(d) - 1))
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
MLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))
Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

RECURSIVE MAddR(_, _, _, _)
MAddR(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % BASE>> \o MAddR(a, b, i + 1, s \div BASE)
MAdd(a, b) == MAddR(a, b, 1, 0)
RECURSIVE MSubR(_, _, _, _)
MSubR(a, b, i, c) ==                                   \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dig(b, i) - c IN <<IF s < 0 THEN s + BASE ELSE s>> \o MSubR(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Trim(MSubR(a, b, 1, 0))
RECURSIVE MulDigR(_, _, _, _)
MulDigR(a, k, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * k + c IN <<s % BASE>> \o MulDigR(a, k, i + 1, s \div BASE)
MulDig(a, k) == IF k = 0 THEN <<>> ELSE MulDigR(a, k, 1, 0)
RECURSIVE MMul(_, _)
MMul(a, b) == IF b = <<>> \/ a = <<>> THEN <<>>
              ELSE MAdd(MulDig(a, Head(b)), LET h == MMul(a, Tail(b)) IN IF h = <<>> THEN <<>> ELSE <<0>> \o h)
\* largest q in lo..hi with q * b <= r
RECURSIVE QDig(_, _, _, _)
QDig(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF MLess(r, MulDig(b, m)) THEN QDig(r, b, lo, m - 1) ELSE QDig(r, b, m, hi)
\* <<quotient, remainder>>, from the most significant digit down
RECURSIVE MDivR(_, _, _, _, _)
MDivR(a, b, i, q, r) ==
  IF i = 0 THEN <<Trim(q), r>>
  ELSE LET r2 == Trim(<<a[i]>> \o r)
           k == QDig(r2, b, 0, BASE - 1)
       IN MDivR(a, b, i - 1, <<k>> \o q, MSub(r2, MulDig(b, k)))
MDivMod(a, b) == MDivR(a, b, Len(a), <<>>, <<>>)

(* --------------------------------- numbers -------------------------------- *)
Mk(s, d) == LET t == Trim(d) IN IF t = <<>> THEN BZero ELSE IF Len(t) > 45 THEN BUnk ELSE <<s, t>>
BNeg(a) == IF BBad(a) THEN a ELSE <<-a[1], a[2]>>
BAbs(a) == IF BBad(a) THEN a ELSE <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>>
BLess(a, b) == IF a[1] # b[1] THEN a[1] < b[1]
               ELSE IF a[1] = 1 THEN MLess(a[2], b[2]) ELSE IF a[1] = 0 THEN FALSE ELSE MLess(b[2], a[2])
BAdd(a, b) ==
  IF BBad(a) \/ BBad(b) THEN BJoin(a, b)
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(a[2], b[2]))
  ELSE IF MLess(a[2], b[2]) THEN Mk(b[1], MSub(b[2], a[2])) ELSE Mk(a[1], MSub(a[2], b[2]))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF BBad(a) \/ BBad(b) THEN BJoin(a, b) ELSE Mk(a[1] * b[1], MMul(a[2], b[2]))
\* floor division and its remainder, any sign
BDivMod(a, b) ==
  LET qr == MDivMod(a[2], b[2])
      q == Mk(1, qr[1])
      r == Mk(1, qr[2])
  IN IF a[1] * b[1] >= 0 THEN <<q, IF b[1] < 0 THEN BNeg(r) ELSE r>>
     ELSE IF r = BZero THEN <<BNeg(q), r>>
     ELSE <<BNeg(BAdd(q, BOne)), LET m == BSub(BAbs(b), r) IN IF b[1] < 0 THEN BNeg(m) ELSE m>>
BDiv(a, b) == IF BBad(a) \/ BBad(b) THEN BJoin(a, b) ELSE IF b[1] = 0 THEN BErr ELSE BDivMod(a, b)[1]
BMod(a, b) == IF BBad(a) \/ BBad(b) THEN BJoin(a, b) ELSE IF b[1] = 0 THEN BErr ELSE BDivMod(a, b)[2]
RECURSIVE BPowR(_, _)
BPowR(a, n) == IF n = 0 THEN BOne ELSE IF n = 1 THEN a
               ELSE LET h == BPowR(a, n \div 2) s == BMul(h, h) IN IF n % 2 = 0 THEN s ELSE BMul(s, a)
BPow(a, b) == IF BBad(a) \/ BBad(b) THEN BJoin(a, b)
              ELSE IF b[1] < 0 THEN BUnk
              ELSE IF b[1] = 0 \/ a = BOne THEN BOne
              ELSE IF a[1] = 0 THEN BZero
              ELSE IF a = <<-1, <<1>>>> THEN (IF b[2][1] % 2 = 0 THEN BOne ELSE a)
              ELSE IF Len(b[2]) > 1 THEN BUnk ELSE BPowR(a, b[2][1])
BBool(t) == IF t THEN BOne ELSE BZero
BCmp(op, a, b) ==
  IF BBad(a) \/ BBad(b) THEN BJoin(a, b)
  ELSE BBool(CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> BLess(a, b)
               [] op = "<=" -> ~BLess(b, a) [] op = ">" -> BLess(b, a) [] op = ">=" -> ~BLess(a, b))

\* formulas: the leaves <<"I", n>>, <<"C", n>> hold numbers of this module
RECURSIVE BEv(_, _, _), BEvAcc(_, _, _, _, _)
BEv(e, asg, par) ==
  LET op == e[1] IN
  IF op = "v" THEN asg[e[2]]
  ELSE IF op \in {"I", "C"} THEN e[2]
  ELSE IF op = "p" THEN par[e[2]]
  ELSE IF op = "&" THEN LET a == BEv(e[2], asg, par) IN IF BBad(a) \/ a = BZero THEN a ELSE BEv(e[3], asg, par)
  ELSE IF op = "|" THEN LET a == BEv(e[2], asg, par) IN IF BBad(a) \/ a # BZero THEN a ELSE BEv(e[3], asg, par)
  ELSE IF op \in {"sum", "prod"} THEN BEvAcc(op, e[2], e[3], asg, par)
  ELSE IF op \in Unary THEN
    LET a == BEv(e[2], asg, par) IN
      CASE op = "neg" -> BNeg(a) [] op = "abs" -> BAbs(a) [] op = "pos" -> a
        [] op = "not" -> IF BBad(a) THEN a ELSE BBool(a = BZero)
  ELSE
    LET a == BEv(e[2], asg, par)
        b == BEv(e[3], asg, par) IN
      CASE op = "+" -> BAdd(a, b)
        [] op = "-" -> BSub(a, b)
        [] op = "*" -> BMul(a, b)
        [] op = "/" -> BDiv(a, b)
        [] op = "%" -> BMod(a, b)
        [] op = "**" -> BPow(a, b)
        [] OTHER -> BCmp(op, a, b)
BEvAcc(op, c, s, asg, par) ==
  IF s = <<>> THEN c
  ELSE LET a == BEv(Head(s), asg, par)  r == BEvAcc(op, c, Tail(s), asg, par) IN
       IF op = "sum" THEN BAdd(a, r) ELSE BMul(a, r)
=============================================================================
