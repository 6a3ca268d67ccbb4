------------------------------ MODULE BigLaws ------------------------------
(* BigInt agrees with PyInt where both apply, and obeys the laws of integers  *)
(* beyond; checked over a set of pairs that crosses every digit boundary.     *)
EXTENDS BigInt, TLC
Edge == {0, 1, 2, 3, 7, 9999, 10000, 10001, 19999, 123456, 99999999, 10000 * 9999}
Vals == Edge \cup {-x : x \in Edge}
Big(x, k) == BMul(BOf(x), BPow(BOf(10000), BOf(k)))
Bigs == {BAdd(Big(x, k), BOf(y)) : x \in {-12345678, -1, 0, 1, 9999, 7}, k \in {2, 5}, y \in {-10001, -1, 0, 3, 9999}}
VARIABLES a, b, ph
Init == a \in Vals /\ b \in Vals /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED <<a, b>>     \* the laws are checked in the second state, in parallel
Same(x, y) == IsBad(y) \/ x = BOf(y)
Agree == ph = 0 \/ LET x == BOf(a) y == BOf(b) IN
         /\ Same(BAdd(x, y), PyAdd(a, b)) /\ Same(BSub(x, y), PySub(a, b)) /\ Same(BMul(x, y), PyMul(a, b))
         /\ Same(BDiv(x, y), PyDiv(a, b)) /\ Same(BMod(x, y), PyMod(a, b))
         /\ \A op \in {"==", "!=", "<", "<=", ">", ">="} : BCmp(op, x, y) = BOf(PyCmp(op, a, b))
\* q * d + r = n with r between 0 and d, on numbers of several digits
Division == ph = 0 \/ \A n \in Bigs : \A d \in {BOf(a), BAdd(Big(a, 2), BOf(b))} :
              d = BZero \/ LET q == BDiv(n, d) r == BMod(n, d) IN
                /\ BAdd(BMul(q, d), r) = n
                /\ IF d[1] = 1 THEN ~BLess(r, BZero) /\ BLess(r, d) ELSE ~BLess(BZero, r) /\ BLess(d, r)
Distribute == ph = 0 \/ \A n \in Bigs : BMul(n, BAdd(BOf(a), BOf(b))) = BAdd(BMul(n, BOf(a)), BMul(BOf(b), n))
=============================================================================
