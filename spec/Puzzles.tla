------------------------------ MODULE Puzzles ------------------------------
(* What the puzzle solvers have to solve: for every kind of puzzle, which     *)
(* instances are acceptable, what a solution is (IsSol) and the set of all    *)
(* solutions.  Nothing here mentions variables, domains or constraints; the   *)
(* solvers' encodings are judged against these definitions.                   *)
EXTENDS PyInt, Sequences, FiniteSets, TLC

RangeOf(s) == {s[i] : i \in 1..Len(s)}
IsMatrix(m, nr, nc) == Len(m) = nr /\ \A r \in 1..Len(m) : Len(m[r]) = nc
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ------------------------------------------------------------- sudoku *)
\* instance: [grid |-> rows]; an unknown cell is 0, -1 stands for a bad value
SPeers == [k \in 1..81 |->
   LET r == (k - 1) \div 9
       c == (k - 1) % 9
   IN {j \in 1..81 : j # k /\ LET q == (j - 1) \div 9
                                  d == (j - 1) % 9
                              IN q = r \/ d = c \/ (q \div 3 = r \div 3 /\ d \div 3 = c \div 3)}]
SFlat(g) == [k \in 1..81 |-> g[((k - 1) \div 9) + 1][((k - 1) % 9) + 1]]
SRows(f) == [r \in 1..9 |-> [c \in 1..9 |-> f[(r - 1) * 9 + c]]]
SConsistent(f) == \A k \in 1..81 : f[k] # 0 => \A j \in SPeers[k] : f[j] # f[k]
RECURSIVE SComplete(_)
SComplete(f) ==
  LET B == {k \in 1..81 : f[k] = 0} IN
  IF B = {} THEN {f}
  ELSE LET cand == [k \in B |-> (1..9) \ {f[j] : j \in SPeers[k]}]
           least == SetMin({Cardinality(cand[k]) : k \in B})
           k == CHOOSE k \in B : Cardinality(cand[k]) = least
       IN UNION {SComplete([f EXCEPT ![k] = v]) : v \in cand[k]}
SudokuOk(I) == Len(I.grid) = 9 /\ \A r \in 1..9 : \A c \in 1..Len(I.grid[r]) : I.grid[r][c] \in 0..9
SudokuIsSol(I, s) == /\ IsMatrix(s, 9, 9)
                     /\ \A r, c \in 1..9 : s[r][c] \in 1..9 /\ (I.grid[r][c] # 0 => s[r][c] = I.grid[r][c])
                     /\ SConsistent(SFlat(s))
SudokuSols(I) == LET f == SFlat(I.grid) IN IF SConsistent(f) THEN {SRows(g) : g \in SComplete(f)} ELSE {}

(* ----------------------------------------------------------- nonogram *)
\* instance: [rows |-> clues, cols |-> clues]; pictures are matrices of 0/1
RECURSIVE RunsR(_, _, _)
RunsR(line, i, n) == IF i > Len(line) THEN IF n > 0 THEN <<n>> ELSE <<>>
                     ELSE IF line[i] = 1 THEN RunsR(line, i + 1, n + 1)
                     ELSE (IF n > 0 THEN <<n>> ELSE <<>>) \o RunsR(line, i + 1, 0)
Runs(line) == RunsR(line, 1, 0)
Column(m, c) == [r \in 1..Len(m) |-> m[r][c]]
Rep(v, n) == [i \in 1..n |-> v]
RECURSIVE LinesOf(_, _)
LinesOf(n, clue) ==
  IF clue = <<>> THEN {Rep(0, n)}
  ELSE LET k == Head(clue)
           rest == Tail(clue)
       IN IF rest = <<>> THEN {Rep(0, s) \o Rep(1, k) \o Rep(0, n - s - k) : s \in 0..(n - k)}
          ELSE UNION {{Rep(0, s) \o Rep(1, k) \o <<0>> \o t : t \in LinesOf(n - s - k - 1, rest)} : s \in 0..(n - k - 1)}
RECURSIVE NonoExt(_, _, _, _)
NonoExt(rowl, r, pic, coll) ==
  IF r > Len(rowl) THEN {pic}
  ELSE UNION {LET nc == [c \in 1..Len(coll) |-> {x \in coll[c] : x[r] = line[c]}]
              IN IF \E c \in 1..Len(coll) : nc[c] = {} THEN {} ELSE NonoExt(rowl, r + 1, Append(pic, line), nc)
              : line \in rowl[r]}
NonoIsSol(I, s) == /\ IsMatrix(s, Len(I.rows), Len(I.cols))
                   /\ \A r \in 1..Len(I.rows) : (\A c \in 1..Len(s[r]) : s[r][c] \in {0, 1}) /\ Runs(s[r]) = I.rows[r]
                   /\ \A c \in 1..Len(I.cols) : Runs(Column(s, c)) = I.cols[c]
NonoSols(I) ==
  LET rowl == [r \in 1..Len(I.rows) |-> LinesOf(Len(I.cols), I.rows[r])]
      coll == [c \in 1..Len(I.cols) |-> LinesOf(Len(I.rows), I.cols[c])]
  IN IF \E c \in 1..Len(I.cols) : coll[c] = {} THEN {} ELSE NonoExt(rowl, 1, <<>>, coll)

(* ----------------------------------------------- graph and map coloring *)
\* instance: [n |-> nodes, edges |-> <<<<a, b>>,...>>, k |-> labels]
RECURSIVE GraphExt(_, _, _, _, _)
GraphExt(n, k, E, i, S) ==
  IF i > n THEN S
  ELSE LET back == {IF e[1] = i THEN e[2] ELSE e[1] : e \in {e \in E : (e[1] = i /\ e[2] <= i) \/ (e[2] = i /\ e[1] <= i)}}
       IN GraphExt(n, k, E, i + 1, IF i \in back THEN {} ELSE UNION {{Append(t, v) : v \in (1..k) \ {t[o] : o \in back}} : t \in S})
GraphIsSol(I, s) == /\ Len(s) = I.n
                    /\ \A i \in 1..I.n : s[i] \in 1..I.k
                    /\ \A e \in RangeOf(I.edges) : s[e[1]] # s[e[2]]
GraphSols(I) == GraphExt(I.n, I.k, RangeOf(I.edges), 1, {<<>>})

\* instance: [map |-> rows of character codes, k |-> colors]
BLANK == 32
DOT == 46
MLand(I) == {p \in UNION {{<<r, c>> : c \in 1..Len(I.map[r])} : r \in 1..Len(I.map)} : I.map[p[1]][p[2]] \notin {BLANK, DOT}}
MTouch(p, q) == p # q /\ p[1] - q[1] \in -1..1 /\ p[2] - q[2] \in -1..1
RECURSIVE MFlood(_, _, _)
MFlood(I, done, front) ==
  IF front = {} THEN done
  ELSE LET around == {p \in {<<q[1] + dr, q[2] + dc>> : q \in front, dr \in -1..1, dc \in -1..1} :
                         p[1] \in 1..Len(I.map) /\ p[2] >= 1 /\ p[2] <= Len(I.map[p[1]])}
           q0 == CHOOSE q \in done : TRUE
           new == {p \in around : I.map[p[1]][p[2]] = I.map[q0[1]][q0[2]]} \ done
       IN MFlood(I, done \cup new, new)
RECURSIVE MRegionsR(_, _)
MRegionsR(I, land) == IF land = {} THEN <<>>
                      ELSE LET p == CHOOSE p \in land : TRUE
                               R == MFlood(I, {p}, {p})
                           IN <<R>> \o MRegionsR(I, land \ R)
MRegions(I) == MRegionsR(I, MLand(I))
MEdges(regs) == {ij \in (1..Len(regs)) \X (1..Len(regs)) : ij[1] < ij[2] /\ \E p \in regs[ij[1]], q \in regs[ij[2]] : MTouch(p, q)}
MDraw(I, regs, col) == [r \in 1..Len(I.map) |-> [c \in 1..Len(I.map[r]) |->
      IF I.map[r][c] \in {BLANK, DOT} THEN 0
      ELSE col[CHOOSE i \in 1..Len(regs) : <<r, c>> \in regs[i]]]]
\* a drawing: matrix of color numbers, 0 for a blank
MapIsSol(I, s) ==
  /\ Len(s) = Len(I.map) /\ \A r \in 1..Len(s) : Len(s[r]) = Len(I.map[r])
  /\ \A r \in 1..Len(s) : \A c \in 1..Len(s[r]) : IF I.map[r][c] \in {BLANK, DOT} THEN s[r][c] = 0 ELSE s[r][c] \in 1..I.k
  /\ \A r \in 1..Len(s) : \A c \in 1..Len(s[r]) : s[r][c] # 0 => \A dr, dc \in -1..1 :
        LET q == r + dr
            d == c + dc
        IN (q \in 1..Len(s) /\ d >= 1 /\ d <= Len(s[q])) =>
           (s[q][d] # 0 => (s[r][c] = s[q][d] <=> I.map[r][c] = I.map[q][d]))
MapSols(I) == LET regs == MRegions(I) IN {MDraw(I, regs, col) : col \in GraphExt(Len(regs), I.k, MEdges(regs), 1, {<<>>})}

(* ----------------------------------------------------------- knapsack *)
\* instance: [values, caps, weights (a row per item)]
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(v, s) == SumTo([i \in 1..Len(s) |-> v[i] * s[i]], Len(s))
KWeights(I, s) == [c \in 1..Len(I.caps) |-> Total([i \in 1..Len(s) |-> I.weights[i][c]], s)]
KFits(I, s) == \A c \in 1..Len(I.caps) : KWeights(I, s)[c] <= I.caps[c]
\* values, capacities and weights beyond TLC's 32 bits are numbers of module BigInt
Big == INSTANCE BigInt
KIsBig(I) == "big" \in DOMAIN I
RECURSIVE BigTotal(_, _, _)
BigTotal(v, s, n) == IF n = 0 THEN Big!BZero
                     ELSE LET t == BigTotal(v, s, n - 1) IN IF s[n] = 1 THEN Big!BAdd(v[n], t) ELSE t
BigWeights(I, s) == [c \in 1..Len(I.caps) |-> BigTotal([i \in 1..Len(s) |-> I.weights[i][c]], s, Len(s))]
BigFits(I, s) == \A c \in 1..Len(I.caps) : ~Big!BLess(I.caps[c], BigWeights(I, s)[c])
RECURSIVE KBits(_)
KBits(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, b) : t \in KBits(n - 1), b \in {0, 1}}
KSelections(I) == {s \in KBits(Len(I.values)) : IF KIsBig(I) THEN BigFits(I, s) ELSE KFits(I, s)}
KValue(I, s) == IF KIsBig(I) THEN BigTotal(I.values, s, Len(s)) ELSE Total(I.values, s)
KLoad(I, s) == IF KIsBig(I) THEN BigWeights(I, s) ELSE KWeights(I, s)
\* no selection that fits is worth more
KIsBest(I, s) == IF KIsBig(I) THEN \A t \in KSelections(I) : ~Big!BLess(KValue(I, s), KValue(I, t))
                 ELSE KValue(I, s) = SetMax({KValue(I, t) : t \in KSelections(I)})

(* -------------------------------------------------------- cryptarithm *)
\* instance: [f |-> equation, nolead |-> 0|1]; leaves <<"w", tokens>>, a token
\* is a digit 0..9 or 10 + index of a letter.  A solution lists <<letter, digit>>
\* by increasing letter.
RECURSIVE CWords(_)
CWords(f) == IF f[1] = "w" THEN {f[2]} ELSE CWords(f[2]) \cup CWords(f[3])
RECURSIVE CWordSeq(_)
CWordSeq(f) == IF f[1] = "w" THEN <<f[2]>> ELSE CWordSeq(f[2]) \o CWordSeq(f[3])
CLetters(f) == UNION {{w[i] : i \in {i \in 1..Len(w) : w[i] >= 10}} : w \in CWords(f)}
CLead(f) == {w[1] : w \in CWords(f)}
RECURSIVE CNum(_, _, _, _)
CNum(w, i, acc, a) == IF i > Len(w) THEN acc
                      ELSE CNum(w, i + 1, PyAdd(PyMul(acc, 10), IF w[i] < 10 THEN w[i] ELSE IF w[i] \in DOMAIN a THEN a[w[i]] ELSE 0), a)
RECURSIVE CEv(_, _)
CEv(f, a) == CASE f[1] = "w" -> CNum(f[2], 1, 0, a)
               [] f[1] = "+" -> PyAdd(CEv(f[2], a), CEv(f[3], a))
               [] f[1] = "-" -> PySub(CEv(f[2], a), CEv(f[3], a))
               [] f[1] = "*" -> PyMul(CEv(f[2], a), CEv(f[3], a))
               [] f[1] = "&" -> B2I(CEv(f[2], a) # 0 /\ CEv(f[3], a) # 0)
               [] f[1] = "|" -> B2I(CEv(f[2], a) # 0 \/ CEv(f[3], a) # 0)
               [] OTHER -> PyCmp(f[1], CEv(f[2], a), CEv(f[3], a))
\* the same over unbounded integers, for numbers beyond TLC's 32 bits
RECURSIVE CBigNum(_, _, _, _)
CBigNum(w, i, acc, a) == IF i > Len(w) THEN acc
                         ELSE CBigNum(w, i + 1, Big!BAdd(Big!BMul(acc, Big!BOf(10)), Big!BOf(IF w[i] < 10 THEN w[i] ELSE a[w[i]])), a)
RECURSIVE CBigEv(_, _)
CBigEv(f, a) == CASE f[1] = "w" -> CBigNum(f[2], 1, Big!BZero, a)
                  [] f[1] = "+" -> Big!BAdd(CBigEv(f[2], a), CBigEv(f[3], a))
                  [] f[1] = "-" -> Big!BSub(CBigEv(f[2], a), CBigEv(f[3], a))
                  [] f[1] = "*" -> Big!BMul(CBigEv(f[2], a), CBigEv(f[3], a))
                  [] f[1] = "&" -> Big!BBool(CBigEv(f[2], a) # Big!BZero /\ CBigEv(f[3], a) # Big!BZero)
                  [] f[1] = "|" -> Big!BBool(CBigEv(f[2], a) # Big!BZero \/ CBigEv(f[3], a) # Big!BZero)
                  [] OTHER -> Big!BCmp(f[1], CBigEv(f[2], a), CBigEv(f[3], a))
CIsBig(f) == \E w \in CWords(f) : Len(w) > 8
CHolds(I, a) == IF CIsBig(I.f) THEN CBigEv(I.f, a) = Big!BOne ELSE CEv(I.f, a) # 0 /\ ~IsBad(CEv(I.f, a))
CFunc(s) == [x \in {s[i][1] : i \in 1..Len(s)} |-> s[CHOOSE i \in 1..Len(s) : s[i][1] = x][2]]
RECURSIVE CSeq(_, _)
CSeq(a, L) == IF L = {} THEN <<>> ELSE LET x == SetMin(L) IN <<<<x, a[x]>>>> \o CSeq(a, L \ {x})
CryptIsSol(I, s) ==
  LET L == CLetters(I.f) IN
  /\ Len(s) = Cardinality(L) /\ {s[i][1] : i \in 1..Len(s)} = L
  /\ \A i \in 1..Len(s) : s[i][2] \in 0..9 /\ \A j \in 1..(i - 1) : s[j][2] # s[i][2] /\ s[j][1] < s[i][1]
  /\ I.nolead = 1 => \A i \in 1..Len(s) : s[i][1] \in CLead(I.f) => s[i][2] # 0
  /\ CHolds(I, CFunc(s))
RECURSIVE CExt(_, _, _)
\* all extensions of the injective assignments in S to the letters L
CExt(I, L, S) ==
  IF L = {} THEN S
  ELSE LET x == SetMin(L)
           D == IF I.nolead = 1 /\ x \in CLead(I.f) THEN 1..9 ELSE 0..9
       IN CExt(I, L \ {x}, UNION {{a @@ (x :> v) : v \in D \ {a[y] : y \in DOMAIN a}} : a \in S})
NoLetters == [x \in {} |-> 0]
CryptBrute(I) == {CSeq(a, CLetters(I.f)) : a \in {a \in CExt(I, CLetters(I.f), {NoLetters}) : CHolds(I, a)}}
\* equations over + - * hold only if they hold modulo every power of ten, which
\* involves the letters of the low columns only
RECURSIVE CIsRing(_)
CIsRing(f) == f[1] = "w" \/ (f[1] \in {"+", "-", "*"} /\ CIsRing(f[2]) /\ CIsRing(f[3]))
CColLetters(f, j) == {w[Len(w) - j] : w \in {w \in CWords(f) : Len(w) > j}} \cap CLetters(f)
RECURSIVE CCols(_, _, _, _)
CCols(I, j, m, S) ==
  LET width == SetMax({Len(w) : w \in CWords(I.f)})
      old == UNION {CColLetters(I.f, i) : i \in 0..(j - 1)}
      ext == CExt(I, CColLetters(I.f, j) \ old, S)
      ok(a) == LET d == PySub(CEv(I.f[2], a), CEv(I.f[3], a)) IN IsBad(d) \/ d % m = 0
  IN IF j >= width THEN S ELSE CCols(I, j + 1, m * 10, {a \in ext : ok(a)})
CryptCols(I) == {CSeq(a, CLetters(I.f)) : a \in {a \in CCols(I, 0, 10, {NoLetters}) : CHolds(I, a)}}
CryptSols(I) == IF ~CIsBig(I.f) /\ I.f[1] = "==" /\ CIsRing(I.f[2]) /\ CIsRing(I.f[3]) THEN CryptCols(I) ELSE CryptBrute(I)

(* ------------------------------------------------------------- queens *)
\* instance: [n |-> board size]; a solution is a board of 0/1
QSafe(t, v) == \A i \in 1..Len(t) : t[i] # v /\ (Len(t) + 1 - i) # (t[i] - v) /\ (Len(t) + 1 - i) # (v - t[i])
RECURSIVE QExt(_, _, _)
QExt(n, i, S) == IF i > n THEN S ELSE QExt(n, i + 1, UNION {{Append(t, v) : v \in {v \in 1..n : QSafe(t, v)}} : t \in S})
QueensIsSol(I, s) ==
  /\ IsMatrix(s, I.n, I.n)
  /\ \A r, c \in 1..I.n : s[r][c] \in {0, 1}
  /\ \A r \in 1..I.n : Cardinality({c \in 1..I.n : s[r][c] = 1}) = 1
  /\ LET Q == {p \in (1..I.n) \X (1..I.n) : s[p[1]][p[2]] = 1} IN
     \A p, q \in Q : p # q => p[1] # q[1] /\ p[2] # q[2] /\ p[1] - p[2] # q[1] - q[2] /\ p[1] + p[2] # q[1] + q[2]
QueensSols(I) == {[r \in 1..I.n |-> [c \in 1..I.n |-> B2I(t[r] = c)]] : t \in QExt(I.n, 1, {<<>>})}

(* ----------------------------------------------------------- einstein *)
\* a solution lists for house 1..5 <<owner, color, drink, smoke, animal>>, numbered
\* English Swede Dane Norwegian German / red green white yellow blue /
\* water coffee tea milk beer / Pall-Mall Prince Dunhill Blend Blue-Master /
\* cats dog birds horse zebra
Perms5 == {p \in [1..5 -> 1..5] : \A i, j \in 1..5 : i # j => p[i] # p[j]}
Near(a, b) == a - b \in {-1, 1}
ESols ==
  LET O == {o \in Perms5 : o[4] = 1}
      OC == {x \in O \X {c \in Perms5 : c[2] = c[3] - 1} : x[1][1] = x[2][1] /\ Near(x[1][4], x[2][5])}
      OCD == {<<x[1], x[2], d>> : x \in OC, d \in {d \in Perms5 : d[4] = 3}}
      OCD2 == {x \in OCD : x[1][3] = x[3][3] /\ x[2][2] = x[3][2]}
      OCDS == {<<x[1], x[2], x[3], s>> : x \in OCD2, s \in Perms5}
      OCDS2 == {x \in OCDS : x[2][4] = x[4][3] /\ x[4][5] = x[3][5] /\ x[1][5] = x[4][2] /\ Near(x[3][1], x[4][4])}
      ALL == {<<x[1], x[2], x[3], x[4], a>> : x \in OCDS2, a \in Perms5}
  IN {x \in ALL : x[1][2] = x[5][2] /\ x[4][1] = x[5][3] /\ Near(x[4][4], x[5][1]) /\ Near(x[4][3], x[5][4])}
EinsteinSols(I) == {[h \in 1..5 |-> [k \in 1..5 |-> CHOOSE i \in 1..5 : x[k][i] = h]] : x \in ESols}
EinsteinIsSol(I, s) ==
  /\ IsMatrix(s, 5, 5)
  /\ \A k \in 1..5 : {s[h][k] : h \in 1..5} = 1..5
  /\ LET at(k, v) == CHOOSE h \in 1..5 : s[h][k] = v IN
     /\ at(1, 1) = at(2, 1) /\ at(1, 2) = at(5, 2) /\ at(1, 3) = at(3, 3) /\ at(2, 2) = at(2, 3) - 1
     /\ at(3, 2) = at(2, 2) /\ at(4, 1) = at(5, 3) /\ at(2, 4) = at(4, 3) /\ at(3, 4) = 3 /\ at(1, 4) = 1
     /\ Near(at(4, 4), at(5, 1)) /\ Near(at(4, 3), at(5, 4)) /\ at(4, 5) = at(3, 5) /\ at(1, 5) = at(4, 2)
     /\ Near(at(1, 4), at(2, 5)) /\ Near(at(3, 1), at(4, 4))

(* ------------------------------------------------------------ any kind *)
Acceptable(kind, I) == CASE kind = "sudoku" -> SudokuOk(I)
                         [] kind = "knapsack" -> I.ok = 1
                         [] OTHER -> TRUE
IsSol(kind, I, s) == CASE kind = "sudoku" -> SudokuIsSol(I, s)
                       [] kind = "nonogram" -> NonoIsSol(I, s)
                       [] kind = "graph" -> GraphIsSol(I, s)
                       [] kind = "map" -> MapIsSol(I, s)
                       [] kind = "crypt" -> CryptIsSol(I, s)
                       [] kind = "queens" -> QueensIsSol(I, s)
                       [] kind = "einstein" -> EinsteinIsSol(I, s)
Sols(kind, I) == CASE kind = "sudoku" -> SudokuSols(I)
                   [] kind = "nonogram" -> NonoSols(I)
                   [] kind = "graph" -> GraphSols(I)
                   [] kind = "map" -> MapSols(I)
                   [] kind = "crypt" -> CryptSols(I)
                   [] kind = "queens" -> QueensSols(I)
                   [] kind = "einstein" -> EinsteinSols(I)
                   [] OTHER -> {}
=============================================================================
