------------------------------ MODULE Encodings ------------------------------
(* How the puzzle solvers turn a puzzle into a problem over variables, and    *)
(* that the encoding is right: decoding maps the problem's solutions one to   *)
(* one onto the puzzle's solutions (module Puzzles), for every instance of    *)
(* the families of PuzzleLaws.  What the library does with the problem is     *)
(* the business of Search.  Bug selects a broken encoding.                    *)
EXTENDS PuzzleLaws
CONSTANT Bug
S == INSTANCE Csp
VR(k) == <<"v", k>>
I(n) == <<"i", n>>

(* ------------------------------ nonogram ------------------------------ *)
\* one variable per run: where it starts.  A line's runs: <<variable, length, first, last + 1>>
Blk(line, n, k, first) ==   \* k-th run of a line of n cells; first: number of the line's first variable
  LET before == SumSeq(SubSeq(line, 1, k - 1)) + k - 1
      rest == SumSeq(SubSeq(line, k, Len(line))) + Len(line) - k
  IN [v |-> first + k - 1, size |-> line[k], lo |-> before, hi |-> n - rest]
RECURSIVE Lay(_, _, _)
\* runs of all lines, numbered consecutively
Lay(lines, n, first) == IF lines = <<>> THEN <<>>
                        ELSE <<[k \in 1..Len(Head(lines)) |-> Blk(Head(lines), n, k, first)]>> \o Lay(Tail(lines), n, first + Len(Head(lines)))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SumOf(_)
SumOf(es) == IF es = <<>> THEN I(0) ELSE IF Len(es) = 1 THEN es[1] ELSE <<"+", SumOf(SubSeq(es, 1, Len(es) - 1)), es[Len(es)]>>
IvSeq(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1]
\* cell c is covered by the run
Covers(b, c) == <<"&", <<"<=", VR(b.v), I(c)>>, <<"<", I(c), <<"+", VR(b.v), I(b.size)>>>>>>
Window(b, c) == IF Bug = "window" THEN b.lo <= c /\ c <= b.hi ELSE b.lo <= c /\ c < b.hi + b.size
NonoEnc(In) ==
  LET R == Lay(In.rows, Len(In.cols), 1)
      nr == Len(Flat(R))
      C == Lay(In.cols, Len(In.rows), nr + 1)
      vs == Flat(R) \o Flat(C)
      lines == R \o C
      gap == Flat([i \in 1..Len(lines) |-> [k \in 1..(Len(lines[i]) - 1) |->
                 <<"e", <<">", VR(lines[i][k + 1].v), <<"+", VR(lines[i][k].v), I(lines[i][k].size - (IF Bug = "gap" THEN 1 ELSE 0))>>>>>>]])
      cell(r, c) == <<"e", <<"==", SumOf(SelectSeq([k \in 1..Len(R[r]) |-> IF Window(R[r][k], c - 1) THEN Covers(R[r][k], c - 1) ELSE I(0)], LAMBDA e : e[1] # "i")),
                                   SumOf(SelectSeq([k \in 1..Len(C[c]) |-> IF Window(C[c][k], r - 1) THEN Covers(C[c][k], r - 1) ELSE I(0)], LAMBDA e : e[1] # "i"))>>>>
      cells == Flat([r \in 1..Len(In.rows) |-> [c \in 1..Len(In.cols) |-> cell(r, c)]])
  IN [dom |-> [k \in 1..Len(vs) |-> IvSeq(vs[k].lo, vs[k].hi)], cons |-> gap \o cells, par |-> <<>>]
NonoDec(In, s) ==
  LET R == Lay(In.rows, Len(In.cols), 1) IN
  [r \in 1..Len(In.rows) |-> [c \in 1..Len(In.cols) |->
     B2I(\E k \in 1..Len(R[r]) : s[R[r][k].v] <= c - 1 /\ c - 1 < s[R[r][k].v] + R[r][k].size)]]

(* ------------------------------- queens ------------------------------- *)
\* a column per row, and for every row r (they are all alike) the diagonals of
\* all queens: q_c + c and q_c - c
QueensEnc(In) ==
  LET n == In.n
      q == [c \in 1..n |-> c]
      ul == [c \in 1..n |-> n + 2 * c - 1]
      ur == [c \in 1..n |-> n + 2 * c]
  IN [dom |-> [k \in 1..(3 * n) |-> IF k <= n THEN IvSeq(0, n - 1) ELSE IF (k - n) % 2 = 1 THEN IvSeq(0, (IF Bug = "diag" THEN 2 * n - 3 ELSE 2 * n)) ELSE IvSeq(-n, n)],
      cons |-> Flat([c \in 1..n |-> <<<<"e", <<"==", VR(ul[c]), <<"+", VR(c), I(c - 1)>>>>>>, <<"e", <<"==", VR(ur[c]), <<"-", VR(c), I(c - 1)>>>>>>>>])
               \o <<<<"ad", q>>, <<"ad", ul>>, <<"ad", ur>>>>, par |-> <<>>]
QueensDec(In, s) == [r \in 1..In.n |-> [c \in 1..In.n |-> B2I(s[r] = c - 1)]]

(* ------------------------------- sudoku ------------------------------- *)
\* a variable per unknown cell, over the digits its peers leave; all-different
\* groups for units with more than one unknown; nothing is satisfiable when two
\* given peers are equal
SudUnknown(In) == SelectSeq(Flat([r \in 1..9 |-> [c \in 1..9 |-> <<r, c>>]]), LAMBDA p : In.grid[p[1]][p[2]] = 0)
RECURSIVE SeqOf(_)
SeqOf(D) == IF D = {} THEN <<>> ELSE LET m == SetMin(D) IN <<m>> \o SeqOf(D \ {m})
Units == [u \in 1..27 |-> IF u <= 9 THEN {<<u, c>> : c \in 1..9} ELSE IF u <= 18 THEN {<<r, u - 9>> : r \in 1..9}
                          ELSE LET b == u - 19 IN {<<(b \div 3) * 3 + i, (b % 3) * 3 + j>> : i \in 1..3, j \in 1..3}]
SudEnc(In) ==
  LET U == SudUnknown(In)
      g(p) == In.grid[p[1]][p[2]]
      seen(p) == {g(q) : q \in UNION {Units[u] : u \in {u \in 1..27 : p \in Units[u]}}}
      inunit(u) == SelectSeq([k \in 1..Len(U) |-> k], LAMBDA k : U[k] \in Units[u])
      clash == \E u \in 1..27 : \E p, q \in Units[u] : p # q /\ g(p) # 0 /\ g(p) = g(q)
      few == IF Bug = "pairs" THEN 2 ELSE 1
  IN [dom |-> [k \in 1..Len(U) |-> SeqOf((1..9) \ seen(U[k]))],
      cons |-> SelectSeq([u \in 1..27 |-> <<"ad", inunit(u)>>], LAMBDA c : Len(c[2]) > few) \o (IF clash /\ Bug # "clash" THEN <<<<"b", 0>>>> ELSE <<>>), par |-> <<>>]
SudDec(In, s) == LET U == SudUnknown(In) IN
  [r \in 1..9 |-> [c \in 1..9 |-> IF In.grid[r][c] = 0 THEN s[CHOOSE k \in 1..Len(U) : U[k] = <<r, c>>] ELSE In.grid[r][c]]]

(* ----------------------------- cryptarithm ----------------------------- *)
\* every number becomes its digits' value plus letters times the sum of the
\* powers of ten at their places
RECURSIVE P10(_)
P10(n) == IF n = 0 THEN 1 ELSE 10 * P10(n - 1)
WordEnc(w, idx) ==
  LET n == Len(w)
      coef(x) == SumSeq([i \in 1..n |-> IF w[i] = x THEN P10(n - i) ELSE 0])
      num == SumSeq([i \in 1..n |-> IF w[i] < 10 THEN w[i] * P10(n - i) ELSE 0])
      letters == SeqOf({w[i] : i \in {i \in 1..n : w[i] >= 10}})
  IN SumOf(<<I(num)>> \o [i \in 1..Len(letters) |-> IF coef(letters[i]) = 1 THEN VR(idx[letters[i]]) ELSE <<"*", VR(idx[letters[i]]), I(coef(letters[i]))>>])
RECURSIVE FormEnc(_, _)
FormEnc(f, idx) == IF f[1] = "w" THEN WordEnc(f[2], idx) ELSE <<f[1], FormEnc(f[2], idx), FormEnc(f[3], idx)>>
CryptEnc(In) ==
  LET L == SeqOf(CLetters(In.f))
      idx == [x \in CLetters(In.f) |-> CHOOSE i \in 1..Len(L) : L[i] = x]
  IN [dom |-> [k \in 1..Len(L) |-> IF In.nolead = 1 /\ L[k] \in CLead(In.f) THEN IvSeq(1, 9) ELSE IvSeq(0, 9)],
      cons |-> <<<<"ad", [k \in 1..Len(L) |-> k]>>, <<"e", FormEnc(In.f, idx)>>>>, par |-> <<>>]
CryptDec(In, s) == LET L == SeqOf(CLetters(In.f)) IN [i \in 1..Len(L) |-> <<L[i], s[i]>>]

(* ----------------------------- graphs, maps ----------------------------- *)
GraphEnc(In) == [dom |-> [k \in 1..In.n |-> IvSeq(1, In.k)], cons |-> [i \in 1..Len(In.edges) |-> <<"e", <<"!=", VR(In.edges[i][1]), VR(In.edges[i][2])>>>>], par |-> <<>>]
GraphDec(In, s) == s

Enc(In) == CASE Kind = "nonogram" -> NonoEnc(In) [] Kind = "queens" -> QueensEnc(In) [] Kind = "sudoku" -> SudEnc(In)
             [] Kind = "crypt" -> CryptEnc(In) [] Kind = "graph" -> GraphEnc(In)
Dec(In, s) == CASE Kind = "nonogram" -> NonoDec(In, s) [] Kind = "queens" -> QueensDec(In, s) [] Kind = "sudoku" -> SudDec(In, s)
                [] Kind = "crypt" -> CryptDec(In, s) [] Kind = "graph" -> GraphDec(In, s)
\* one to one and onto
Right == ph = 1 => LET X == S!Solutions(Enc(inst))
                       Y == {Dec(inst, s) : s \in X}
                   IN Y = Sols(Kind, inst) /\ Cardinality(Y) = Cardinality(X)
=============================================================================
