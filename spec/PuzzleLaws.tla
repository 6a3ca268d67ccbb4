----------------------------- MODULE PuzzleLaws -----------------------------
(* The two halves of module Puzzles agree: the solutions constructed by Sols  *)
(* are exactly the candidates that IsSol accepts, for every instance of small *)
(* families.  One TLC state per instance; the candidates are all matrices (or *)
(* tuples) of the right shape.                                                *)
EXTENDS Puzzles
CONSTANT Kind

VARIABLES inst, ph


Mats(nr, nc, D) == LET flat == [1..(nr * nc) -> D] IN {[r \in 1..nr |-> [c \in 1..nc |-> f[(r - 1) * nc + c]]] : f \in flat}
SubSeqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
SumSeq(s) == SumTo(s, Len(s))

\* nonogram: all clues (fitting or not) of a shape
NonoClues(n) == {s \in SubSeqs(1..(n + 1), (n + 1) \div 2 + 1) : SumSeq(s) <= n + 1}
NonoInst == UNION {{[rows |-> rs, cols |-> cs] : rs \in [1..sh[1] -> NonoClues(sh[2])], cs \in [1..sh[2] -> NonoClues(sh[1])]} : sh \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}}
            \cup {[rows |-> [r \in 1..3 |-> Runs(p[r])], cols |-> [c \in 1..3 |-> Runs(Column(p, c))]] : p \in Mats(3, 3, {0, 1})}
            \cup {[rows |-> <<r1, r2>>, cols |-> cs] : r1, r2 \in {<<>>, <<1>>, <<1, 1>>, <<2>>}, cs \in [1..4 -> {<<>>, <<1>>, <<2>>}]}
\* graphs: every set of ordered pairs (loops and double edges included)
GraphInst == UNION {{[n |-> n, k |-> k, edges |-> SetSeq] : SetSeq \in UNION {[1..m -> (1..n) \X (1..n)] : m \in 0..3}} : n \in 0..3, k \in 0..3}
\* maps
MapInst == {[map |-> m, k |-> k] : m \in Mats(2, 3, {65, 66, 32}) \cup Mats(1, 4, {65, 66, 46}) \cup Mats(3, 2, {65, 32}), k \in 1..2}
           \cup {[map |-> <<a, b>>, k |-> 2] : a \in SubSeqs({65, 66, 32}, 3), b \in SubSeqs({65, 32}, 2)}
\* queens
QueensInst == {[n |-> n] : n \in 0..4}
\* cryptarithms over three letters
T == {10, 11, 12, 1}
Wd == {<<"w", w>> : w \in (T \X {10, 11}) \cup {<<t>> : t \in T}}
CryptInst == {[f |-> <<"==", <<"+", a, b>>, c>>, nolead |-> z] : a, b, c \in Wd, z \in {0, 1}}
             \cup {[f |-> <<"==", <<"*", a, b>>, c>>, nolead |-> z] : a, b, c \in Wd, z \in {0, 1}}
             \cup {[f |-> <<op, <<"-", a, b>>, c>>, nolead |-> z] : op \in {"<", "!="}, a, b, c \in {<<"w", <<10>>>>, <<"w", <<11, 12>>>>, <<"w", <<10, 2>>>>}, z \in {0, 1}}
CryptCand(I) == LET L == CLetters(I.f) IN {CSeq(a, L) : a \in [L -> 0..9]}
\* sudokus: a valid grid with three cells unknown, possibly one given changed
Base == [r \in 1..9 |-> [c \in 1..9 |-> (((r - 1) * 3 + ((r - 1) \div 3) + c - 1) % 9) + 1]]
SudInst == {[grid |-> [r \in 1..9 |-> [c \in 1..9 |-> IF <<r, c>> \in {p, q, s} THEN 0 ELSE IF bad = <<r, c>> THEN 1 ELSE Base[r][c]]]] :
              p \in {<<1, 1>>, <<1, 4>>}, q \in {<<4, 2>>, <<2, 1>>, <<1, 2>>}, s \in {<<2, 4>>, <<2, 2>>, <<9, 9>>}, bad \in {<<0, 0>>, <<1, 1>>, <<2, 4>>, <<5, 5>>, <<1, 9>>}}
SudCand(I) == LET B == {p \in (1..9) \X (1..9) : I.grid[p[1]][p[2]] = 0} IN
              {[r \in 1..9 |-> [c \in 1..9 |-> IF <<r, c>> \in B THEN f[<<r, c>>] ELSE I.grid[r][c]]] : f \in [B -> 1..9]}
\* Einstein: the constructed assignments and those that differ from one by a swap in one attribute
Swap(s, k, a, b) == [h \in 1..5 |-> [j \in 1..5 |-> IF j = k /\ h = a THEN s[b][k] ELSE IF j = k /\ h = b THEN s[a][k] ELSE s[h][j]]]

Insts == CASE Kind = "nonogram" -> NonoInst [] Kind = "graph" -> GraphInst [] Kind = "map" -> MapInst [] Kind = "queens" -> QueensInst
               [] Kind = "crypt" -> CryptInst [] Kind = "sudoku" -> SudInst [] Kind = "einstein" -> {[n |-> 5]}
Cand(I) == CASE Kind = "nonogram" -> Mats(Len(I.rows), Len(I.cols), {0, 1})
             [] Kind = "graph" -> [1..I.n -> 1..I.k]
             [] Kind = "map" -> LET cells == UNION {{<<r, c>> : c \in 1..Len(I.map[r])} : r \in 1..Len(I.map)} IN
                                {[r \in 1..Len(I.map) |-> [c \in 1..Len(I.map[r]) |-> f[<<r, c>>]]] : f \in [cells -> 0..I.k]}
             [] Kind = "queens" -> Mats(I.n, I.n, {0, 1})
             [] Kind = "crypt" -> CryptCand(I)
             [] Kind = "sudoku" -> SudCand(I)
             [] Kind = "einstein" -> LET S == EinsteinSols(I) IN S \cup {Swap(s, k, a, b) : s \in S, k \in 1..5, a, b \in 1..5}

Init == inst \in Insts /\ ph = 0
Next == ph = 0 /\ ph' = 1 /\ UNCHANGED inst
Agree == ph = 1 => Sols(Kind, inst) = {s \in Cand(inst) : IsSol(Kind, inst, s)}
\* the column-wise construction of cryptarithm solutions loses nothing
Columns == (ph = 1 /\ Kind = "crypt" /\ inst.f[1] = "==") => CryptCols(inst) = CryptBrute(inst)
\* every region of a map is connected, and regions do not touch others of the same character
Regions == (ph = 1 /\ Kind = "map") =>
   LET R == MRegions(inst) IN
   /\ UNION RangeOf(R) = MLand(inst)
   /\ \A i, j \in 1..Len(R) : i # j => R[i] \cap R[j] = {} /\ \A p \in R[i], q \in R[j] : MTouch(p, q) => inst.map[p[1]][p[2]] # inst.map[q[1]][q[2]]
   /\ \A i \in 1..Len(R) : \A A \in SUBSET R[i] : A \in {{}, R[i]} \/ \E p \in A, q \in R[i] \ A : MTouch(p, q)
\* there is exactly one way to live
Unique == (ph = 1 /\ Kind = "einstein") => Cardinality(EinsteinSols(inst)) = 1
=============================================================================
