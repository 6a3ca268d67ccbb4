---------------------------- MODULE SearchRefines ----------------------------
(* The library's search (module Search) is a backtracking enumeration in the  *)
(* sense of module Backtrack, whose promises are proved for problems of every *)
(* size: each of its steps is one that module allows or leaves it where it is.*)
EXTENDS Search

InLevels(s) == [k \in 1..NV |-> s[order[k]]]
OrNone(c) == IF c = None THEN {} ELSE Range(c)
Untouched == G.st = "new" \/ (depth = 0 /\ intr = "limit")
Sols == {InLevels(s) : s \in G.sols}
Pairs == {p \in G.sols \X G.sols : Better(G.objs, p[1], p[2], <<>>)}

B == INSTANCE Backtrack WITH
  pb <- [n |-> NV, dom |-> [k \in 1..NV |-> Range(P0.dom[order[k]])], sols |-> Sols,
         better |-> IF G.objs = <<>> THEN {} ELSE {<<InLevels(p[1]), InLevels(p[2])>> : p \in Pairs}, opt |-> G.objs # <<>>],
  depth <- IF Untouched THEN 1 ELSE depth,
  sub <- IF Untouched \/ depth = 0 THEN <<>> ELSE SubSeq(sub, 1, depth - 1),
  open <- [k \in 1..NV |-> cand[k] # None],
  cand <- [k \in 1..NV |-> OrNone(cand[k])],
  out <- {InLevels(s) : s \in Range(G.seq)},
  last <- IF G.seq = <<>> THEN <<>> ELSE InLevels(G.seq[Len(G.seq)]),
  dup <- Len(G.seq) # Cardinality(Range(G.seq)),
  sunk <- G.objs # <<>> /\ \E i \in 2..Len(G.seq) : ~Better(G.objs, G.seq[i], G.seq[i - 1], <<>>)

IsBacktracking == [][B!BNext]_B!bvars
=============================================================================
