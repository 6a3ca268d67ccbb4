------------------------------ MODULE Backtrack ------------------------------
(* What any backtracking enumeration with pruning may do, for problems of any *)
(* size.  pb: the problem in the order of its levels: n levels, dom the       *)
(* values of each, sols the assignments <<v1, ..., vn>> that satisfy it,      *)
(* better the pairs <<s, t>> where s improves on t, opt whether it optimizes. *)
(* open[k]: the candidates of level k are computed; cand[k]: those left.      *)
(* A level may drop any value below which nothing is left worth yielding.     *)
(* out: what was yielded, last: the latest, dup: something was yielded twice, *)
(* sunk: something was yielded that does not improve on the one before.       *)
EXTENDS Integers, Sequences
VARIABLES pb, depth, sub, open, cand, out, last, dup, sunk
bvars == <<pb, depth, sub, open, cand, out, last, dup, sunk>>

Beats(s) == pb.opt /\ out # {} => <<s, last>> \in pb.better
Extends(s, t) == \A j \in 1..Len(t) : s[j] = t[j]

BInit(Problem) ==
  /\ pb \in Problem
  /\ depth = 1 /\ sub = <<>>
  /\ open = [k \in 1..pb.n |-> FALSE] /\ cand = [k \in 1..pb.n |-> {}]
  /\ out = {} /\ last = <<>> /\ dup = FALSE /\ sunk = FALSE

Justified(keep) ==
  /\ keep \subseteq pb.dom[depth]
  /\ \A s \in pb.sols : Extends(s, sub) /\ Beats(s) => s[depth] \in keep
  /\ depth = pb.n => \A v \in keep : Append(sub, v) \in pb.sols

BExpand(keep) ==
  /\ depth > 0 /\ ~open[depth] /\ Justified(keep) /\ keep # {}
  /\ open' = [open EXCEPT ![depth] = TRUE] /\ cand' = [cand EXCEPT ![depth] = keep]
  /\ UNCHANGED <<pb, depth, sub, out, last, dup, sunk>>
BBack ==
  /\ depth > 0 /\ ((open[depth] /\ cand[depth] = {}) \/ (~open[depth] /\ Justified({})))
  /\ open' = [open EXCEPT ![depth] = FALSE] /\ cand' = [cand EXCEPT ![depth] = {}]
  /\ depth' = depth - 1 /\ sub' = SubSeq(sub, 1, depth - 2)
  /\ UNCHANGED <<pb, out, last, dup, sunk>>
BDown(v) ==
  /\ depth > 0 /\ depth < pb.n /\ open[depth] /\ v \in cand[depth]
  /\ cand' = [cand EXCEPT ![depth] = @ \ {v}]
  /\ depth' = depth + 1 /\ sub' = Append(sub, v)
  /\ UNCHANGED <<pb, open, out, last, dup, sunk>>
BYield(v) ==
  /\ depth = pb.n /\ open[depth] /\ v \in cand[depth] /\ Beats(Append(sub, v))
  /\ cand' = [cand EXCEPT ![depth] = @ \ {v}]
  /\ out' = out \cup {Append(sub, v)} /\ last' = Append(sub, v)
  /\ dup' = (dup \/ Append(sub, v) \in out)
  /\ sunk' = (sunk \/ (pb.opt /\ out # {} /\ <<Append(sub, v), last>> \notin pb.better))
  /\ UNCHANGED <<pb, depth, sub, open>>
BSkip(v) ==
  /\ depth = pb.n /\ open[depth] /\ v \in cand[depth] /\ ~Beats(Append(sub, v))
  /\ cand' = [cand EXCEPT ![depth] = @ \ {v}]
  /\ UNCHANGED <<pb, depth, sub, open, out, last, dup, sunk>>

BNext == \/ (depth > 0 /\ \E keep \in SUBSET pb.dom[depth] : BExpand(keep))
         \/ BBack
         \/ (depth > 0 /\ \E v \in cand[depth] : BDown(v) \/ BYield(v) \/ BSkip(v))

(* ------------------------------ what it promises --------------------------- *)
OnlySolutions == out \subseteq pb.sols
NeverTwice == ~dup
Improves == ~sunk
\* at the end: everything, or nothing better than the last
AllFound == depth = 0 /\ ~pb.opt => out = pb.sols
BestFound == depth = 0 /\ pb.opt => /\ (pb.sols # {} => out # {})
                                   /\ \A s \in pb.sols \ out : <<s, last>> \notin pb.better
=============================================================================
