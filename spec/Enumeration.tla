----------------------------- MODULE Enumeration ----------------------------
(* What one enumeration (one solve or optimize call) may do.  An enumeration  *)
(* is a record                                                                *)
(*   P      the problem: model plus additional constraints at its start       *)
(*   sols   Solutions(P), {} when the model is marked not solvable            *)
(*   pol    variable selection policy      lim  limit or -1                   *)
(*   to     timeout or -1 (milliseconds)   objs objectives, <<>> for solve    *)
(*   ordered  all domains are sequences                                       *)
(*   seq    solutions yielded so far       el   time spent searching so far   *)
(*   st     "new" | "run" | "end" | "closed"                                  *)
(* Every guard is a total operator returning the names of the clauses that    *)
(* are violated, so that an action is allowed iff the set is empty and a      *)
(* rejected trace names what it broke.                                        *)
EXTENDS Csp, TLC

NoBound == -1

Opened(P, solvable, pol, lim, to, objs, ordered) ==
  [P |-> P, sols |-> IF solvable THEN Solutions(P) ELSE {}, pol |-> pol, lim |-> lim, to |-> to,
   objs |-> objs, ordered |-> ordered, seq |-> <<>>, el |-> 0, st |-> "new"]

DeclOrder(P) == [i \in 1..Len(P.dom) |-> i]
RevOrder(P) == [i \in 1..Len(P.dom) |-> Len(P.dom) + 1 - i]

LimitReached(G) == G.lim # NoBound /\ Len(G.seq) >= G.lim
TimedOut(G) == G.to # NoBound /\ G.el > G.to
\* nothing is left to yield
Exhausted(G) ==
  IF G.objs = <<>> THEN Cardinality(Range(G.seq)) = Cardinality(G.sols)
  ELSE IF G.seq = <<>> THEN G.sols = {}
  ELSE ~ \E t \in G.sols : Better(G.objs, t, G.seq[Len(G.seq)], G.P.par)

V(name, broken) == IF broken THEN {name} ELSE {}

(* G: the enumeration when the request was made; s: the solution yielded *)
YieldViol(G, s) ==
  LET n == Len(G.seq)
      dims == Len(s) = Len(G.P.dom)
      indom == dims /\ \A k \in 1..Len(s) : s[k] \in Range(G.P.dom[k])
      sat == indom /\ s \in G.sols
  IN V("ended", G.st \notin {"new", "run"})
     \cup V("domain", ~indom)
     \cup V("sat", indom /\ ~sat)
     \cup V("dup", s \in Range(G.seq))
     \cup V("limit", LimitReached(G))
     \cup V("late", TimedOut(G))
     \cup V("order", /\ sat /\ n > 0 /\ G.ordered /\ G.seq[n] \in G.sols
                     /\ \/ G.pol = "ORDERED" /\ ~LexLess(G.P, DeclOrder(G.P), G.seq[n], s)
                        \/ G.pol = "REVERSED" /\ ~LexLess(G.P, RevOrder(G.P), G.seq[n], s))
     \cup V("improve", G.objs # <<>> /\ sat /\ \E i \in 1..n : G.seq[i] \in G.sols /\ ~Better(G.objs, s, G.seq[i], G.P.par))

(* G: the enumeration when it ended, the time of the last request included *)
EndViol(G) ==
  LET legit == Exhausted(G) \/ LimitReached(G) \/ TimedOut(G) IN
     V("incomplete", ~legit /\ G.objs = <<>>)
     \cup V("suboptimal", ~legit /\ G.objs # <<>>)
     \cup V("cut", ~legit /\ G.to # NoBound)
     \cup V("limitcut", ~legit /\ G.lim # NoBound)

(* interrupt reasons an ended enumeration may report *)
Reasons(G) == IF LimitReached(G) THEN {"limit"}
              ELSE (IF TimedOut(G) THEN {"timeout"} ELSE {}) \cup (IF Exhausted(G) THEN {"none"} ELSE {})

Yielded(G, s, dt) == [G EXCEPT !.seq = Append(@, s), !.el = @ + dt, !.st = "run"]
Ended(G, dt) == [G EXCEPT !.el = @ + dt, !.st = "end"]
Closed(G) == [G EXCEPT !.st = IF @ = "end" THEN "end" ELSE "closed"]
=============================================================================
