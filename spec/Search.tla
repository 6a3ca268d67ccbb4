------------------------------- MODULE Search -------------------------------
(* The search the library performs, as an algorithm: variables in the order   *)
(* the policy chose, an explicit stack of levels with the candidate values    *)
(* left at each, a clock that is looked at once per iteration, a limit, the   *)
(* bound an optimization tightens after every solution.  Checked against what *)
(* an enumeration may do (module Enumeration): every yield and every end must *)
(* be one it allows, whatever the problem, the order, the clock and the       *)
(* consumer do.  Bug selects a deliberately broken variant, which must be     *)
(* rejected.                                                                  *)
EXTENDS Instances, Enumeration
CONSTANTS Bug, Limits, Timeouts, WithObjs, Tick

VARIABLES G,       \* the enumeration (ghost), a record of module Enumeration
          order,   \* <<variable, ...>> as the policy ordered them
          depth,   \* levels on the stack; the top one assigns order[depth]
          sub,     \* values assigned below the top level: <<v, ...>>
          cand,    \* candidates left per level; "none" when not computed
          bound,   \* best objective values so far, <<>> when none
          now,     \* time spent searching
          late,    \* levels expanded since the time was over
          st,      \* "search" | "yield" (the consumer has control) | "end" | "closed"
          intr,    \* interrupt reason
          viol
vars == <<G, order, depth, sub, cand, bound, now, late, st, intr, viol>>

None == <<-1>>         \* no domain of the family contains -1
Orders(P, pol) ==
  LET n == Len(P.dom) IN
  IF pol = "ORDERED" THEN {DeclOrder(P)} ELSE IF pol = "REVERSED" THEN {RevOrder(P)}
  ELSE {o \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => o[i] # o[j]}

Init == \E P \in Problems, pol \in {"ORDERED", "REVERSED", "RANDOM"}, lim \in Limits \cup {NoBound}, to \in Timeouts \cup {NoBound} :
          \E objs \in {<<>>} \cup (IF WithObjs THEN Objectives(P) ELSE {}) :
            /\ G = Opened(P, TRUE, pol, lim, to, objs, TRUE)
            /\ order \in Orders(P, pol)
            /\ depth = 0 /\ sub = <<>> /\ cand = [k \in 1..Len(P.dom) |-> None]
            /\ bound = <<>> /\ now = 0 /\ late = 0 /\ st = "yield" /\ intr = "none" /\ viol = {}

P0 == G.P
NV == Len(P0.dom)
\* the partial assignment <<v, ...>> of the first levels, as a function of variables
Val(s, k) == IF \E i \in 1..Len(s) : order[i] = k THEN s[CHOOSE i \in 1..Len(s) : order[i] = k] ELSE -99
Assigned(s) == {order[i] : i \in 1..Len(s)}
AsTuple(s) == [k \in 1..NV |-> Val(s, k)]

\* constraints that can be judged with these variables
Judged(s) == {i \in 1..Len(P0.cons) : CVars(P0.cons[i]) \subseteq Assigned(s)}
BoundOk(s) == bound = <<>> \/ \A i \in 1..Len(G.objs) :
                 VarsOf(G.objs[i][2]) \subseteq Assigned(s) => ObjVal(G.objs[i], AsTuple(s), <<>>) > bound[i]
\* an all-different group also prunes values before it is fully assigned
AdOk(s, v) == \A i \in 1..Len(P0.cons) :
                P0.cons[i][1] = "ad" /\ order[Len(s) + 1] \in CVars(P0.cons[i]) =>
                  \A k \in CVars(P0.cons[i]) \cap (IF Bug = "ad_last" THEN {order[j] : j \in {Len(s)} \ {0}} ELSE Assigned(s)) : Val(s, k) # v
Accept(s, v) ==
  LET t == Append(s, v) IN
  /\ AdOk(s, v)
  /\ \A i \in Judged(t) : P0.cons[i][1] = "ad" \/ Holds(P0.cons[i], AsTuple(t), P0.par)
  /\ BoundOk(t)

Over == Bug # "no_clock" /\ G.to # NoBound /\ now > G.to

RECURSIVE Filter(_, _)
Filter(d, s) == IF d = <<>> THEN <<>> ELSE (IF Accept(s, Head(d)) THEN <<Head(d)>> ELSE <<>>) \o Filter(Tail(d), s)

End(reason) ==
  LET G2 == Ended([G EXCEPT !.el = now], 0) IN
  /\ st' = "end" /\ intr' = reason /\ G' = G2
  /\ viol' = EndViol(G2) \cup V("interrupt", reason \notin Reasons(G2))
  /\ UNCHANGED <<order, depth, sub, cand, bound, now, late>>

\* the consumer asks for the next solution
Resume ==
  /\ st = "yield"
  /\ IF G.st = "new" /\ G.lim # NoBound /\ G.lim <= 0
     THEN End("limit")
     ELSE IF LimitReached(G) /\ Bug # "limit_late"
     THEN End("limit")
     ELSE /\ st' = "search" /\ depth' = IF G.st = "new" THEN 1 ELSE depth
          /\ G' = [G EXCEPT !.st = "run"]
          /\ UNCHANGED <<order, sub, cand, bound, now, late, intr, viol>>
\* ... or abandons the enumeration
Close == /\ st = "yield" /\ G.st # "new"
         /\ st' = "closed" /\ G' = Closed(G) /\ UNCHANGED <<order, depth, sub, cand, bound, now, late, intr, viol>>

Stop == /\ st = "search" /\ Over /\ depth > 0 /\ End("timeout")
Empty == /\ st = "search" /\ depth = 0 /\ End("none")

\* candidates of the top level; examining them takes some time
Expand ==
  /\ st = "search" /\ depth > 0 /\ ~Over /\ cand[depth] = None
  /\ \E dt \in 0..Tick :
       LET c == Filter(P0.dom[order[depth]], sub) IN
       /\ now' = now + dt
       /\ late' = IF G.to # NoBound /\ now > G.to THEN late + 1 ELSE late
       /\ IF c = <<>>
          THEN /\ depth' = depth - 1 /\ sub' = SubSeq(sub, 1, depth - 2) /\ UNCHANGED cand
          ELSE /\ cand' = [cand EXCEPT ![depth] = c] /\ UNCHANGED <<depth, sub>>
  /\ UNCHANGED <<G, order, bound, st, intr, viol>>
\* all candidates of the top level are used up
Pop ==
  /\ st = "search" /\ depth > 0 /\ ~Over /\ cand[depth] = <<>>
  /\ cand' = IF Bug = "keep_empty" THEN cand ELSE [cand EXCEPT ![depth] = None]
  /\ depth' = depth - 1 /\ sub' = SubSeq(sub, 1, depth - 2)
  /\ UNCHANGED <<G, order, bound, now, late, st, intr, viol>>
\* take the next candidate; below the last level there is a solution to yield,
\* unless the bound became stricter after its candidates had been computed
Take ==
  /\ st = "search" /\ depth > 0 /\ ~Over /\ cand[depth] # None /\ cand[depth] # <<>>
  /\ LET v == Head(cand[depth])
         t == Append(sub, v)
         s == AsTuple(t)
     IN /\ cand' = [cand EXCEPT ![depth] = Tail(@)]
        /\ IF depth < NV
           THEN /\ depth' = depth + 1 /\ sub' = t /\ UNCHANGED <<G, bound, st, viol>>
           ELSE /\ UNCHANGED <<depth, sub>>
                /\ IF ~BoundOk(t) /\ Bug # "no_recheck" THEN UNCHANGED <<G, bound, st, viol>>
                   ELSE LET G1 == [G EXCEPT !.el = now] IN
                        /\ st' = "yield"
                        /\ viol' = YieldViol(G1, s)
                        /\ G' = Yielded(G1, s, 0)
                        /\ bound' = IF Bug = "stale_bound" /\ bound # <<>> THEN bound
                                    ELSE [i \in 1..Len(G.objs) |-> ObjVal(G.objs[i], s, <<>>)]
  /\ UNCHANGED <<order, now, late, intr>>

Next == Resume \/ Close \/ Stop \/ Empty \/ Expand \/ Pop \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Resume \/ Stop \/ Empty \/ Expand \/ Pop \/ Take)

(* -------------------------------- properties ------------------------------- *)
\* everything the search yields, and every end, is allowed by Enumeration
Refines == viol = {}
\* nothing is expanded once the time is over
Prompt == late = 0
\* one level's candidates are computed only while the time is not over
TypeOK == /\ depth \in 0..NV /\ Len(sub) \in 0..NV
          /\ st = "search" /\ depth > 0 => Len(sub) = depth - 1
          /\ \A k \in 1..NV : k > depth => cand[k] = None
          /\ intr \in {"none", "limit", "timeout"}
\* candidates left at a level are acceptable given what is below, but for the bound
Sound == st = "search" => \A k \in 1..depth : cand[k] # None =>
           \A i \in 1..Len(cand[k]) : \E j \in 1..Len(P0.dom[order[k]]) : P0.dom[order[k]][j] = cand[k][i]
\* a consumer that keeps asking sees the end
Terminates == <>(st \in {"end", "closed"})
=============================================================================
