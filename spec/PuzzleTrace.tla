---------------------------- MODULE PuzzleTrace ----------------------------
(* Recorded runs of the puzzle solvers and of the command line tool are       *)
(* enumerations of the puzzle's solutions: only true solutions, each once,    *)
(* all of them unless a limit or a timeout cut the search, and what is        *)
(* reported at the end says so.                                               *)
(*   open   kind, instance I, lim (-1: none), cut (0 no timeout, 1 a timeout  *)
(*          that may strike, 2 one that must strike before the end), full     *)
(*          (0: completeness is out of reach for the specification)           *)
(*   yield  sol; num: the number it was printed with, or -1                   *)
(*   end    intr, cnt: reported; sum: partial/unique/all as printed, or ""    *)
(*   result of the knapsack optimizer, ksum: its printed summary              *)
(*   took   the printed time                                                  *)
(*   listing  vars, cons: printed with their numbers; mvars, mcons: the model's; *)
(*          asked: 0 if listed without being asked for                        *)
(*   clues / image / back   conversions of nonogram pictures                  *)
EXTENDS Puzzles, Json, IOUtils
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tid, l, viol, pz
C == Cases[tid]
E == C.events[l]
V(name, broken) == IF broken THEN {name} ELSE {}
Idle == [st |-> "idle", kind |-> "", I |-> [n |-> 0], lim |-> -1, cut |-> 0, full |-> 1, sols |-> {}, got |-> <<>>]
Init == tid \in 1..Len(Cases) /\ l = 1 /\ viol = {} /\ pz = Idle
Then(v) == viol' = v /\ l' = l + 1 /\ UNCHANGED tid

Open == /\ E.op = "open"
        /\ LET ok == Acceptable(E.kind, E.I) IN
           IF E.out = "ok" /\ ok
           THEN pz' = [st |-> "run", kind |-> E.kind, I |-> E.I, lim |-> E.lim, cut |-> E.cut, full |-> E.full, got |-> <<>>,
                       sols |-> IF E.full = 1 THEN Sols(E.kind, E.I) ELSE {}]
                /\ Then({})
           ELSE pz' = Idle /\ Then(V("accepted", E.out = "ok") \cup V("rejected", E.out # "ok" /\ ok)
                                   \cup V("rejection", E.out # "ok" /\ E.out \notin {"exc:ValueError", "exc:TypeError"}))
Count == Len(pz.got)
LimitHit == pz.lim # -1 /\ Count >= pz.lim
Complete == pz.full = 0 \/ Count = Cardinality(pz.sols)
Yield == /\ E.op = "yield"
         /\ pz' = [pz EXCEPT !.got = Append(@, E.sol)]
         /\ Then(V("ended", pz.st # "run")
                 \cup V("wrong", ~IsSol(pz.kind, pz.I, E.sol))
                 \cup V("unlisted", pz.full = 1 /\ IsSol(pz.kind, pz.I, E.sol) /\ E.sol \notin pz.sols)
                 \cup V("dup", E.sol \in RangeOf(pz.got))
                 \cup V("limit", LimitHit)
                 \cup V("number", E.num # -1 /\ E.num # Count + 1))
Reasons == IF LimitHit THEN {"limit"}
           ELSE (IF pz.cut > 0 THEN {"timeout"} ELSE {}) \cup (IF Complete /\ pz.cut < 2 THEN {"none"} ELSE {})
End == /\ E.op = "end"
       /\ pz' = [pz EXCEPT !.st = "end"]
       /\ Then(V("ended", pz.st # "run")
               \cup V("incomplete", ~Complete /\ ~LimitHit /\ pz.cut = 0)
               \cup V("reason", E.intr \notin Reasons)
               \cup V("count", E.cnt # Count)
               \cup V("summary", E.sum # "" /\ E.sum # (IF E.intr # "none" THEN "partial" ELSE IF Count = 1 THEN "unique" ELSE "all")))

Result ==
  /\ E.op = "result" /\ pz' = [pz EXCEPT !.st = "end"]
  /\ LET I == pz.I
         F == KSelections(I)
         mayCut == pz.cut > 0 \/ (pz.lim # -1 /\ E.cnt >= pz.lim)
         shape == Len(E.sol) = Len(I.values) /\ \A i \in 1..Len(E.sol) : E.sol[i] \in {0, 1}
     IN Then(IF E.has = 0 THEN V("missing", F # {} /\ ~mayCut) \cup V("flag", E.opt # 0)
             ELSE V("wrong", ~shape \/ ~(E.sol \in F))
                  \cup V("limit", pz.lim # -1 /\ E.cnt > pz.lim)
                  \cup (IF ~shape THEN {} ELSE
                        V("value", E.value # KValue(I, E.sol)) \cup V("weights", E.ws # KLoad(I, E.sol))
                        \cup V("optimal", E.opt = 1 /\ E.sol \in F /\ ~KIsBest(I, E.sol))
                        \cup V("unflagged", E.opt = 0 /\ ~mayCut)
                        \cup V("flag", E.opt \notin {0, 1})))
          
KSummary == /\ E.op = "ksum" /\ UNCHANGED pz
            /\ Then(V("summary", E.sum # (IF E.opt = 1 THEN "optimal" ELSE "sub-optimal"))
                    \cup V("count", (E.has = 1) # (E.cnt > 0))
                    \cup V("reason", \/ E.intr \notin {"none", "limit", "timeout"}
                                     \/ E.intr # "none" /\ E.opt = 1
                                     \/ E.intr = "limit" /\ ~(pz.lim # -1 /\ E.cnt >= pz.lim)
                                     \/ E.intr = "timeout" /\ pz.cut = 0
                                     \/ E.intr # "timeout" /\ pz.cut = 2 /\ pz.lim # 0
                                     \/ E.intr = "none" /\ E.opt = 0 /\ (E.has = 1 \/ KSelections(pz.I) # {})))
\* the printed search time (all in milliseconds): no more than passed, some if something was found while the clock runs,
\* more than the timeout if that was reached
Took == /\ E.op = "took" /\ UNCHANGED pz
        /\ Then(V("time", E.el >= 0 /\ (\/ E.el > E.spent
                                        \/ (E.tick > 0 /\ E.cnt > 0 /\ E.el = 0)
                                        \/ (E.intr = "timeout" /\ E.tmo >= 0 /\ E.el <= E.tmo)
                                        \* a search that went on for long after its timeout must say that it was stopped
                                        \/ (E.intr # "timeout" /\ E.tmo >= 0 /\ E.el > E.tmo + 5000 * E.tick))))

\* the model is listed in full, in order, numbered from 0
Listing == /\ E.op = "listing" /\ UNCHANGED pz
           /\ Then(V("listing", \/ E.asked = 0
                               \/ E.vars # [i \in 1..Len(E.mvars) |-> <<i - 1>> \o E.mvars[i]]
                               \/ E.cons # [i \in 1..Len(E.mcons) |-> <<i - 1, E.mcons[i]>>]))

\* the printed equation is the source with the letters of the last solution replaced
Subst == /\ E.op = "subst" /\ UNCHANGED pz
         /\ LET a == CFunc(pz.got[Count])
                w == CWordSeq(pz.I.f)
            IN Then(V("printed", E.words # [i \in 1..Len(w) |-> [j \in 1..Len(w[i]) |-> IF w[i][j] < 10 THEN w[i][j] ELSE a[w[i][j]]]]))
Width(m) == SetMax({Len(m[r]) : r \in 1..Len(m)})
Clues == E.op = "clues" /\ UNCHANGED pz
         /\ LET w == IF E.pic = <<>> THEN 0 ELSE Width(E.pic) IN
            Then(V("rows", E.rows # [r \in 1..Len(E.pic) |-> Runs(E.pic[r])])
                 \cup V("columns", E.cols # [c \in 1..w |-> Runs(Column(E.pic, c))]))
Image == E.op = "image" /\ UNCHANGED pz
         /\ LET w == Width(E.text)
                cell(r, c) == IF c > Len(E.text[r]) THEN 0 ELSE IF E.text[r][c] \in RangeOf(E.blanks) THEN 0 ELSE 1
            IN Then(V("picture", E.pic # [r \in 1..Len(E.text) |-> [c \in 1..w |-> cell(r, c)]]))
Back == E.op = "back" /\ UNCHANGED pz /\ Then(V("back", E.pic # E.again))
Fail == E.op \in {"fail", "crash"} /\ UNCHANGED pz /\ Then({"exc"})
\* the recorded run must have been recorded to its end
Next == l <= Len(C.events) /\ viol = {} /\ (Open \/ Yield \/ End \/ Result \/ KSummary \/ Took \/ Listing \/ Subst \/ Clues \/ Image \/ Back \/ Fail)
NoViolation == viol = {}
Report == [tid |-> tid, l |-> l, viol |-> viol]
=============================================================================
