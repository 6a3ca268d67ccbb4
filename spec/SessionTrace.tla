---------------------------- MODULE SessionTrace ----------------------------
(* Validation of recorded sessions: a model, solvers configured and            *)
(* reconfigured, enumerations advanced in any interleaving.  One TLC state    *)
(* per recorded event; viol names the violated clauses of property Prop.      *)
EXTENDS Enumeration, Json, IOUtils

CONSTANT Prop          \* the property this run decides

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES tid,   \* which recorded session
          l,     \* next event
          mdls,  \* models: [names, dom, ord, cons, par, solvable, ver, snap]
          svs,   \* solvers: [pol, lim, to, latest, clean]
          gs,    \* enumerations (with .sv, .key, .ver added)
          memo,  \* observed sequences of undisturbed enumerations
          viol
vars == <<tid, l, mdls, svs, gs, memo, viol>>

C == Cases[tid]
E == C.events[l]
mdl == mdls[E.m]      \* the model an event is about

EmptyModel == [names |-> <<>>, dom |-> <<>>, ord |-> <<>>, cons |-> <<>>, par |-> <<>>, solvable |-> TRUE, ver |-> 0, snap |-> <<>>]

Init == /\ tid \in 1..Len(Cases)
        /\ l = 1 /\ mdls = <<EmptyModel>> /\ svs = <<>> /\ gs = <<>> /\ memo = {} /\ viol = {}

(* ------------------------------ clause table ------------------------------ *)
\* which properties a clause belongs to
Owner(c) ==
  CASE c = "keys" -> {"C01", "C13"}
    [] c = "domain" -> {"C01", "C05", "C07", "C13"}
    [] c = "sat" -> {"C01", "C05", "C07", "C11", "C13", "C15"}
    [] c = "dup" -> {"C02", "C05", "C13", "C15"}
    [] c = "incomplete" -> {"C02", "C05", "C11", "C13", "C15"}
    [] c = "limitcut" -> {"C04", "C15"}
    [] c = "cut" -> {"C05", "C15"}
    [] c = "limit" -> {"C04", "C15"}
    [] c = "late" -> {"C05", "C15"}
    [] c = "latework" -> {"C05", "C15"}
    [] c = "order" -> {"C03", "C13", "C15"}
    [] c = "repeat" -> {"C03", "C04", "C05", "C13"}
    [] c = "improve" -> {"C07"}
    [] c = "suboptimal" -> {"C07", "C08", "C11"}
    [] c = "ended" -> {"C01", "C02", "C04", "C05", "C07", "C13"}
    [] c = "count" -> {"C06"}
    [] c = "elapsed" -> {"C06"}
    [] c = "interrupt" -> {"C04", "C05", "C06", "C15"}
    [] c \in {"b_feasible", "b_optimal", "b_flag", "b_none", "b_cut", "b_best"} -> {"C08"}
    [] c = "b_stale" -> {"C08", "C11"}
    [] c \in {"snapshot", "kept"} -> {"C13"}
    [] c = "setting" -> {"C15"}
    [] c \in {"expr", "parvalue"} -> {"C11"}
    [] c = "partial" -> {"C14"}
    [] c = "exc" -> {"C01","C02","C03","C04","C05","C06","C07","C08","C11","C13","C14","C15"}
Mine(S) == {c \in S : Prop \in Owner(c)}

(* -------------------------------- helpers --------------------------------- *)
RECURSIVE SumTo(_, _)
SumTo(tk, n) == IF n = 0 THEN 0 ELSE tk[n] + SumTo(tk, n - 1)
\* number of evaluations started after the time exceeded the bound
RECURSIVE LateCount(_, _, _, _)
LateCount(tk, i, el, to) == IF i > Len(tk) THEN 0
                            ELSE B2I(el > to) + LateCount(tk, i + 1, el + tk[i], to)
\* evaluations one variable's candidates may take
MaxWork(G) == (1 + MaxOf({Len(G.P.dom[k]) : k \in 1..Len(G.P.dom)})) * Len(G.P.cons)

IsPerm(sol, names) == /\ Len(sol) = Len(names)
                      /\ {sol[i][1] : i \in 1..Len(sol)} = Range(names)
\* a recorded assignment <<<<name, value>>, ...>> in the model's variable order
ToTuple(sol, names) == [k \in 1..Len(names) |-> LET i == CHOOSE i \in 1..Len(sol) : sol[i][1] = names[k] IN sol[i][2]]

Problem(extra) == [dom |-> mdl.dom, cons |-> mdl.cons \o extra, par |-> mdl.par]
AllOrdered == \A i \in 1..Len(mdl.ord) : mdl.ord[i] = 1
Resolve(call, default) == IF call = -2 THEN default ELSE call

\* observed runs of the same enumeration: same model version, policy, extras
SameRun(key, s, i) == \A r \in memo : (r.key = key /\ Len(r.seq) >= i) => r.seq[i] = s
CompleteShorter(key, i) == \E r \in memo : r.key = key /\ r.done /\ Len(r.seq) < i

Step(v) == /\ viol' = v /\ l' = l + 1 /\ UNCHANGED tid

(* --------------------------------- events --------------------------------- *)
NewModel == /\ E.op = "model"
            /\ mdls' = Append(mdls, EmptyModel)
            /\ Step({}) /\ UNCHANGED <<svs, gs, memo>>
AddVar == /\ E.op = "addvar"
          /\ mdls' = [mdls EXCEPT ![E.m] = [@ EXCEPT !.names = Append(@, E.name), !.dom = Append(@, E.dom),
                                          !.ord = Append(@, E.ord), !.ver = @ + 1, !.snap = <<>>]]
          /\ Step({}) /\ UNCHANGED <<svs, gs, memo>>
\* A constraint without decision variables is judged when it is added.  E.novars:
\* the library's simplified form has none (as v*0 >= p, which becomes 0 >= p)
AddCon == /\ E.op = "addcon"
          /\ LET c == E.con
                 triv == CVars(c) = {} \/ (E.novars = 1 /\ ParsOf(c[2]) # {})
                 val == IF triv THEN CVal(c, [k \in 1..Len(mdl.dom) |-> IF mdl.dom[k] = <<>> THEN 0 ELSE mdl.dom[k][1]], mdl.par) ELSE 1 IN
             mdls' = [mdls EXCEPT ![E.m] = [@ EXCEPT !.cons = IF triv /\ val = 1 THEN @ ELSE Append(@, c),
                                                     !.solvable = @ /\ val = 1, !.ver = @ + 1, !.snap = <<>>]]
          /\ Step({}) /\ UNCHANGED <<svs, gs, memo>>
\* E.back: the values the parameters report
ParValues == Mine(V("parvalue", E.back # mdls'[E.m].par))
AddPar == /\ E.op = "addpar"
          /\ mdls' = [mdls EXCEPT ![E.m].par = Append(@, E.v), ![E.m].ver = @ + 1]
          /\ Step(ParValues) /\ UNCHANGED <<svs, gs, memo>>
SetPar == /\ E.op = "setpar"
          /\ mdls' = [mdls EXCEPT ![E.m].par[E.k] = E.v, ![E.m].ver = @ + 1]
          /\ Step(ParValues) /\ UNCHANGED <<svs, gs, memo>>

SetSolvable == /\ E.op = "setsolv"
               /\ mdls' = [mdls EXCEPT ![E.m] = [@ EXCEPT !.solvable = E.v = 1, !.ver = @ + 1, !.snap = <<>>]]
               /\ Step({}) /\ UNCHANGED <<svs, gs, memo>>

NewSolver == /\ E.op = "solver"
             /\ svs' = Append(svs, [pol |-> E.pol, lim |-> E.lim, to |-> E.to, comp |-> E.comp, latest |-> 0, clean |-> TRUE])
             /\ Step({}) /\ UNCHANGED <<mdls, gs, memo>>
\* assigning an attribute; E.out is "ok" or the exception; a bad policy must be
\* rejected with TypeError.  E.now is the attribute read back (-1: None)
SetAttr == /\ E.op = "set"
           /\ LET bad == E.attr = "pol" /\ E.ok = 0 IN
              /\ svs' = IF bad THEN svs
                        ELSE IF E.attr = "pol" THEN [svs EXCEPT ![E.s].pol = E.v]
                        ELSE IF E.attr = "lim" THEN [svs EXCEPT ![E.s].lim = E.v]
                        ELSE IF E.attr = "to" THEN [svs EXCEPT ![E.s].to = E.v]
                        ELSE [svs EXCEPT ![E.s].comp = E.v]
              /\ Step(Mine(V("setting", IF bad THEN E.out # "exc:TypeError" ELSE E.out # "ok")))
           /\ UNCHANGED <<mdls, gs, memo>>
\* reading the attributes back
GetAttr == /\ E.op = "get"
           /\ LET s == svs[E.s] IN
              Step(Mine(V("setting", E.pol # s.pol \/ E.lim # s.lim \/ E.to # s.to \/ E.comp # s.comp)))
           /\ UNCHANGED <<mdls, svs, gs, memo>>

Start == /\ E.op = "start"
         /\ LET s == svs[E.s]
                pol == IF E.pol = "" THEN s.pol ELSE E.pol
                lim == Resolve(E.lim, s.lim)
                to == Resolve(E.to, s.to)
                key == <<E.m, mdl.ver, pol, E.extra, E.objs>>
                G == Opened(Problem(E.extra), mdl.solvable, pol, lim, to, E.objs, AllOrdered)
            IN gs' = Append(gs, G @@ [sv |-> E.s, key |-> key, names |-> mdl.names, fresh |-> TRUE])
         /\ Step({}) /\ UNCHANGED <<mdls, svs, memo>>

\* the first request makes the enumeration the solver's latest one
Touch(g) == [svs EXCEPT ![gs[g].sv] =
               IF gs[g].fresh THEN [@ EXCEPT !.latest = g, !.clean = TRUE]
               ELSE IF @.latest = g THEN @ ELSE [@ EXCEPT !.clean = FALSE]]

LateWork(G, tk) == V("latework", G.to # NoBound /\ LateCount(tk, 1, G.el, G.to) > MaxWork(G))

NextSol == /\ E.op = "next" /\ E.out = "sol"
           /\ LET g == E.g
                  G == gs[g]
                  dt == SumTo(E.tk, Len(E.tk))
                  okKeys == IsPerm(E.sol, G.names)
                  s == ToTuple(E.sol, G.names)
                  i == Len(G.seq) + 1
                  rep == G.pol # "RANDOM" /\ (~SameRun(G.key, s, i) \/ CompleteShorter(G.key, i))
              IN IF okKeys
                 THEN /\ gs' = [gs EXCEPT ![g] = [Yielded(G, s, dt) EXCEPT !.fresh = FALSE]]
                      /\ Step(Mine(YieldViol(G, s) \cup LateWork(G, E.tk) \cup V("repeat", rep)))
                 ELSE /\ gs' = [gs EXCEPT ![g] = [G EXCEPT !.el = @ + dt, !.fresh = FALSE, !.st = "run"]]
                      /\ Step(Mine({"keys"}))
           /\ svs' = Touch(E.g) /\ UNCHANGED <<mdls, memo>>
NextEnd == /\ E.op = "next" /\ E.out = "end"
           /\ LET g == E.g
                  G == gs[g]
                  dt == SumTo(E.tk, Len(E.tk))
                  G2 == [Ended(G, dt) EXCEPT !.fresh = FALSE]
                  known == {r \in memo : r.key = G.key /\ r.done}
                  short == G.pol # "RANDOM" /\ \E r \in known : Len(r.seq) > Len(G.seq)
              IN IF G.st \in {"end", "closed"}
                 THEN gs' = gs /\ memo' = memo /\ Step({})    \* asking again an ended one
                 ELSE /\ gs' = [gs EXCEPT ![g] = G2]
                      /\ memo' = memo \cup {[key |-> G.key, seq |-> G.seq,
                                            done |-> ~LimitReached(G2) /\ ~TimedOut(G2)]}
                      /\ Step(Mine(EndViol(G2) \cup LateWork(G, E.tk)
                                   \cup V("repeat", short /\ ~LimitReached(G2) /\ ~TimedOut(G2))))
           /\ svs' = IF gs[E.g].st \in {"end", "closed"} THEN svs ELSE Touch(E.g)
           /\ UNCHANGED mdls
\* a constraint of the program's own failed during the request, and the request with it
Injected == E.failed = 1 /\ E.out = "exc:Fault"
NextExc == /\ E.op = "next" /\ E.out \notin {"sol", "end"}
           /\ gs' = [gs EXCEPT ![E.g] = [@ EXCEPT !.st = "closed", !.fresh = FALSE]]
           /\ svs' = [svs EXCEPT ![gs[E.g].sv] = IF gs[E.g].fresh THEN [@ EXCEPT !.latest = E.g, !.clean = FALSE] ELSE [@ EXCEPT !.clean = FALSE]]
           /\ Step(Mine(V("exc", ~Injected))) /\ UNCHANGED <<mdls, memo>>
CloseGen == /\ E.op = "close"
            /\ gs' = [gs EXCEPT ![E.g] = Closed(@)]
            /\ Step(Mine(V("exc", E.out # "ok"))) /\ UNCHANGED <<mdls, svs, memo>>

\* statistics are checked when the solver's latest enumeration has ended or
\* was closed, and no other enumeration of that solver ran since it started
Stats == /\ E.op = "stats"
         /\ LET s == svs[E.s] IN
            IF E.out # "ok" THEN Step(Mine({"exc"}))
            ELSE IF s.latest = 0 \/ ~s.clean THEN Step({})
            ELSE LET G == gs[s.latest] IN
                 IF G.st = "end"
                 THEN Step(Mine(V("count", E.count # Len(G.seq)) \cup V("elapsed", E.el # G.el)
                                \cup V("interrupt", E.intr \notin Reasons(G) /\ Reasons(G) # {})))
                 ELSE IF G.st = "closed"
                 THEN Step(Mine(V("count", E.count # Len(G.seq)) \cup V("elapsed", E.el # G.el)))
                 ELSE Step({})
         /\ UNCHANGED <<mdls, svs, gs, memo>>

\* the solutions the consumer got and did not touch are still what was yielded
Kept == /\ E.op = "kept"
        /\ LET G == gs[E.g] IN
           Step(Mine(V("kept", \/ Len(E.sols) # Len(G.seq)
                               \/ \E i \in 1..Len(E.sols) : ~IsPerm(E.sols[i], G.names) \/ ToTuple(E.sols[i], G.names) # G.seq[i])))
        /\ UNCHANGED <<mdls, svs, gs, memo>>

\* one call of optimal_solution
Best == /\ E.op = "best"
        /\ LET s == svs[E.s]
               pol == IF E.pol = "" THEN s.pol ELSE E.pol
               lim == Resolve(E.lim, s.lim)
               to == Resolve(E.to, s.to)
               key == <<E.m, mdl.ver, pol, E.extra, E.objs>>
               G0 == Opened(Problem(E.extra), mdl.solvable, pol, lim, to, E.objs, AllOrdered)
               el == SumTo(E.tk, Len(E.tk))
               okKeys == IsPerm(E.sol, mdl.names)
               sol == ToTuple(E.sol, mdl.names)
               feas == okKeys /\ sol \in G0.sols
               late == to # NoBound /\ el > to
               optimal == feas /\ ~ \E t \in G0.sols : Better(E.objs, t, sol, mdl.par)
               runs == {r \in memo : r.key = key /\ r.done}
           IN IF E.out # "ok" THEN Step(Mine(V("exc", ~Injected)))
              ELSE Step(Mine(
                   V("b_feasible", E.has = 1 /\ ~feas)
                   \cup V("b_optimal", E.isopt = 1 /\ ~optimal)
                   \cup V("b_flag", E.isopt = 0 /\ E.has = 1 /\ ~late /\ lim = NoBound)
                   \cup V("b_none", E.has = 0 /\ (E.isopt = 1 \/ (G0.sols # {} /\ ~late /\ lim # 0)))
                   \cup V("b_cut", E.isopt = 1 /\ (lim = 0 \/ E.intr # "none"))
                   \cup V("b_cut", E.intr = "none" /\ E.isopt # E.has)
                   \cup V("b_cut", E.intr \notin {"none", "limit", "timeout"} \/ (E.intr = "limit" /\ lim = NoBound) \/ (E.intr = "timeout" /\ ~late))
                   \cup V("b_best", /\ pol # "RANDOM" /\ ~late /\ (okKeys \/ E.has = 0) /\ lim # 0
                                    /\ \E r \in runs : \/ (r.seq = <<>>) # (E.has = 0)
                                                       \/ r.seq # <<>> /\ E.has = 1 /\ sol # r.seq[IF lim # NoBound /\ lim < Len(r.seq) THEN lim ELSE Len(r.seq)])
                   \cup V("b_stale", E.has = 1 /\ ~feas)))
        /\ svs' = [svs EXCEPT ![E.s].latest = 0] /\ UNCHANGED <<mdls, gs, memo>>

\* the model as the public API shows it: solving must not have changed it.
\* E.vars: decision variables in order; E.ncons, E.solv, E.npar (at least)
Snap == /\ E.op = "snap"
        /\ Step(Mine(V("snapshot", \/ E.names # mdl.names \/ Len(E.doms) # Len(mdl.dom)
                                   \/ \E k \in 1..Len(mdl.dom) : IF mdl.ord[k] = 1 THEN E.doms[k] # mdl.dom[k]
                                                                ELSE Len(E.doms[k]) # Len(mdl.dom[k]) \/ Range(E.doms[k]) # Range(mdl.dom[k])
                                   \/ mdl.snap # <<>> /\ mdl.snap # <<E.ncons, E.solv>>)))
        /\ mdls' = [mdls EXCEPT ![E.m].snap = <<E.ncons, E.solv>>]
        /\ UNCHANGED <<svs, gs, memo>>

\* an expression evaluated outside of any solve
EvalExpr == /\ E.op = "eval"
            /\ LET v == Ev(E.ast, E.asg, mdl.par) IN
               Step(Mine(V("expr", ~IsBad(v) /\ (E.out # "ok" \/ E.v # v))))
            /\ UNCHANGED <<mdls, svs, gs, memo>>

Fail == /\ E.op \in {"fail", "crash"}       \* model building or driver step raised
        /\ Step(Mine({"exc"})) /\ UNCHANGED <<mdls, svs, gs, memo>>

Next == /\ l <= Len(C.events) /\ viol = {}
        /\ \/ NewModel \/ AddVar \/ AddCon \/ AddPar \/ SetPar \/ SetSolvable \/ NewSolver \/ SetAttr \/ GetAttr \/ Start
           \/ NextSol \/ NextEnd \/ NextExc \/ CloseGen \/ Stats \/ Best \/ Snap \/ Kept \/ EvalExpr \/ Fail
Spec == Init /\ [][Next]_vars

NoViolation == viol = {}
Report == [tid |-> tid, l |-> l, viol |-> viol]
\* every event of every session was consumed by some action
Consumed == l <= Len(C.events) /\ viol = {} => ENABLED Next
=============================================================================
