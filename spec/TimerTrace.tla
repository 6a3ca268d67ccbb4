----------------------------- MODULE TimerTrace -----------------------------
(* Recorded timer histories are behaviours of Timer; after every operation    *)
(* all observers are compared.                                                *)
EXTENDS Timer, Json, IOUtils, TLC
CONSTANT Prop
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES tid, l, viol
C == Cases[tid]
E == C.events[l]
V(name, broken) == IF broken THEN {name} ELSE {}
Init == TInit /\ tid \in 1..Len(Cases) /\ l = 1 /\ viol = {}

Observed == V("running", E.run # (IF run' THEN 1 ELSE 0)) \cup V("elapsed", E.el # (acc' + (IF run' THEN now' - t0' ELSE 0)))
            \cup V("count", E.cnt # cnt')
            \cup V("stats", E.scnt # cnt' \/ (~run' /\ E.sel # acc'))
Then(extra) == viol' = Observed \cup extra /\ l' = l + 1 /\ UNCHANGED tid
Ok(o) == V("accepted", E.out # o)

TStart == E.op = "start" /\ ((Start /\ Then(Ok("ok"))) \/ (StartRejected /\ Then(Ok("exc:RuntimeError"))))
TStop == E.op = "stop" /\ ((Stop(E.n) /\ Then(Ok("ok") \cup V("returned", E.ret # now - t0))) \/ (StopRejected /\ Then(Ok("exc:RuntimeError"))))
TAbort == E.op = "abort" /\ Abort /\ Then(Ok("ok"))
TTick == E.op = "tick" /\ Tick(E.n) /\ Then({})
TNew == E.op = "new" /\ UNCHANGED tvars /\ Then(Ok("ok"))
Fail == E.op \in {"fail", "crash"} /\ UNCHANGED tvars /\ viol' = {"exc"} /\ l' = l + 1 /\ UNCHANGED tid
Next == l <= Len(C.events) /\ viol = {} /\ (TStart \/ TStop \/ TAbort \/ TTick \/ TNew \/ Fail)
NoViolation == viol = {}
Report == [tid |-> tid, l |-> l, viol |-> viol]
=============================================================================
