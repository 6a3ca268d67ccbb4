----------------------------- MODULE TimerProof -----------------------------
(* For every history, not only the bounded ones TLC explores: the elapsed     *)
(* time is the time that passed while the timer ran.                          *)
EXTENDS Timer, TLAPS

TypeOK == /\ now \in Int /\ t0 \in Int /\ acc \in Int /\ cnt \in Int /\ ghost \in Int /\ run \in BOOLEAN
Inv == TypeOK /\ ElapsedIsTimeRunning
Any == \/ Start \/ StartRejected \/ StopRejected \/ Abort
       \/ \E n \in Int : Stop(n)
       \/ \E d \in Nat : Tick(d)

THEOREM Elapses == TInit /\ [][Any]_tvars => []ElapsedIsTimeRunning
<1>1. TInit => Inv
  BY DEF TInit, Inv, TypeOK, ElapsedIsTimeRunning, Elapsed
<1>2. Inv /\ [Any]_tvars => Inv'
  BY DEF Inv, TypeOK, ElapsedIsTimeRunning, Elapsed, Any, tvars, Start, StartRejected, StopRejected, Abort, Stop, Tick
<1>3. Inv => ElapsedIsTimeRunning
  BY DEF Inv
<1> QED BY <1>1, <1>2, <1>3, PTL
=============================================================================
