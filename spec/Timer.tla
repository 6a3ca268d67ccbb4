------------------------------- MODULE Timer -------------------------------
(* A stopwatch.  now: the time; run: running; t0: when the current interval   *)
(* began; acc: total of the finished intervals; cnt: counts given to stop.    *)
(* ghost: the time that passed while the timer ran, updated as time passes.   *)
EXTENDS Integers, Sequences
VARIABLES now, run, t0, acc, cnt, ghost
tvars == <<now, run, t0, acc, cnt, ghost>>

TInit == now = 0 /\ run = FALSE /\ t0 = 0 /\ acc = 0 /\ cnt = 0 /\ ghost = 0
Elapsed == acc + (IF run THEN now - t0 ELSE 0)

Start == ~run /\ run' = TRUE /\ t0' = now /\ UNCHANGED <<now, acc, cnt, ghost>>
StartRejected == run /\ UNCHANGED tvars
Stop(n) == run /\ run' = FALSE /\ acc' = acc + (now - t0) /\ cnt' = cnt + n /\ UNCHANGED <<now, t0, ghost>>
StopRejected == ~run /\ UNCHANGED tvars
Abort == /\ run' = FALSE /\ acc' = IF run THEN acc + (now - t0) ELSE acc
         /\ UNCHANGED <<now, t0, cnt, ghost>>
Tick(d) == now' = now + d /\ ghost' = (IF run THEN ghost + d ELSE ghost) /\ UNCHANGED <<run, t0, acc, cnt>>

(* design check: within MaxNow ticks and MaxCnt stops *)
CONSTANTS MaxNow, MaxCnt
TNext == \/ Start \/ StartRejected \/ StopRejected \/ Abort
         \/ \E n \in 0..2 : cnt + n <= MaxCnt /\ Stop(n)
         \/ \E d \in 1..2 : now + d <= MaxNow /\ Tick(d)
TSpec == TInit /\ [][TNext]_tvars
ElapsedIsTimeRunning == Elapsed = ghost
Monotone == [][Elapsed' >= acc /\ cnt' >= cnt]_tvars
AbortKeeps == [][run /\ ~run' => acc' = Elapsed]_tvars
=============================================================================
