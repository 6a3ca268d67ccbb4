CONSTANTS MaxNow = 8
 MaxCnt = 6
SPECIFICATION TSpec
INVARIANT ElapsedIsTimeRunning
PROPERTY Monotone AbortKeeps
CHECK_DEADLOCK FALSE
