INIT Init
NEXT Next
INVARIANTS Agree Division Distribute
CHECK_DEADLOCK FALSE
