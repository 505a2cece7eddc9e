INIT Init
NEXT Next
CONSTANT N = 360
INVARIANT Out
CHECK_DEADLOCK FALSE
