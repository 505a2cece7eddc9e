INIT Init
NEXT Next
CONSTANT N = 280
INVARIANT Out
CHECK_DEADLOCK FALSE
