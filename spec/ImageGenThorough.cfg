INIT Init
NEXT Next
CONSTANT N = 1200
INVARIANT Out
CHECK_DEADLOCK FALSE
