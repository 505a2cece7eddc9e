INIT Init
NEXT Next
CONSTANT N = 6000
INVARIANT Out
CHECK_DEADLOCK FALSE
