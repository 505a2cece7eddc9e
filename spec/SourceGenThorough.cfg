INIT Init
NEXT Next
CONSTANT N = 2000
INVARIANT Out
CHECK_DEADLOCK FALSE
