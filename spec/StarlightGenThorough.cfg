INIT Init
NEXT Next
CONSTANT N = 2500
INVARIANT Out
CHECK_DEADLOCK FALSE
