INIT Init
NEXT Next
CONSTANT N = 1500
INVARIANT Out
CHECK_DEADLOCK FALSE
