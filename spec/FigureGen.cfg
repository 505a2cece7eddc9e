INIT Init
NEXT Next
CONSTANT N = 90
INVARIANT Out
CHECK_DEADLOCK FALSE
