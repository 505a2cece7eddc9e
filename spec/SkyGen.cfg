INIT Init
NEXT Next
CONSTANT N = 220
INVARIANT Out
CHECK_DEADLOCK FALSE
