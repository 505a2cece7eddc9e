INIT Init
NEXT Next
CONSTANT N = 4000
INVARIANT Out
CHECK_DEADLOCK FALSE
