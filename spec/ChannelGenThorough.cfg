INIT Init
NEXT Next
CONSTANT N = 3000
INVARIANT Out
CHECK_DEADLOCK FALSE
