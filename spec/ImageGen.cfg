INIT Init
NEXT Next
CONSTANT N = 160
INVARIANT Out
CHECK_DEADLOCK FALSE
