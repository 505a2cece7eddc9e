INIT Init
NEXT Next
CONSTANT N = 300
INVARIANT Out
CHECK_DEADLOCK FALSE
