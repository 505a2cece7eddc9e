INIT Init
NEXT Next
CONSTANT N = 900
INVARIANT Out
CHECK_DEADLOCK FALSE
