INIT Init
NEXT Next
CONSTANT N = 320
INVARIANT Out
CHECK_DEADLOCK FALSE
