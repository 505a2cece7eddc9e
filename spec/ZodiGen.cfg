INIT Init
NEXT Next
CONSTANT N = 400
INVARIANT Out
CHECK_DEADLOCK FALSE
