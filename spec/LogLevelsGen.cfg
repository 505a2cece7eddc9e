INIT Init
NEXT Next
CONSTANT LEN = 6
INVARIANT Out
CHECK_DEADLOCK FALSE
