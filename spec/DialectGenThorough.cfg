INIT Init
NEXT Next
CONSTANT LEN = 36
INVARIANT Out
CHECK_DEADLOCK FALSE
