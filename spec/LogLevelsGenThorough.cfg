INIT Init
NEXT Next
CONSTANT LEN = 14
INVARIANT Out
CHECK_DEADLOCK FALSE
