INIT Init
NEXT Next
CONSTANT LEN = 24
INVARIANT Out
CHECK_DEADLOCK FALSE
