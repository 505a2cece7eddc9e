INIT Init
NEXT Next
CONSTANTS
LEN = 8
NP = 2
INVARIANT Out
CHECK_DEADLOCK FALSE
