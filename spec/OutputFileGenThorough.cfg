INIT Init
NEXT Next
CONSTANTS
LEN = 12
NP = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
