INIT Init
NEXT Next
CONSTANTS
LEN = 7
NP = 3
NT = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
