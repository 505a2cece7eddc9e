INIT Init
NEXT Next
CONSTANTS
LEN = 12
NP = 4
NT = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
