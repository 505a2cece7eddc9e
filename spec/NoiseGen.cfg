INIT Init
NEXT Next
CONSTANTS N = 120
K = 120
INVARIANT Out
CHECK_DEADLOCK FALSE
