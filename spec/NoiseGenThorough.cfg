INIT Init
NEXT Next
CONSTANTS N = 1200
K = 1200
INVARIANT Out
CHECK_DEADLOCK FALSE
