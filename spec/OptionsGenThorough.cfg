INIT Init
NEXT Next
CONSTANTS N = 3000
Depth = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
