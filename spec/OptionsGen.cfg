INIT Init
NEXT Next
CONSTANTS N = 250
Depth = 2
INVARIANT Out
CHECK_DEADLOCK FALSE
