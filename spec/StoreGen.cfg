INIT Init
NEXT Next
CONSTANTS
N = 250
DEPTH = 3
INVARIANT Out
CHECK_DEADLOCK FALSE
