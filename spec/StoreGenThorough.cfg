INIT Init
NEXT Next
CONSTANTS
N = 3000
DEPTH = 4
INVARIANT Out
CHECK_DEADLOCK FALSE
