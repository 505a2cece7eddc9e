INIT Init
NEXT Next
CONSTANTS Sigs = {0, 1, 4}
Maxes = {0, 2, 5}
INVARIANTS Stable OneFrame Gains Monotone Undefined
CHECK_DEADLOCK FALSE
