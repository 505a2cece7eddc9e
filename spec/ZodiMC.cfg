INIT Init
NEXT Next
INVARIANTS Known Closest
CHECK_DEADLOCK FALSE
