INIT TInit
NEXT TNext
CONSTANT NZ = 3
INVARIANT Report
CHECK_DEADLOCK FALSE
