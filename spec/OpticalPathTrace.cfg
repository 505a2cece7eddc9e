INIT TInit
NEXT TNext
CONSTANTS NZ = 3
INVARIANT Report
CHECK_DEADLOCK FALSE
