INIT TInit
NEXT TNext
INVARIANT Report
CHECK_DEADLOCK FALSE
