INIT Init
NEXT MNext
INVARIANT Known
INVARIANT NoWorse
INVARIANT Ordered
CHECK_DEADLOCK FALSE
