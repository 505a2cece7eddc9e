INIT Init
NEXT MNext
INVARIANT NotMore
INVARIANT NotLess
INVARIANT AllOf
INVARIANT Near
CHECK_DEADLOCK FALSE
