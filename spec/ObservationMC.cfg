INIT Init
NEXT Next
INVARIANT Isolation
INVARIANT NoTrace
INVARIANT Contained
CHECK_DEADLOCK FALSE
PROPERTY Kept
