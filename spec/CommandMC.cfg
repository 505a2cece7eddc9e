INIT MInit
NEXT MNext
INVARIANT Honest
PROPERTY Others
PROPERTY Harmless
PROPERTY Inputs
CHECK_DEADLOCK FALSE
