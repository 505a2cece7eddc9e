INIT Init
NEXT MNext
CONSTANT MaxN = 4
INVARIANT Once
INVARIANT AllOfIt
INVARIANT ForcedDark
INVARIANT Kept
CHECK_DEADLOCK FALSE
