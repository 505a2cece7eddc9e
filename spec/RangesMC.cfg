INIT Init
NEXT Next
CONSTANTS
MAXLEN = 5
CHARS = {"0", "1", "2", ",", "-", " ", "x"}
INVARIANT Agree
INVARIANT Covered
CHECK_DEADLOCK FALSE
