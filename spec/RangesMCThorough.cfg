INIT Init
NEXT Next
CONSTANTS
MAXLEN = 6
CHARS = {"0", "2", ",", "-", ":", " "}
INVARIANT Agree
INVARIANT Covered
CHECK_DEADLOCK FALSE
