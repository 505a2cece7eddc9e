INIT Init
NEXT Next
CONSTANTS
MAXLEN = 4
LONG = 20
PLOTS = 24
CHECK_DEADLOCK FALSE
