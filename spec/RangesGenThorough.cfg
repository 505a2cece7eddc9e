INIT Init
NEXT Next
CONSTANTS
MAXLEN = 5
LONG = 400
PLOTS = 200
CHECK_DEADLOCK FALSE
