INIT Init
NEXT Next
CONSTANTS
NCASES = 60
NEACH = 25
CHECK_DEADLOCK FALSE
