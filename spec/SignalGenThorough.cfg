INIT Init
NEXT Next
CONSTANTS
NCASES = 1200
NEACH = 25
CHECK_DEADLOCK FALSE
