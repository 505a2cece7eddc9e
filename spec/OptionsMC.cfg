INIT Init
NEXT Next
CONSTANTS MaxTags = 4
MaxFiles = 2
INVARIANTS NothingLost TopOrder PathOwn
CHECK_DEADLOCK FALSE
