INIT Init
NEXT Next
CONSTANTS NZ = 2
MaxF = 3
MaxObs = 2
INVARIANT Exact
CHECK_DEADLOCK FALSE
