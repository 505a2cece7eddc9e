INIT Init
NEXT Next
CONSTANT N = 400
INVARIANT Out_
CHECK_DEADLOCK FALSE
