INIT Init
NEXT Next
CONSTANT N = 40
INVARIANT Out_
CHECK_DEADLOCK FALSE
