INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANTS Bounded SameSize
PROPERTY Same
CHECK_DEADLOCK FALSE
