INIT Init
NEXT Next
INVARIANTS Provenance Size
CHECK_DEADLOCK FALSE
