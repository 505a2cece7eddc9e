INIT Init
NEXT MNext
INVARIANTS Through Once Hold Saved
PROPERTY Kept
CHECK_DEADLOCK FALSE
