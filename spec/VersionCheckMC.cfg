INIT MInit
NEXT MNext
INVARIANT Polite
INVARIANT Piece
INVARIANT Heard
INVARIANT Whole
CHECK_DEADLOCK FALSE
