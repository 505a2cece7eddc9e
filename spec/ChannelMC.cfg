INIT Init
NEXT MNext
INVARIANT Increasing
INVARIANT Tiling
INVARIANT NoSuperfluous
INVARIANT OverridesReplace
INVARIANT Widths
INVARIANT Alive
CHECK_DEADLOCK FALSE
