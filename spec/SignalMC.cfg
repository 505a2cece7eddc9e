SPECIFICATION Spec
CONSTANT MAXN = 2
INVARIANT Consistent
CHECK_DEADLOCK FALSE
