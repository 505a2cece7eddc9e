SPECIFICATION Spec
INVARIANT Paths
INVARIANT Nested
PROPERTY Keeps
CHECK_DEADLOCK FALSE
