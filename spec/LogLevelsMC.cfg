SPECIFICATION Spec
INVARIANT Disabled
PROPERTY Back
PROPERTY Files2
CHECK_DEADLOCK FALSE
