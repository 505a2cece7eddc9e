SPECIFICATION Spec
CONSTANT MAXT = 2
INVARIANT Informed
INVARIANT Known
PROPERTY Inputs
CHECK_DEADLOCK FALSE
