SPECIFICATION Spec
INVARIANT OneTable
PROPERTY SameMeaning
PROPERTY Own
CONSTRAINT Small
CHECK_DEADLOCK FALSE
