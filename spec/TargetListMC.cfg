INIT Init
NEXT Next
CONSTANT MaxRows = 2
INVARIANTS Numbered OwnRow PlanetFirst Everyone Same NoneIfRefused
CHECK_DEADLOCK FALSE
