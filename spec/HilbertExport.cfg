SPECIFICATION Spec
CONSTANT MaxOrder = 1
INVARIANTS Export
CHECK_DEADLOCK FALSE
