SPECIFICATION Spec
CONSTANT Deep = 2
INVARIANTS Export
CHECK_DEADLOCK FALSE
