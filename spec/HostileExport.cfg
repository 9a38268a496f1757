SPECIFICATION Spec
INVARIANTS Export
CHECK_DEADLOCK FALSE
