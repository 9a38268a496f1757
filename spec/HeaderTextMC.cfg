SPECIFICATION Spec
INVARIANTS Total
CHECK_DEADLOCK FALSE
