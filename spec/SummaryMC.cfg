SPECIFICATION Spec
CONSTANT Deep = 2
INVARIANTS Tight
CHECK_DEADLOCK FALSE
