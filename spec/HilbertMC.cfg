SPECIFICATION Spec
CONSTANT MaxOrder = 5
INVARIANTS NoGap IndexOfCell
CHECK_DEADLOCK FALSE
