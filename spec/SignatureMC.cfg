SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 3, 4, 66, 70, 71, 97, 98, 99, 102, 103, 230, 255}
  Second = {0, 3, 98, 102, 103, 255}
INVARIANTS Right8 Agrees
CHECK_DEADLOCK FALSE
