SPECIFICATION Spec
CONSTANTS
  OneCol = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
  TwoCol = {0, 2, 4, 5, 10, 11}
  MaxVals = 2
INVARIANTS Fifo Counted AtOnce
CHECK_DEADLOCK FALSE
