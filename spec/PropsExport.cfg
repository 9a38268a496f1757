SPECIFICATION ExportSpec
CONSTANTS
  OneCol = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 128, 255}
  TwoCol = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  MaxVals = 2
INVARIANTS Export
CHECK_DEADLOCK FALSE
