SPECIFICATION ExportSpec
CONSTANTS
  Shapes <- MoreShapes
  MaxHitSets = 3
  Wild = FALSE
INVARIANTS Export
CHECK_DEADLOCK FALSE
