SPECIFICATION ExportSpec
CONSTANTS
  Shapes <- SmallShapes
  MaxHitSets = 5
  Wild = TRUE
INVARIANTS Export
CHECK_DEADLOCK FALSE
