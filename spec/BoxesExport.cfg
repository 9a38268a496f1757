SPECIFICATION ExportSpec
CONSTANT Coord = {0, 1, 2, 3, 4}
INVARIANTS Export
CHECK_DEADLOCK FALSE
