SPECIFICATION ExportSpec
CONSTANTS MinRefs = 4 MaxRefs = 4 Coord = {0, 1, 2} Rich = TRUE Sizes = {2, 3}
INVARIANTS Export
CHECK_DEADLOCK FALSE
