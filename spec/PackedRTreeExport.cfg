SPECIFICATION ExportSpec
CONSTANTS MinRefs = 1 MaxRefs = 3 Coord = {0, 1, 2} Rich = TRUE Sizes = {2, 3, 7}
INVARIANTS Export
CHECK_DEADLOCK FALSE
