SPECIFICATION ExportSpec
CONSTANTS MinRefs = 4 MaxRefs = 7 Coord = {0, 1, 2} Rich = FALSE Sizes = {2, 3, 4}
INVARIANTS Export
CHECK_DEADLOCK FALSE
