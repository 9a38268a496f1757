SPECIFICATION Spec
CONSTANTS MinRefs = 4 MaxRefs = 4 Coord = {0, 1, 2} Rich = TRUE Sizes = {2, 3}
INVARIANTS FoundRight FoundAll SeekInOrder Inside Shape OnlyNeeded OnceOnly
PROPERTIES SeekForward
CHECK_DEADLOCK FALSE
