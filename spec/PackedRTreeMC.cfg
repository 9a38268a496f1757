SPECIFICATION Spec
CONSTANTS MinRefs = 1 MaxRefs = 3 Coord = {0, 1, 2} Rich = TRUE Sizes = {2, 3}
INVARIANTS FoundRight FoundAll SeekInOrder Inside Shape OnlyNeeded OnceOnly
PROPERTIES SeekForward
CHECK_DEADLOCK FALSE
