SPECIFICATION Spec
CONSTANTS
  Fields = {"magic3", "magic7", "hdrlen", "hdrroot", "hdrvt", "count", "nodesize", "box0", "ptr0", "ptr1", "ptr2", "leaf0", "leaf1", "leaf2", "leaf3", "len0", "len1", "len3", "root0", "root1", "vt0", "cut"}
  Kinds = {"zero", "one", "two", "three", "plus", "minus", "double", "half", "max8", "max16", "max31", "min31", "max32", "max32m3", "wrap32", "max63", "min63", "max64", "max64m", "size", "next", "prev"}
  Kinds2 = {"zero", "plus", "minus", "double", "max31", "max32", "wrap32", "max63", "max64"}
INVARIANTS Export
CHECK_DEADLOCK FALSE
