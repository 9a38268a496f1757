SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  MaxMuts = 2
INVARIANTS Reads Absent
CHECK_DEADLOCK FALSE
