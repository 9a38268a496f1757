SPECIFICATION RowSpec
CONSTANTS
  MaxAdds = 2
  MaxMuts = 2
INVARIANTS Export
CHECK_DEADLOCK FALSE
