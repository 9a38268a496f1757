SPECIFICATION SchemaSpec
CONSTANTS
  MaxAdds = 2
  MaxMuts = 2
INVARIANTS ExportSchema
CHECK_DEADLOCK FALSE
