CONSTANTS
  Clients = {1, 2}
  Calls = 4
  Ops = 4
  Space = "call"
  Copies = FALSE
  MaxRuns = 5
  Emit = TRUE
SPECIFICATION Spec
INVARIANTS Independent Stable Row
CHECK_DEADLOCK FALSE
