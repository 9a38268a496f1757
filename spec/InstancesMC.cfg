CONSTANTS
  Clients = {1, 2}
  Calls = 3
  Ops = 3
  Space = "call"
  Copies = FALSE
  MaxRuns = 100
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Independent Stable
VIEW View
CHECK_DEADLOCK FALSE
