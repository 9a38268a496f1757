CONSTANTS
  Clients = {1, 2}
  Calls = 3
  Ops = 3
  Space = "instance"
  Copies = TRUE
  MaxRuns = 100
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS Independent Stable
VIEW View
CHECK_DEADLOCK FALSE
