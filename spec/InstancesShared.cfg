CONSTANTS
  Clients = {1, 2}
  Calls = 3
  Ops = 3
  Space = "package"
  Copies = TRUE
  MaxRuns = 100
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Independent
VIEW View
CHECK_DEADLOCK FALSE
