CONSTANTS
  Clients = {1, 2}
  Calls = 3
  Ops = 3
  Space = "instance"
  Copies = FALSE
  MaxRuns = 100
  Emit = FALSE
SPECIFICATION Spec
INVARIANT Stable
VIEW View
CHECK_DEADLOCK FALSE
