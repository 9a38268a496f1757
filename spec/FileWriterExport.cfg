SPECIFICATION Spec
CONSTANTS MaxN = 3 Emit = TRUE
CONSTRAINT Bound
VIEW AutoView
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
