SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxK = 4 Cuts = TRUE Emit = TRUE
VIEW AutoView
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
