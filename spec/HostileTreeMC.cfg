SPECIFICATION Spec
CONSTANTS
  Shapes <- SmallShapes
  MaxHitSets = 5
  Wild = FALSE
INVARIANTS InRange Bounded NoFalseError Answered
PROPERTIES Ends
CHECK_DEADLOCK FALSE
