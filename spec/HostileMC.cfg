SPECIFICATION Spec
INVARIANTS ValuesNeedOpen Live
PROPERTIES FailedStays ClosedStays
CHECK_DEADLOCK FALSE
