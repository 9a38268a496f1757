SPECIFICATION Spec
CONSTANTS MaxN = 3 Emit = FALSE
CONSTRAINT Bound
INVARIANTS TypeOK FormOK RefusedEmitsNothing NoSuccessWhenFaulty
PROPERTIES RefusedHarmless CloseMeansComplete CloseReports NothingAfterPart ClosedFinal
CHECK_DEADLOCK FALSE
