SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxK = 4 Cuts = TRUE Emit = FALSE
INVARIANTS TypeOK DeliveredInOrder EndMeansAll SearchExact NoHeaderNoData ErrorsDeliverNothing FaultReported
PROPERTIES EmptyReadHarmless MisuseHarmless RewindWorks ClosedFinal FailureSticky GoodFileGoodAnswers
CHECK_DEADLOCK FALSE
