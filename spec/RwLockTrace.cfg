SPECIFICATION TraceSpec
CONSTANTS Thread = {0, 1, 2, 3, 4, 5, 6}
 ReaderFirst = FALSE
 Policy = TRUE
INVARIANTS Accepted Exclusion OneUpgrader UpgraderHoldsRead
PROPERTIES UpgradeAtomic FailedUpgradeReleased
CHECK_DEADLOCK FALSE
