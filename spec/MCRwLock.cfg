SPECIFICATION FairSpec
CONSTANTS Thread = {t1, t2, t3}
 ReaderFirst = FALSE
 Policy = TRUE
INVARIANTS TypeOK Exclusion OneUpgrader UpgraderHoldsRead Blame ReaderNeverDelayed
PROPERTIES UpgradeAtomic FailedUpgradeReleased WriterPreference InUseExact SomeProgress
CHECK_DEADLOCK FALSE
