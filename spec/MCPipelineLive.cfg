SPECIFICATION MCSpec
CONSTANTS Thread = {1, 2}
 Image = {1, 2, 3}
 Sequential = FALSE
 N = 1
 Tol = 0
 Times = {0}
 Calls = {"put", "putb", "putd", "next", "nextb", "latestb", "shut"}
 Check = {"queue"}
INVARIANTS TypeOK Grouped Once
PROPERTIES Answered Released Processed Forever ClosedFinal Ordered
CHECK_DEADLOCK FALSE
