SPECIFICATION MCSpec
CONSTANTS Thread = {1}
 Image = {1, 2, 3, 4}
 Sequential = FALSE
 N = 2
 Tol = 1
 Times = {0, 1, 3}
 Calls = {"put", "next", "latest"}
 Check = {"queue"}
INVARIANTS TypeOK Grouped Once
PROPERTIES Moved Forever ClosedFinal Ordered
CHECK_DEADLOCK FALSE
