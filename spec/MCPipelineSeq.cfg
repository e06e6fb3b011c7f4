SPECIFICATION MCSpec
CONSTANTS Thread = {1}
 Image = {1, 2, 3, 4, 5, 6}
 Sequential = TRUE
 N = 2
 Tol = 0
 Times = {1, 2, 3, 4}
 Calls = {"put", "latest"}
 Check = {"queue"}
INVARIANTS TypeOK Grouped Once
PROPERTIES Moved Forever
CHECK_DEADLOCK FALSE
