SPECIFICATION MCSpec
CONSTANTS Thread = {1, 2}
 Task = {1, 2}
 Groups = {0, 1}
 N = 2
 Check = {"once", "order", "progress"}
INVARIANTS TypeOK
PROPERTIES Executed WaitReturns Destroyed
CHECK_DEADLOCK FALSE
