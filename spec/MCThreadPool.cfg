SPECIFICATION MCSpec
CONSTANTS Thread = {1, 2}
 Task = {1, 2, 3}
 Groups = {0, 1}
 N = 2
 Check = {"once", "order", "progress"}
INVARIANTS TypeOK NoOverlap Gone Conserving
PROPERTIES Overtake StopFinal Once
CHECK_DEADLOCK FALSE
