SPECIFICATION TraceSpec
CONSTANTS Thread = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 Task = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
 Check = {"once", "order", "progress"}
INVARIANTS Accepted TypeOK
CHECK_DEADLOCK FALSE
