SPECIFICATION TraceSpec
CONSTANTS Thread = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
 Image = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}
 Check = {"queue"}
INVARIANTS Accepted TypeOK Grouped Once
CHECK_DEADLOCK FALSE
