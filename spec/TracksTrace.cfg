CONSTANT Frame = {0, 1, 2, 3, 4, 5}
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
