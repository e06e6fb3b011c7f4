SPECIFICATION TraceSpec
INVARIANTS Accepted Fine
CHECK_DEADLOCK FALSE
