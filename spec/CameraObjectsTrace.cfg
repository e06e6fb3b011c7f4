CONSTANT Slot = {0, 1, 2}
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
