CONSTANTS Window = 100
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
