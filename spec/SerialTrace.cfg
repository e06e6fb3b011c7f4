CONSTANTS Type = {}
          Value = {}
          Message = {}
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
