CONSTANTS Group = {0, 1, 2}
          Thread = {0, 1, 2, 3, 4}
          Name = {}
          Val = {}
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
