CONSTANTS Reg = {0, 1, 2, 3}
          Bytes = 16
          Value = {}
          Text = {}
SPECIFICATION TraceSpec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
