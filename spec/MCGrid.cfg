CONSTANTS MaxPts = 3
          Limit = 2
          Dist = 2
          Weights = {1, 2}
          Mode = {"any", "thin"}
SPECIFICATION Spec
INVARIANTS WithinLimit Separated Total ReduceIsOneByOne
PROPERTY StrongestStays
CHECK_DEADLOCK FALSE
