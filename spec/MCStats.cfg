CONSTANTS Window = 3
          Tag = {"a", "b"}
          Thr = {1}
          MaxSamples = 3
          R = {0}
SPECIFICATION Spec
INVARIANTS Bijective Partner Attributed
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
