CONSTANTS
  Slot = {0, 1}
  Whole = {0, 1}
  Longest = 3
  MaxSteps = 6
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS Refer Extent
PROPERTY AtEnd
CHECK_DEADLOCK FALSE
