CONSTANTS
  Slot = {0, 1}
  Sizes = {1, 2}
  MaxSteps = 3
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS TypeOK Keypoints Lag CopyEqual Stable
CHECK_DEADLOCK FALSE
