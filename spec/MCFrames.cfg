CONSTANTS Frame = {0, 1}
          TypeSet = {1, 2}
          MaxKeypoints = 2
          MaxBlocks = 2
SPECIFICATION Spec
INVARIANTS Aligned Partition OnlyTracked CopiesEqual
PROPERTY Local
CHECK_DEADLOCK FALSE
