CONSTANTS Slot = {0, 1}
          IdSet = {1, 2}
          MaxObjects = 3
          MaxCams = 2
          MaxSteps = 6
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANTS Consistent Paired CopyEqual RenewedDiffers Owned Equivalence
CHECK_DEADLOCK FALSE
