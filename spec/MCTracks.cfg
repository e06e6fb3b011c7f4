CONSTANTS Frame = {0, 1, 2, 3, 4, 5}
          Tracker = {0, 1}
          Points = 2
          Length = 3
SPECIFICATION Spec
INVARIANTS Distinct OnePoint Linked UnlinkedUntracked Gap
CHECK_DEADLOCK FALSE
