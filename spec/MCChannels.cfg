CONSTANTS Group = {0, 1}
          Thread = {0}
          Name = {"x", "y"}
          Val <- MCVal
SPECIFICATION Spec
INVARIANT EqualSymmetric
PROPERTIES WriteLocal CloneIndependent TypeStable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
