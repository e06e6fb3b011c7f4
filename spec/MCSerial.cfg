CONSTANTS Type = {"t", "u"}
          Value = {1, 2, 3}
          Message = {"a", "b", "c"}
SPECIFICATION Spec
INVARIANTS Consistent Functional
CHECK_DEADLOCK FALSE
