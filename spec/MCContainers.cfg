CONSTANTS
  MaxLen = 4
  Keys = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS TypeOK NoneInvented ErasedExactly BestStay MedianUnique
CHECK_DEADLOCK FALSE
