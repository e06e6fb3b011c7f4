CONSTANTS
  Values = {0, 170}
  NumRefs = 2
SPECIFICATION Spec
INVARIANTS TypeOK AssignedEqual OneBit
CHECK_DEADLOCK FALSE
