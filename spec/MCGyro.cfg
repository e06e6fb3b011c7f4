SPECIFICATION Spec
CONSTANTS
  Points = 3
  Length = 4
  Ratio = 4
  Most = 1
  Least = 1
  Drops = FALSE
INVARIANTS OneToOne Share NotTooLong AtEnd Once Ages
PROPERTY Deserved
CHECK_DEADLOCK FALSE
