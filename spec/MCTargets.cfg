CONSTANTS
  MaxRows = 2
  MaxTags = 2
SPECIFICATION Spec
INVARIANTS Numbering Squares Extent Sound
PROPERTY More
CHECK_DEADLOCK FALSE
