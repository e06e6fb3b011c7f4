CONSTANT Most = 3
SPECIFICATION Spec
INVARIANTS Given2 Undistorted
PROPERTY Fresh
CHECK_DEADLOCK FALSE
