CONSTANT Max = 35
SPECIFICATION Spec
INVARIANTS Arithmetic WholeUnique Readable
CHECK_DEADLOCK FALSE
