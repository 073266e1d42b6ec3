SPECIFICATION Spec
CONSTANTS MaxLoad = 2 MaxMonth = 5
INVARIANTS Repeats Inside
CHECK_DEADLOCK FALSE
