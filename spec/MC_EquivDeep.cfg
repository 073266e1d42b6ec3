SPECIFICATION Spec
CONSTANTS R = 12 K = 4 V = 8
INVARIANTS Fits Kept Grown Matched
CHECK_DEADLOCK FALSE
