SPECIFICATION Spec
CONSTANTS R = 5 K = 3 V = 5
INVARIANTS Fits Kept Grown Matched
PROPERTIES SourceKept Ends
CHECK_DEADLOCK FALSE
