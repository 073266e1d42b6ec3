SPECIFICATION Spec
CONSTANTS Length = 9
INVARIANTS AsNew
CHECK_DEADLOCK FALSE
