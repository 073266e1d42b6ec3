SPECIFICATION Spec
CONSTANTS Length = 12
INVARIANTS AsNew
CHECK_DEADLOCK FALSE
