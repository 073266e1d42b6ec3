SPECIFICATION Spec
CONSTANTS Length = 11 Finds = 3
CHECK_DEADLOCK FALSE
