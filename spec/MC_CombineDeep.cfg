SPECIFICATION Spec
CONSTANT MaxX = 6
INVARIANTS Ascends AllLong OnlyEarlier
CHECK_DEADLOCK FALSE
