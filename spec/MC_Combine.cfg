SPECIFICATION Spec
CONSTANT MaxX = 4
INVARIANTS Ascends AllLong OnlyEarlier
CHECK_DEADLOCK FALSE
