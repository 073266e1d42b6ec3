SPECIFICATION Spec
CONSTANT MaxN = 4
INVARIANTS Ordered Each
CHECK_DEADLOCK FALSE
