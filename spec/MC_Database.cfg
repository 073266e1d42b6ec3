SPECIFICATION Spec
CONSTANT MaxN = 3
INVARIANTS Ordered Each
CHECK_DEADLOCK FALSE
