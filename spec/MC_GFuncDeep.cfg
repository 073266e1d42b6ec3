SPECIFICATION Spec
CONSTANTS Grid = {1, 2, 3, 5, 6} MaxY = 2 MaxN = 5
INVARIANTS NoMemory Through Agree Between
CHECK_DEADLOCK FALSE
