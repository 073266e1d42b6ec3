SPECIFICATION Spec
CONSTANTS Grid = {1, 2, 4, 5} MaxY = 2 MaxN = 4
INVARIANTS NoMemory Through Agree Between
CHECK_DEADLOCK FALSE
