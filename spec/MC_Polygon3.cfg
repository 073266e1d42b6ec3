SPECIFICATION Spec
CONSTANTS M = 2 Sides = 3
INVARIANTS InsideIsInside Complete NoPolygon
CHECK_DEADLOCK FALSE
