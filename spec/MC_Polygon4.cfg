SPECIFICATION Spec
CONSTANTS M = 2 Sides = 4
INVARIANTS InsideIsInside Complete NoPolygon
CHECK_DEADLOCK FALSE
