SPECIFICATION Spec
CONSTANTS M = 3 Sides = 4
INVARIANTS InsideIsInside Complete NoPolygon
CHECK_DEADLOCK FALSE
