SPECIFICATION Spec
CONSTANTS M = 3 Sides = 3
INVARIANTS InsideIsInside Complete NoPolygon
CHECK_DEADLOCK FALSE
