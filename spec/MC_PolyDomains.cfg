SPECIFICATION Spec
CONSTANTS M = 5
INVARIANTS NoneMissing OrderedSizes AllDrillable Kept Covered
CHECK_DEADLOCK FALSE
