SPECIFICATION Spec
CONSTANTS Hrs = 6 Top = 2 Side = 1
INVARIANTS EveryHourOnce LoadsShown InOrder SignsApart Whole
CHECK_DEADLOCK FALSE
