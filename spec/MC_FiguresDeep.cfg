SPECIFICATION Spec
CONSTANTS Hrs = 8 Top = 2 Side = 2
INVARIANTS EveryHourOnce LoadsShown InOrder SignsApart Whole
CHECK_DEADLOCK FALSE
