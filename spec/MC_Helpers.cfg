SPECIFICATION Spec
CONSTANTS Side = 3 Months = 5 Row = 12
INVARIANTS MonthHours Contiguous EveryYear PickArea SplitArea Invariance
CHECK_DEADLOCK FALSE
