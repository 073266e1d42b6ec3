SPECIFICATION Spec
CONSTANTS Win = 4 Top = 3 M = 5
INVARIANTS Bounded Increasing Exists Unique Flat
CHECK_DEADLOCK FALSE
