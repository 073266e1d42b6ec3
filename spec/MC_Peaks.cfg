SPECIFICATION Spec
CONSTANTS Win = 3 Top = 2 M = 4
INVARIANTS Bounded Increasing Exists Unique Flat
CHECK_DEADLOCK FALSE
