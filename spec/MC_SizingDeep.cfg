SPECIFICATION Spec
CONSTANTS Top = 8 MaxE = 6 Tol = 1
INVARIANTS Correct Bracket
CHECK_DEADLOCK FALSE
