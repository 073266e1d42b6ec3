SPECIFICATION Spec
CONSTANTS Top = 6 MaxE = 5 Tol = 1
INVARIANTS Correct Bracket
PROPERTY Ends
CHECK_DEADLOCK FALSE
