SPECIFICATION Spec
CONSTANTS Counts <- Few
INVARIANTS Right Unneeded Monotone
PROPERTY Ends
CHECK_DEADLOCK FALSE
