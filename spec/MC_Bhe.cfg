SPECIFICATION Spec
CONSTANT V = {1, 2}
INVARIANTS Fresh OnlySet Types
PROPERTY Atomic
CHECK_DEADLOCK FALSE
