SPECIFICATION Spec
CONSTANTS Settings = {1, 2, 3} Bores = {1, 2, 3}
INVARIANTS Determined Unchanged
PROPERTIES FoundAsSet Others
CHECK_DEADLOCK FALSE
