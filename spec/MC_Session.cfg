SPECIFICATION Spec
CONSTANTS Settings = {1, 2} Bores = {1, 2}
INVARIANTS Determined Unchanged
PROPERTIES FoundAsSet Others
CHECK_DEADLOCK FALSE
