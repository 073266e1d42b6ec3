SPECIFICATION Spec
CONSTANTS Heights = {1, 2} Methods = {"hybrid"} Kinds = {"table"} Settings = {1, 2}
INVARIANTS AsNew Apart
PROPERTIES Sized Simulated
CHECK_DEADLOCK FALSE
