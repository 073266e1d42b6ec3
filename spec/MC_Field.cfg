SPECIFICATION Spec
CONSTANTS Heights = {1, 2, 3} Methods = {"hybrid"} Kinds = {"one", "table"} Settings = {1}
INVARIANTS AsNew Apart
PROPERTIES Sized Simulated
CHECK_DEADLOCK FALSE
