SPECIFICATION Spec
CONSTANTS Heights = {1, 2} Methods = {"hybrid"} Files = {1, 2} Wide = 160
INVARIANTS AsNew Exported CleanThen
PROPERTIES Harmless
CHECK_DEADLOCK FALSE
