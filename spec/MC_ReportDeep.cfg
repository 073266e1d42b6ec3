SPECIFICATION Spec
CONSTANTS Heights = {1, 2, 3} Methods = {"hybrid", "hourly"} Files = {1, 2} Wide = 400
INVARIANTS AsNew Exported CleanThen
PROPERTIES Harmless
CHECK_DEADLOCK FALSE
