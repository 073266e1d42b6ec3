SPECIFICATION Spec
CONSTANT Max = 7
INVARIANTS SameAsOpen Counts Clear FullGrid
PROPERTIES Contained OneMore
CHECK_DEADLOCK FALSE
