SPECIFICATION Spec
CONSTANTS Mode = "2d" MaxLen = 3 MaxE = 2 MaxDoms = 2 MaxH = 1
INVARIANTS TypeOK Consistent FewProbes
CHECK_DEADLOCK FALSE
