SPECIFICATION Spec
CONSTANTS Mode = "1d" MaxLen = 5 MaxE = 2 MaxDoms = 1 MaxH = 1
INVARIANTS TypeOK Consistent FewProbes
CHECK_DEADLOCK FALSE
