SPECIFICATION Spec
CONSTANTS Mode = "zd" MaxLen = 2 MaxE = 1 MaxDoms = 3 MaxH = 2
INVARIANTS TypeOK Consistent FewProbes
CHECK_DEADLOCK FALSE
