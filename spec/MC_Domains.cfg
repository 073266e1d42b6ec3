SPECIFICATION Spec
CONSTANTS MaxL = 9 MaxB = 4 Routines = {"near", "rect", "birect", "zoned1"}
INVARIANTS OnLand Admissible Grows NearGrows StartsWithOne InsidePerimeter EndsFull RowsFit Domains2 Live
CHECK_DEADLOCK FALSE
