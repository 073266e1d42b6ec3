SPECIFICATION Spec
CONSTANTS MaxL = 9 MaxB = 3 Routines = {"zoned"}
INVARIANTS OnLand Admissible Grows NearGrows StartsWithOne InsidePerimeter EndsFull RowsFit Domains2 Live
CHECK_DEADLOCK FALSE
