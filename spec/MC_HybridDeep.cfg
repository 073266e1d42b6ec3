SPECIFICATION Spec
CONSTANTS Days = 3 Years = 2 MaxDur = 4 Keeps = {1, 2}
INVARIANTS Advances InMonth PeakLasts PeakRetained Covered PeaksPlaced EnergyKept Live
CONSTRAINT Upto
CHECK_DEADLOCK FALSE
