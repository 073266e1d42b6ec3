SPECIFICATION Spec
CONSTANTS Days = 2 Years = 2 MaxDur = 3 Keeps = {1}
INVARIANTS Advances InMonth PeakLasts PeakRetained Covered PeaksPlaced EnergyKept Live
CONSTRAINT Upto
CHECK_DEADLOCK FALSE
