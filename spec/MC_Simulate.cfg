SPECIFICATION Spec
CONSTANTS MaxSteps = 3 MaxLoad = 2 MaxHours = 2
INVARIANTS Pulses ByHour Constant
CHECK_DEADLOCK FALSE
