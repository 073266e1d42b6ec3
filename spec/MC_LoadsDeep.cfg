SPECIFICATION Spec
CONSTANTS Cal <- C2 Hpd = 2 Top = 3
INVARIANTS NetIsLoad PeakBounds PeakDayHasPeak TwoDayHasPeak AverageBelowPeak
CHECK_DEADLOCK FALSE
