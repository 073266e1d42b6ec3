SPECIFICATION Spec
CONSTANTS Cal <- C1 Hpd = 2 Top = 1
INVARIANTS NetIsLoad PeakBounds PeakDayHasPeak TwoDayHasPeak AverageBelowPeak
CHECK_DEADLOCK FALSE
