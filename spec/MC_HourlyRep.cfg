SPECIFICATION Spec
CONSTANTS Cal <- C2 Hpd = 6
INVARIANTS OneYear PeaksStated OnTheDay Live
CHECK_DEADLOCK FALSE
