--------------------------- MODULE MC_HourlyRep ----------------------------
EXTENDS HourlyRep
CONSTANTS Cal, Hpd
C2 == <<2, 3>>
Init == \E b \in [1..Len(Cal) -> [pday : 1..3, D : 0..(2 * Hpd)]] :
           /\ \A k \in DOMAIN Cal : b[k].pday <= Cal[k]
           /\ RInit(Cal, Hpd, b)
Spec == Init /\ [][AddMonth]_rvars
Live == ~Done => ENABLED AddMonth
=============================================================================
