------------------------------- MODULE Hybrid -------------------------------
(***************************************************************************)
(* The hybrid time step (C15, C16): the segments of every simulated month. *)
(* Time is counted in ticks from the start of the month, tph ticks to the  *)
(* hour.  Month of the year data: M[mi] = [tot, pk, pday, dur] for the two *)
(* directions (1 rejection, 2 extraction), durations in ticks, pday = 0    *)
(* when there is no load.                                                  *)
(***************************************************************************)
EXTENDS Calendar, FiniteSets

VARIABLES M, cal, hpd, tph, first, last, \* months simulated
          keep,    \* months at either end in which peaks are placed
          i,       \* month under way
          at,      \* ticks of it covered
          todo,    \* directions whose peaks are still to be placed, in order
          rest,    \* ticks of it at the common rate
          seg      \* last segment: [month, from, to, kind], kind = 0 for the
                   \* common rate, or the direction of the peak
hvars == <<M, cal, hpd, tph, first, last, keep, i, at, todo, rest, seg>>

Mi(k) == OfYear(cal, k)
MonthEnd(k) == DaysIn(cal, k) * hpd * tph
Retained(k) == k < first + keep \/ k > last - keep
HasPeak(k, dir) == M[Mi(k)].pk[dir] > 0
\* peaks are placed when the days differ, the earlier one first
Order(k) ==
    LET a == M[Mi(k)].pday[1] b == M[Mi(k)].pday[2]
        s == IF a < b THEN <<1, 2>> ELSE <<2, 1>>
        Peak(dir) == HasPeak(k, dir)
    IN  IF Retained(k) /\ a # b THEN SelectSeq(s, Peak) ELSE <<>>
Dur(k, dir) == M[Mi(k)].dur[dir]
RECURSIVE DurSum(_, _)
DurSum(k, s) == IF s = <<>> THEN 0 ELSE Dur(k, Head(s)) + DurSum(k, Tail(s))

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
(* Where a peak centred c ticks into its day starts: as near to that as    *)
(* the segments before it, the month and the peaks after it allow          *)
StartAt(c, from) ==
    LET dir == Head(todo)
        ideal == (M[Mi(i)].pday[dir] - 1) * hpd * tph + c - Dur(i, dir) \div 2
    IN  Greater(Lesser(ideal, MonthEnd(i) - DurSum(i, todo)), from)

HInit(data, c, hd, tp, a, b, k) ==
    /\ M = data /\ cal = c /\ hpd = hd /\ tph = tp /\ first = a /\ last = b
    /\ keep = k /\ i = a /\ at = 0
    /\ todo = Order(a) /\ rest = 0
    /\ seg = [month |-> 0, from |-> 0, to |-> 0, kind |-> 0]

Emit(to, kind) == /\ seg' = [month |-> i, from |-> at, to |-> to, kind |-> kind]
                  /\ at' = to
                  /\ rest' = IF kind = 0 THEN rest + to - at ELSE rest
\* the common rate up to the next peak
RestTo(to) == /\ todo # <<>> /\ at < to
              /\ Emit(to, 0) /\ UNCHANGED todo
PlacePeak(to) == todo # <<>> /\ Emit(to, Head(todo)) /\ todo' = Tail(todo)
RestToEnd == /\ i <= last /\ todo = <<>> /\ at < MonthEnd(i)
             /\ Emit(MonthEnd(i), 0) /\ UNCHANGED todo
Same == UNCHANGED <<M, cal, hpd, tph, first, last, keep, i>>
NextMonth == /\ at = MonthEnd(i) /\ todo = <<>> /\ i <= last
             /\ i' = i + 1 /\ at' = 0 /\ rest' = 0
             /\ todo' = IF i < last THEN Order(i + 1) ELSE <<>>
             /\ UNCHANGED <<M, cal, hpd, tph, first, last, keep, seg>>
(* The middle of the day: the centre of the peak lies in the hour that     *)
(* starts at noon                                                          *)
Middle == (hpd \div 2) * tph
Centres == Middle..(Middle + tph)
HNext == \/ \E c \in Centres : todo # <<>> /\ RestTo(StartAt(c, at)) /\ Same
         \/ \E c \in Centres : /\ todo # <<>> /\ at = StartAt(c, at)
                               /\ PlacePeak(at + Dur(i, Head(todo))) /\ Same
         \/ RestToEnd /\ Same
         \/ NextMonth

(* Guarantees *)
Shown == seg.month > 0
Advances == Shown => seg.from < seg.to \/ seg.kind > 0
InMonth == Shown => 0 <= seg.from /\ seg.to <= MonthEnd(seg.month)
PeakLasts == Shown /\ seg.kind > 0 =>
    seg.to - seg.from = Dur(seg.month, seg.kind)
PeakRetained == Shown /\ seg.kind > 0 => Retained(seg.month)
\* the segments cover the month, so that the common rate applies to the
\* hours without a peak and the energy of the month is kept
Covered == at + DurSum(i, todo) <= MonthEnd(i)
\* every placed peak at its value, and what is left of the energy spread over
\* the hours that are left, add up to the energy of the month
EnergyKept == i <= last /\ at = MonthEnd(i) /\ todo = <<>> =>
    rest + DurSum(i, Order(i)) = MonthEnd(i)
PeaksPlaced == i <= last /\ at = MonthEnd(i) /\ todo # <<>> => DurSum(i, todo) = 0
=============================================================================
