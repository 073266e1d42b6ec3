MISSED = {}
NOTES = {
'C01': """
*Specified* (`Search.tla`): the bisection as a state machine over a list of
candidate fields with excess temperatures at both heights: initial checks,
probes, choice among what was computed, the heat exchanger left behind. *Model*
(`MC_Search1`): every list of up to 6 candidates with every excess profile in
small integers; invariants state the result directly (first sufficient field,
GHE of that field at the maximum height). *Bound* to 300 (quick) searches of
`Bisection1D` over lists of 1 to 40 candidates with strictly falling excess of
any magnitude, including exact zeros and a first field that suffices between the
two heights. Oracle: the machine run on the recorded problem. ~10 s.
""",
'C02': """
As C01, with arbitrary (non-monotone, tied, all positive, all negative) excess
profiles over the 1d, 2d and zoned searches: the result has excess <= 0 at the
maximum height, and the refusal is ValueError exactly when stated. 1400 searches
per quick run. ~13 s.
""",
'C03': """
`Search.tla` mode "2d": outer list of the largest fields, then the selected
domain. `MC_Search2` explores every nesting of small domains. 500 recorded
searches of `Bisection2D`. Conditional on falling excess as stated.
""",
'C04': """
`Search.tla` mode "zd": successive domains, sized heights given per field, total
drilling compared. `MC_SearchZ`: every profile and height table for small
domains; 500 recorded `BisectionZD` searches with heights of any magnitude. The
stand-in records `compute_g_functions` and `size`, so a field returned unsized is
seen.
""",
'C05': """
`Candidate.tla`: exact flow, spacing and geometry of each evaluated field, from
the coordinates. All evaluations of 360 recorded searches (three routines, both
flow modes, four fluids) are judged, for both the g-function call and the heat
exchanger made, in 9 to 12 decimals.
""",
'C06': """
`Domains.tla` builds each domain field by field in exact rational spacings
(lengths in mm). `MC_Domains` checks for all small lands that counts grow, fields
fit and the growth rule holds. Recorded: `square_and_near_square` and
`Design(routine='near-square')`, lengths at and next to exact multiples. Every
borehole of every field is compared by a hash of its coordinates in 0.1 mm plus
count and corner values.
""",
'C07': "As C06 for `rectangular`, in both orientations, by function and through `Design`.",
'C08': "As C06 for `bi_rectangular` and `bi_rectangle_nested`, with B_max per side and swapped axes.",
'C09': """
As C06 for `zoned_rectangle_domain`, `bi_rectangle_zoned_nested`; the interior
growth (largest clearance of the perimeter) is decided by exact rational
comparison. `MC_DomainsZ` explores all small perimeters. Requests whose choice is
an exact rational tie that floats decide by noise are skipped; fewer than three
boreholes per side is outside the property (the code raises).
""",
'C10': """
`Layouts.tla` defines each shape as a set of grid positions; `MC_Layouts` proves
for all small sizes that shapes have their borehole count, nest, and that zoned
interiors keep clear. All calls of 60 sequences (some 1400 calls) are compared
borehole by borehole.
""",
'C11': """
`Polygon.tla` decides the position of a point exactly (rationals, crossing rule).
`MC_Polygon3/4` (Deep: larger grid) prove on a small grid that the rule agrees
with an independent definition and that the filter is right for every triangle
and quadrilateral. 640 recorded calls: random star-shaped, concave, axis-aligned
polygons, with points inside, outside, on edges and at vertices.
""",
'C12': """
`PolyDomains.tla` composes C08 and C11: every field of the bounding rectangle is
filtered, empty ones dropped, domains ordered. `MC_PolyDomains` for small
triangles with and without a hole; 240 recorded designs with 3 to 11 sides.
""",
'C13': """
`Loads.tla` walks days and accumulates exact integers. `MC_Loads` compares with
direct sums for every load of a tiny calendar; recorded analyses of whole years
(8760 and 8784 hours; W and kW).
""",
'C14': """
`Peaks.tla`: the two-day window hour by hour with exact integers, the crossing of
the constant-load rise with the largest real rise; `MC_Peaks` for every small
window. The recorded duration must bracket the crossing. The two-day window is
the peak day and the day *after* it; the documentation says before; the tests pin
the code, so the specification follows the code (discrepancy noted).
""",
'C15': """
`Hybrid.tla` builds the segments of a month in ticks; invariant: energy of each
month. `MC_Hybrid` (960 k states) for every placement of peaks in tiny months;
120 recorded sequences over 1 to 5 years with the energy of every month summed
exactly from the recorded loads.
""",
'C16': """
As C15: order, month ends, placement, centring, clearances, step function. Days
of both peaks may tie; durations are forced from outside in half of the cases so
that overlaps at both ends of months occur.
""",
'C17': """
`Simulate.tla`: superposition as a machine; rows of recorded g values and loads
are superposed exactly (12 decimals) and compared with temperatures to 1e-6 K.
The response used for a step is read from a field newly made at that height.
`MC_Simulate`: linearity, shift and independence for all short sequences.
""",
'C18': """
`Hourly.tla` repeats the year and keeps only the hours of the simulated months;
loads are sparse breakpoints so that a superposition of thousands of hours has
few terms and is exact. `MC_Hourly` compares with hour-by-hour sums.
""",
'C19': """
`Sizing.tla`: a bracketing search with any choice of interior point; `MC_Sizing`
proves termination at the root or a bound for every falling excess. Recorded:
stand-in excess profiles (linear pieces, kinks, roots at and beyond the limits)
and real fields for both methods.
""",
'C20': """
`GFunc.tla`: exact rational Lagrange interpolation for all kinds; cubic splines
are decided by the not-a-knot conditions rather than a formula. `MC_GFunc`:
values at nodes, reproduction of polynomials. Sequences of queries with
interleaved kinds, ratios, extrapolation.
""",
'C21': "`Combine.tla` merges point by point; `MC_Combine` for all small grids; recorded lists and real fields.",
'C22': """
`Bhe.tla`: each derived quantity remembers the parameters it was computed from;
an update refreshes in order. Recorded sequences of changes are compared with
newly built heat exchangers for the parameters each quantity depends on.
""",
'C23': """
`Equiv.tla`: volumes, room, matching of resistances as a crossing or a bound;
recorded for random double U-tubes and coaxials. Film area n pi d^2 of
`u_tube_volumes` and the convective resistance of coaxials at the inner wall are
pinned by tests, so the specification uses the repository's definitions; the pipe
conductivity of an equivalent is that of the solver's last evaluation.
""",
'C24': """
`Session.tla`: slots, files, shared boreholes, answers as (settings, evaluations).
`MC_Session` explores every history of two designs, one file, three boreholes:
finds leave settings alone, files hold what was saved, answers depend on settings
only. `GenSession` behaviours (14 quick, 160 thorough; a random prefix aimed at
the interesting interleavings) are replayed with real designs of all four
routines, three exchangers, both flow modes, also from another process; the
reference for each setting is a design made, found and sized in its own process.
""",
'C25': """
`Report.tla` over `Field.tla`: exports and prints between operations. `MC_Report`
explores histories and every number of short time steps; `GenReport` behaviours
are replayed on fields that real searches found. Files and printed text are
parsed and compared with fields made anew. The hybrid loads of a field are those
of the height it was made with; the reference keeps that. After a refused sizing
the parts are unclear and only the height is judged.
""",
'C26': """
`Validation.tla`: each kind of request with its checks; `MC_Validation`: every
request with few values. ~1200 requests: all subsets of inputs for each routine,
all selectors with systematically misspelt values (case, prefix, suffix, plural,
blank, truncation), in shuffled histories of refused and answered requests.
Segment names are accepted in any case by the code on purpose.
""",
'C27': "`HourlyRep.tla`; figures from `Loads.tla` run on the recorded loads, or those of the doubling profile.",
'C28': "`Database.tla`; recorded databases with shuffled keys, live computations and rescaling.",
'C29': """
`Field.tla`: two fields, operations move / simulate / size / compute / tune (other
flow and fluid), a simulation refreshing its parts one after another; `AsNew`:
at rest results equal those of a field made anew. `MC_Field`, `MC_FieldTuned`,
`MC_FieldDeep` up to 1.2 M states. `GenField` behaviours (aimed prefixes) are
replayed on pairs of real fields sharing fluid, pipe, ground and g-functions or
not; references are fields made anew in their own process. The limits of most
cases are calibrated so that sizing ends strictly between its bounds.
""",
'C30': """
`Radial.tla`: a chain of rings with capacities and conductances; a step is any
pair of states in balance. `MC_Radial` solves every small chain exactly (integers
over det^n) and checks that such states conserve heat, fall outwards, rise in time
and stay below the steady state. For a recorded curve the harness supplies a
solution (another elimination of the same balances), and `RadialTrace` verifies
it: all 535 rings' radii, capacities, logarithms (by series), resistances and
conductances against the heat exchanger's parameters, the balances of 534 rings
and the total at the first, second, middle and last steps, then every point of the
code's curve, its times, length and interpolant. The time of a point is the start of the step whose end it
describes (first 0 s, value after 120 s) and pipe rings overlap the grout, as the
repository has them (the tests pin both).
""",
'C31': """
`Figures.tla`: a figure is drawn one datum at a time, marks of two series for the hours, closed outlines,
a place for every month in the record of responses; `MC_Figures` draws every load of up to 6 (deep: 8) hours in any
portions. Marks, lines, names, legends and written ratios are read from the artists of the figures the code made (files are listed, and what they
show is recorded when they are saved) and compared as bags with the data. The two-day figures of all twelve months are compared hour by hour with the exact responses
of `Peaks.tla` run on the recorded loads; months without load included. Every figure is drawn twice, and the data compared with a copy.
""",
'C32': """
`Helpers.tla`: a walk through months and a walk round a polygon. `MC_Helpers`: calendars over years, and every triangle and
quadrilateral of a 4 x 4 (deep: 5 x 5) grid with the area decided by counting lattice points (Pick's theorem) and shown independent of start, direction and
place; counts, stable ordering, unimodality and brackets by `ASSUME` over all small values. Recorded results of the real
helpers are judged by the same operators: 400 months, polygons far from the origin, lengths one millimetre around whole numbers of spacings, and so on.
The sign of `compute_mpe` is the one of the code (its documentation has it the other way round).
""",
'C33': """
`Describe.tla`: the state is what is known (figures by name) and the last description written; figures change, and describing writes the template of the kind with the figures of
that moment. `MC_Describe` explores every sequence of changes and descriptions over small figures (a description never
shows an old figure; every figure has its line once; no label twice in one section). Recorded: descriptions of random heat exchangers between changes of flow, fluid, height and ground, read back line by line; `DescribeTrace` compares each with the
figure of its line (half a unit of the fourth decimal where the description rounds). Reynolds numbers, flows and parameters are computed from what was given, not read from the
described object; resistances and coefficients are those of the object at that moment (C22 decides whether they are right).
Placed pipes are judged by scalar and vector products of neighbours, without a sine or cosine.
""",
}
TAIL = """
## False alarms met on the way, and what was corrected

* C14: durations compared to a rounded crossing; now bracketed.
* C23: volumes with the film areas of an independent formula; the repository's
  definitions are pinned by its tests and used instead.
* C25: the temperatures of a field after a change of height were compared with a
  field made at the new height; the hybrid loads stay those of the height of
  making (documented in the code), so the reference is made the same way. A
  refused sizing may leave results of heights it evaluated.
* C26: segment names are case-insensitive on purpose (`segments.lower()`).
* C29/C22: pygfunction's cache (above).
* C09: exact ties of interior growth.

## Defects repaired

`KNOWN_FINDINGS.txt` lists the repairs ("fix:" commits in `/repo`) with what
failed. No finding is left unrepaired.

## Notes on behaviour that is pinned or out of scope

* The hybrid load is not updated with height (comment in `grab_g_function`).
* Times beyond the last g-function point raise ValueError from the interpolator;
  such simulations are outside the generated inputs.
* Oversized zoned searches whose excess does not fall along the fields can end in
  a ValueError "min() iterable argument is empty": a refusal, though not a kind one.
* `BaseGHE.__repr__` computes a 'Simulation Results' header it does not print
  (cosmetic).
* Colours, axis limits and tick marks of figures are not claimed.

## Cost

Quick: 10 to 75 s per check on 8 cores. Thorough: up to 15 minutes per check.
"""
