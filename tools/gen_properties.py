"""Writes properties.jsonl (kept as code so that the list stays consistent)."""
import json, os
S = 'ghedt/search_routines.py'; D = 'ghedt/domains.py'; CO = 'ghedt/coordinates.py'
GH = 'ghedt/ground_heat_exchangers.py'; GF = 'ghedt/gfunction.py'; U = 'ghedt/utilities.py'
FR = 'ghedt/feature_recognition.py'; DE = 'ghedt/design.py'; ME = 'ghedt/media.py'
P = 'ghedt/peak_load_analysis_tool/'
GL = P + 'ground_loads.py'; BH = P + 'borehole_heat_exchangers.py'; EQ = P + 'equivalance.py'; PM = P + 'media.py'
RN = P + 'radial_numerical_borehole.py'
props = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', 'One-dimensional field search returns the first field that suffices',
     'When the excess temperature at the maximum height falls strictly along the list of candidate fields, the '
     'field search returns the index and the coordinates of the first field whose excess temperature at the maximum '
     'height is not positive. The heat exchanger it leaves behind is that field, at the maximum height, with its own '
     'g-function, flow rate and spacing. If the first field needs a height between the minimum and the maximum, '
     'the first field is returned.',
     ['inputs'], 'every list of candidate fields (any length) and every monotone excess profile, including an excess of exactly zero',
     'One near-square search with one load profile is run by the tests; the position of the answer in the list, list '
     'lengths, zero excesses and heating-bound cases are not sampled.',
     [S, U, GH], [('Bisection1D.search', S), ('sign / check_bracket', U), ('BaseGHE.cost', GH)],
     [('calculated_temperatures', 'excess of the probed fields at the maximum height', S),
      ('xL_idx, xR_idx', 'bracket of the integer bisection', S)],
     ['selection_key', 'selected_coordinates', 'ghe'])

prop('C02', 'The search never returns an insufficient field and refuses otherwise',
     'Whatever the excess temperatures of the candidate fields are (monotone or not), a field returned by a search '
     'keeps its excess temperature at the maximum height at or below zero. If no field does, because the loads are too '
     'large, or if the excess falls along the fields and the first one is already more than enough at the minimum '
     'height, the search raises ValueError instead of returning a field or nothing.',
     ['inputs'], 'every list of candidate fields and every excess profile whose first field improves with height',
     'The tests never reach the refusals nor a non-monotone profile; a returned-but-infeasible design looks like any '
     'other result.',
     [S, U], [('Bisection1D.search', S), ('check_bracket', U)],
     [('T_0_lower, T_0_upper, T_m1', 'initial probes', S)], ['selection_key', 'ValueError'])

prop('C03', 'Nested search picks the first sufficient row domain, then its first field',
     'The two-dimensional search selects the first nested domain whose largest field suffices at the maximum height, '
     'and returns the first field of that domain that suffices. It refuses with ValueError exactly when the '
     'one-dimensional search over the largest fields, or over the selected domain, would refuse.',
     ['inputs'], 'every nested domain and every excess profile falling strictly along the largest fields and within the selected domain',
     'No test runs the two-dimensional search.', [S], [('Bisection2D.__init__', S), ('Bisection1D.search', S)],
     [('coordinates_domain_nested', 'list of candidate domains', S)], ['selection_key', 'selected_coordinates', 'ghe'])

prop('C04', 'Zoned search returns the domain with the least total drilling it examined',
     'Starting from the first nested domain whose largest field suffices, the zoned search sizes the first sufficient '
     'field of each successive domain (at most seven) until the total drilling, boreholes times sized height, grows or '
     'a domain is refused. It returns the examined field with the least total drilling, and leaves the heat exchanger '
     'as that field with its g-functions for sizing computed and its height sized.',
     ['inputs', 'histories'], 'every nested domain, excess profile and sequence of sized heights, of any magnitude',
     'No test runs the zoned search; the answer depends on a history of sizings.', [S],
     [('BisectionZD.search_successive', S)],
     [('calculated_heights', 'total drilling per examined domain', S),
      ('selection_key_outer', 'domain the successive search starts from', S)],
     ['selection_key', 'selected_coordinates', 'ghe'])

prop('C05', 'Flow, spacing and height are consistent for every candidate evaluated',
     'For every candidate field evaluated, borehole flow means each borehole gets the given flow and the system the '
     'flow times the number of boreholes; system flow means the boreholes share the given flow equally. The g-function and '
     'the heat exchanger of that evaluation use that flow (converted with the fluid density), the same coordinates, '
     'height, radius and burial depth, and a spacing equal to the distance between the first two boreholes (at '
     'least the borehole radius; the radius itself for a single borehole). Its excess temperature is '
     'simulated with the method that was requested.',
     ['inputs', 'configurations'], 'every field, flow mode, flow rate, fluid and bore field geometry reached during any search',
     'Tests use one flow mode pair on one field; an inconsistency between the g-function and the heat exchanger only shifts the numbers.',
     [S, U, GH, GF], [('Bisection1D.retrieve_flow', S), ('Bisection1D.initialize_ghe', S), ('borehole_spacing', U),
                      ('BaseGHE.__init__', GH)],
     [('V_flow_system, B_spacing', 'flow and spacing of the evaluated field', GH)], ['GHE arguments', 'compute_live_g_function arguments'])

prop('C06', 'Near-square candidates are 1x1, 1x2, 2x2, 2x3, ... within the land',
     'The near-square domain from a to b is exactly a x a, a x (a+1), (a+1) x (a+1), ..., b x b at the given spacing, with '
     'growing borehole counts. Given a land length and a spacing, the design uses a = 1 and the largest b whose b '
     'boreholes fit on the length, also when the length is a whole number of spacings, so every field fits on the '
     'square land.',
     ['inputs'], 'every lower and upper bound, spacing and land length, including lengths that are exact multiples of the spacing',
     'The tests use one length; off-by-one counts caused by floating point division appear for particular values only.',
     [D, U, DE, CO], [('square_and_near_square', D), ('number_of_boreholes', U), ('rectangle', CO), ('Design.__init__', DE)],
     [], ['coordinates_domain'])

prop('C07', 'Rectangular candidates fit the land with uniform admissible spacing',
     'Every field of the rectangular domain is a uniform grid inside the land; the long side is divided evenly into a '
     'spacing between the minimum and maximum, and the rows across are as many as fit at that spacing. The domain grows '
     'from one borehole to a line to rows at the widest spacing, then adds one denser field each time another row '
     'fits, so borehole counts never fall. Swapping length and width only swaps the axes.',
     ['inputs'], 'all land sizes and spacing limits (at least one admissible spacing), in both orientations',
     'No test builds the rectangular domain.', [D, CO, U], [('rectangular', D), ('rectangle', CO), ('transpose_coordinates', CO)],
     [('n_2_old', 'rows of the last field emitted', D)], ['list of coordinates'])

prop('C08', 'Bi-rectangular candidates span the land with both spacings admissible',
     'In every nested bi-rectangular domain the full fields span the land exactly on both sides, with the spacing of '
     'each side between the minimum and that side\'s maximum, and there is one domain for every admissible row count '
     'across the short side. Each domain starts with a single borehole, grows by a line then rows, then by one column '
     'at a time up to the densest admissible field, with borehole counts never falling. Swapping length and width '
     'together with their maximum spacings only swaps the axes.',
     ['inputs'], 'all land sizes and spacing limits (at least one admissible spacing per side), in both orientations',
     'No test builds the bi-rectangular domain.', [D, CO, U], [('bi_rectangular', D), ('bi_rectangle_nested', D)],
     [], ['nested list of coordinates'])

prop('C09', 'Bi-zoned candidates stay on the land and fill the interior evenly',
     'Every field of the bi-zoned nested domains lies inside the land with perimeter spacings admissible for their '
     'side. The first domain grows from one borehole through line, L, U and open rectangle; each domain then has a '
     'closed perimeter whose evenly spaced interior grid grows by one row or column at a time, chosen so that the '
     'interior stays furthest from the perimeter, until it is the full grid; perimeters of successive domains grow '
     'alternately on each side. Swapping length and width together with their maximum spacings only swaps the axes.',
     ['inputs'], 'all land sizes and spacing limits with at least three boreholes per side, in both orientations',
     'No test builds the bi-zoned domain; the transposed orientation only matters for width larger than length.',
     [D, CO, U], [('bi_rectangle_zoned_nested', D), ('zoned_rectangle_domain', D), ('L_shape, lop_U, C_shape, zoned_rectangle', CO)],
     [('n_i1, n_i2', 'interior grid size', D), ('j, k', 'perimeter sizes', D)], ['nested list of coordinates'])

prop('C10', 'Each layout function places exactly the boreholes of its shape',
     'The rectangle, open rectangle, U, lopsided U, L, C and zoned layouts contain every borehole of their shape exactly '
     'once at the given spacings and no other borehole; a zoned layout with more interior boreholes than fit raises '
     'ValueError. Transposing swaps the coordinates of each borehole and keeps their order.',
     ['inputs'], 'all admissible borehole counts and spacings of every layout',
     'Tests only reach plain rectangles.', [CO], [('rectangle .. zoned_rectangle', CO), ('transpose_coordinates', CO)],
     [], ['returned coordinates'])

prop('C11', 'Polygon filtering removes exactly the boreholes it should',
     'Filtering a field against a polygon keeps or removes each borehole according to whether it lies inside, outside or '
     'on the polygon and to the two options, keeps the order and position of the survivors, and never changes the '
     'input. Without a polygon nothing is removed.',
     ['inputs'], 'every simple polygon (convex or not), borehole position (resolved to 0.1 mm) and combination of options',
     'No test calls the filter.', [FR], [('remove_cutout', FR), ('scale_coordinates', FR)], [], ['returned coordinates'])

prop('C12', 'Polygonal designs keep only boreholes on the property and off the building',
     'The domains for a polygonal property are the bi-rectangular domains of its bounding rectangle (from the origin) with every borehole '
     'outside the property, and every borehole in or on the no-drill polygon, removed. Fields left empty are dropped, '
     'no other field is lost or repeated, and fields in each domain are ordered by growing borehole count.',
     ['inputs'], 'every property polygon in the positive quadrant, optional building polygon and spacing limits',
     'No test builds a polygonal domain.', [D, FR], [('polygonal_land_constraint', D), ('reorder_domain', D),
                                                     ('determine_largest_rectangle', FR)], [], ['nested list of coordinates'])

prop('C13', 'Hourly loads split into rejection and extraction with right monthly figures',
     'Splitting a signed hourly load gives for each hour the rejection and the extraction in kilowatts, one of them zero, '
     'whose difference is the load. For each month of the year the total, average and peak, and the day of the first '
     'hour of the peak (0 for a month without load), are those of the hours of that month; the two-day profile is '
     'the peak day followed by the day after it, wrapping around the year end. The table of the peak analysis shows these figures.',
     ['inputs'], 'every 8760 hour load profile, with the peak at any hour of any day, including the first and the last hour of a month',
     'One load file is used by all tests; none of its peaks falls in the first hour of a day.',
     [GL], [('HybridLoad.split_heat_and_cool', GL), ('Loads.split_load_by_month', GL), ('Loads.process_two_day_loads', GL)],
     [('monthly_total/average/peak/peak_day', 'monthly figures, 1..12', GL),
      ('monthly_two_day_hourly_peak', '48 hour profile around each peak', GL)], ['Loads attributes'])

prop('C14', 'Peak duration makes the constant peak match the real two-day response',
     'For every month the peak duration is the time at which a constant load of peak minus average produces the largest '
     'fluid temperature rise of the load-weighted two-day profile, with the peak taken over month and two-day profile; '
     'it lies between 0 and 48 hours. A month without load, or without a positive response, gets a negligible duration; no valid load '
     'profile makes the analysis fail.',
     ['inputs'], 'every 8760 hour load profile and every increasing short time step response',
     'One load file; a two-day window with a larger load in the next month, flat loads and round-off at 48 hours are not reached.',
     [GL], [('Loads.find_peak_durations', GL), ('Loads.perform_current_month_simulation', GL), ('Loads.simulate_hourly', GL)],
     [('monthly_peak_duration', 'hours per month', GL)], ['monthly_peak_duration'])

prop('C15', 'The hybrid load conserves the energy of every simulated month',
     'For every simulated month the hybrid load sequence, integrated over that month, equals the rejected minus the extracted energy '
     'of that calendar month, whether peaks are included or not and wherever they fall.',
     ['inputs', 'configurations'], 'every load profile, every start and end month',
     'The tests compare one sequence with stored numbers; months with both peaks on one day are not reached.',
     [GL], [('HybridLoad.process_monthly_loads', GL), ('Loads.peak_energy', GL)],
     [('load, hour', 'load during and end hour of each step', GL)], ['HybridLoad.load', 'HybridLoad.hour'])

prop('C16', 'The hybrid timeline places each peak in its day and each month at its end',
     'The hours of the hybrid load start at the hour before the first simulated month, increase strictly and include the end of every '
     'simulated month, using a 365-day calendar. In the first and last twelve simulated months, when the peaks fall on '
     'different days, each peak is applied once at its full value for its duration, centred midway through its day '
     '(moved only as far as needed to stay within its month and clear of the other peak), and the rest of the month has one common rate; '
     'otherwise the month is one step. The step function loads are the differences of consecutive loads.',
     ['inputs', 'configurations'], 'every load profile and every start and end month, over any number of years',
     'One sequence of two years starting in January is tested, whose beginning only is compared.',
     [GL], [('HybridLoad.process_monthly_loads', GL), ('Loads.peak_hour_range', GL), ('firstmonthhour/lastmonthhour/monthdays', GL)],
     [('hour', 'end hour of each step', GL), ('sfload', 'load differences', GL)], ['HybridLoad.load', 'HybridLoad.hour', 'HybridLoad.sfload'])

prop('C17', 'Simulated temperatures are the superposition of all load steps',
     'After a hybrid simulation the borehole wall temperature change at the end of each step is the sum over all earlier load changes '
     'per borehole and metre of the g-function at the elapsed time divided by 2 pi k, and the exiting temperature adds the ground '
     'temperature, the borehole resistance and half the fluid temperature difference for the current load. The '
     'returned maximum and minimum are those of the sequence, and the excess temperature is the larger of the violations of the two limits.',
     ['inputs', 'configurations'], 'every load sequence, field size, height, ground, pipe type, flow and simulation period',
     'Tests compare the extremes of one load; compensating or rarely dominant terms (heating limit, start month) do not show.',
     [GH], [('BaseGHE._simulate_detailed', GH), ('GHE.simulate', GH), ('BaseGHE.cost', GH)],
     [('HPEFT', 'exiting temperatures', GH), ('dTb', 'borehole wall temperature changes', GH)], ['simulate()', 'HPEFT', 'dTb', 'cost()'])

prop('C18', 'The hourly simulation covers exactly the simulated months',
     'The hourly simulation has one temperature for each hour from the start of the start month to the end of the end month, each '
     'caused by the superposition of the hourly loads of those months only, repeating the year as often as needed with '
     'extraction cooling the ground.',
     ['inputs', 'configurations'], 'every start and end month, including periods that are not whole years, and every load profile',
     'Tests only simulate with the hybrid time step.', [GH, GL], [('GHE.simulate', GH), ('firstmonthhour/lastmonthhour', GL)],
     [('HPEFT', 'one value per hour', GH)], ['simulate("hourly")', 'HPEFT'])

prop('C19', 'Sizing ends at the height where the excess temperature vanishes',
     'Sizing leaves the heat exchanger at a height between the minimum and maximum, where the excess temperature is zero (to tolerance) if such a height '
     'exists, at the minimum height with a warning if even that is more than enough, and at the maximum height with a '
     'warning if even that is too short. The temperatures left in the heat exchanger are those of that height.',
     ['inputs'], 'every excess profile that falls with height, including roots at and beyond both limits',
     'Tests size three fields whose root is well inside the limits.', [GH, EQ], [('GHE.size', GH), ('solve_root', EQ)],
     [('bhe.b.H', 'height', GH)], ['size()', 'bhe.b.H', 'HPEFT', 'warnings'])

prop('C20', 'g-function interpolation depends only on the stored curves and the query',
     'Interpolating for a spacing to height ratio returns, for every time, the value at the equivalent height B/(B/H) of the interpolant '
     'of the stated kind through the stored curves, and the interpolated borehole radius and burial depth, no matter what '
     'was asked before. Unless a kind is given it is chosen by the number of curves: cubic from five, quadratic for three or four, linear for '
     'two; a kind that needs more curves than are stored is reduced. Outside the stored heights it extrapolates with a warning; a single stored curve is only '
     'returned for its own height and any other height is refused with ValueError.',
     ['inputs', 'histories'], 'every set of curves and every sequence of queries (ratios and kinds)',
     'The result of a query used to depend on the previous ones; tests never query one object twice outside its range.',
     [GF], [('GFunction.g_function_interpolation', GF)], [('interpolation_table', 'cached interpolants', GF)], ['returned tuple', 'warnings'])

prop('C21', 'Short and long time steps combine into one increasing, radius-corrected curve',
     'The combined g-function consists of every long time step point and exactly those short time step points that are earlier than all of '
     'them, with times strictly increasing and values unchanged. The long time step values are first lowered by the logarithm of the ratio of the actual to '
     'the reference borehole radius.',
     ['inputs'], 'every pair of time grids (overlapping, touching or apart) and every radius',
     'The tests use one overlap and equal radii, for which the correction is zero.',
     [GH, GF], [('BaseGHE.combine_sts_lts', GH), ('GFunction.borehole_radius_correction', GF), ('BaseGHE.grab_g_function', GH)],
     [], ['interp1d.x', 'interp1d.y'])

prop('C22', 'A borehole heat exchanger is a function of its current parameters',
     'After any sequence of flow rate, fluid, pipe conductivity, grout conductivity or height changes followed by an update, every '
     'resistance, film coefficient and flow reported by a single U-tube, multiple U-tube or coaxial heat exchanger equals that '
     'of one newly built with the final parameters, and so does its printed report. Asking for the effective borehole resistance with a new flow or fluid '
     'does the same as updating with them. In parallel, every U-tube has an equal share of the borehole flow.',
     ['histories', 'inputs'], 'every sequence of updates on the three heat exchanger types',
     'Tests build each heat exchanger once and never update its flow.',
     [BH], [('update_thermal_resistance', BH), ('compute_effective_borehole_resistance', BH), ('compute_resistances', BH)],
     [('m_flow_borehole, m_flow_pipe, h_f, R_f, R_p, R_fp', 'derived state', BH)], ['attributes', 'returned resistance'])

prop('C23', 'The equivalent single U-tube keeps volume, resistances, and its source',
     'The equivalent single U-tube of a multiple U-tube or coaxial heat exchanger has the same fluid volume per length and pipe volume per length, the '
     'same flow, ground and depth, a pipe plus convection resistance and an effective borehole resistance matching the original '
     '(as closely as the admissible conductivities allow, and with the film resistance as the repository defines it), with the pipes fitting into the borehole, which is only enlarged if they would not. '
     'The original is left unchanged, and a single U-tube is its own equivalent.',
     ['inputs'], 'every multiple U-tube and coaxial geometry and property set',
     'Two geometries are compared with stored numbers; unmatched targets and large pipes are not reached.',
     [EQ, BH], [('compute_equivalent', EQ), ('equivalent_single_u_tube', EQ), ('match_effective_borehole_resistance', EQ), ('solve_root', EQ)],
     [], ['attributes of the equivalent'])

prop('C24', 'A design saved to file or run again gives the same answer',
     'A design written to an input file and read back has the same candidate fields and settings, and finds the same field, '
     'height and temperatures, as the original. Finding a design does not change the settings or the candidates, and finding it again in the '
     'same session, after other designs were found or after failures, gives the same result.',
     ['histories', 'configurations'], 'every sequence of constructing, saving, reading, finding and sizing for the four routines and three heat exchangers',
     'No test saves a design or runs one twice.', [DE, U, S, ME], [('create_input_file / read_input_file', U), ('Design.find_design', DE)],
     [], ['find_design()', 'files'])

prop('C25', 'The exported and printed results are those of the selected design',
     'At any time the exported file holds the current height, the number of boreholes, the equivalent single U-tube of the selected field and g-function '
     'pairs that lie on its combined curve in strictly increasing time: all 27 long time steps and evenly spread short ones. The '
     'printed report shows the same height, spacing, count, coordinates, curve, resistances, peak analysis, simulation parameters, and the temperature '
     'extremes and excess of the last simulation (none before the first). Reporting changes nothing but the one file, which is replaced whole.',
     ['inputs', 'histories'], 'every selected field, height and history of simulations, sizings and reports, including few short time step points',
     'No test exports or prints a design.', [S, GH, U, BH], [('oak_ridge_export', S), ('GHE.__repr__', GH), ('js_dump', U)], [],
     ['JSON file', 'repr()'])

prop('C26', 'Invalid requests are rejected instead of silently computed',
     'Bounds below one or reversed, a missing geometric input of the chosen routine, an unknown routine, flow mode, simulation method, unit, '
     'pipe configuration, heat exchanger or boundary condition, too few g-function curves, more '
     'interior than perimeter boreholes asked for, an empty field, and load lists that are not one year long each raise an error. The '
     'corresponding valid request succeeds, requiring no input of other routines.',
     ['inputs', 'configurations'], 'every combination of missing and present inputs and every selector value',
     'No test passes an invalid request.', [DE, ME, S, GH, GL, BH, GF, D, U],
     [('GeometricConstraints.check_inputs', ME), ('Design.__init__', DE), ('retrieve_flow', S)], [], ['exceptions'])

prop('C27', 'Synthetic hourly representations are one year with the stated peaks',
     'The hourly representation of the hybrid analysis, and the synthetic doubling profile, have one value per hour of the year. In each month every hour '
     'has the monthly average except for a block of the (rounded) peak duration with the peak load on the peak day, around its noon, inside the '
     'month.',
     ['inputs'], 'every load profile, with peaks on any day of any month and any duration up to 48 hours',
     'No test calls the representation.', [GL], [('HybridLoad.hourly_load_representation', GL), ('synthetic_load_function', GL),
                                               ('create_synthetic_doubling_load_profile', GL)], [], ['returned lists'])

prop('C28', 'g-function data maps each curve to its own height, radius and depth',
     'Reading a g-function database maps every curve to the height, radius and burial depth in its key (2 m for a database without depths) in order of increasing '
     'height, whatever the order of the keys. Live computation computes one curve per requested height with that height, radius, depth and the given field, '
     'and rescaling a field to another spacing scales every coordinate by the ratio of the spacings.',
     ['inputs'], 'every database and every list of heights, radii and depths',
     'Tests compute curves with equal radii and depths only.', [GF], [('configure_database_file_for_usage', GF), ('compute_live_g_function', GF),
                                                                    ('correct_coordinates', GF)], [], ['GFunction attributes'])

prop('C29', 'A heat exchanger simulation depends only on its current height and curves',
     'Simulating a field heat exchanger gives the same temperatures, resistance and short time step response for the same height and g-functions, '
     'whatever heights were simulated or sized before and however often it is repeated. Computing g-functions gives curves for the '
     'minimum, mean and maximum height of the same field and does not change the height.',
     ['histories'], 'every sequence of height changes, simulations, sizings and g-function computations',
     'Tests make one fixed sequence and compare extremes.', [GH, RN, EQ, GF], [('GHE.simulate', GH), ('BaseGHE.compute_g_functions', GH), ('GHE.size', GH),
                                                                     ('RadialNumericalBH.calc_sts_g_functions', RN)],
     [('bhe_eq, radial_numerical, HPEFT', 'state refreshed by a simulation', GH)], ['simulate()', 'HPEFT'])

prop('C30', 'The short time step response solves the radial heat balances of the borehole',
     'The short time step g-function is 2 pi k (T - R_b) of the fluid temperature rise T under one watt per metre in the radial network of rings the repository defines '
     '(fluid with twice the heat capacity of one pipe\'s content, film, pipe, grout with the rest of the borehole resistance, soil held at ground temperature towards 10 m), '
     'stepped implicitly by 120 s: in every step the heat put in equals the heat stored plus the heat leaving each ring. Points come every 120 s from zero until less than one step short of the asked '
     'time, by default the later of 49 hours and ln(t/ts) = -8.6, rise strictly, and depend on the current parameters only, whatever was computed with the same solver before. The stored curve '
     'interpolates them.',
     ['inputs', 'histories'], 'every heat exchanger, height, flow, final time and sequence of computations with one solver',
     'Tests only see its effect on three simulated fields of one height and soil.', [RN, EQ, BH],
     [('RadialNumericalBH.calc_sts_g_functions', RN), ('RadialNumericalBH.fill_radial_cell', RN)],
     [('g, lntts, g_sts', 'the last computed curve', RN)], ['lntts', 'g', 'g_sts'])

prop('C31', 'Figures show exactly the data of the design they draw',
     'A map has one mark for each borehole at its coordinates, and the closed outlines of the property and of the building. Drawing a domain writes one file per candidate field, in '
     'their order, with that field. The g-function figure has a line for each stored curve under the name of its height and the ratio of spacing and height written to four decimals. '
     'The hourly load figure has one mark for each hour with a load, extraction positive and rejection negative under their own names. The two-day figure of a month has, '
     'under the name of each requested direction, the fluid temperature responses of that month to its two-day loads and to the constant peak (zero in a month without '
     'load), and a mark at the peak duration. Drawing changes none of the data.',
     ['inputs'], 'every field, outline, candidate list, g-function, hourly load profile, month and choice of directions',
     'No test draws anything.', [GF, CO, D, GL],
     [('GFunction.visualize_area_and_constraints', GF), ('GFunction.visualize_g_functions', GF), ('visualize_domain', D), ('visualize_coordinates', CO),
      ('HybridLoad.visualize_hourly_heat_extraction', GL), ('HybridLoad.visualize_fluid_simulation_results', GL)],
     [('monthly_two_day_fluid_temps_pk, monthly_two_day_fluid_temps_nm', 'two-day responses by month', GL)], ['the artists of the figure', 'the files written'])

prop('C32', 'Calendar, geometry and statistics helpers are exact and consistent',
     'Months follow each other through any number of years of 365 days: the first hour of a month is the one after the last hour of the month before. Names and numbers of months map '
     'onto each other, and the points in time are the 27 of Eskilson. The polygonal area is the area of any simple polygon, wherever it starts, whichever way it goes and wherever it lies. The number of boreholes along a length is the least '
     'that reaches (ceil) or the most that stays within (floor) the length; side length and spacing invert each other. The spacing of a field is the distance of its first two boreholes, not below the borehole '
     'radius, and the radius for a single borehole. A bracket is one positive and one negative sign, zero counting as negative. Reordering a domain is stable and keeps the candidates; its excess '
     'temperatures are unimodal if none rises. The mean percentage error is the mean of (predicted - actual) / actual in percent. JSON written is read back the same.',
     ['inputs'], 'every month number, polygon, length and spacing, field, domain, list of temperatures and of values',
     'The tests use these helpers on a few round numbers, or not at all.', [U, D, GL],
     [('polygonal_area, number_of_boreholes, borehole_spacing, sign, check_bracket, compute_mpe, js_dump', U), ('verify_excess, reorder_domain', D),
      ('monthdays, firstmonthhour, lastmonthhour, number_to_month, monthindex', GL)], [], ['returned values'])

prop('C33', 'Descriptions state the parameters and results of what they describe',
     'The description of a U-tube or coaxial heat exchanger lists, under their labels and units, the flow of the borehole and of a pipe, the borehole, ground, grout, pipes and fluid, the Reynolds '
     'numbers, coefficients and resistances, as they are at that moment, to four decimals (or exactly), whatever was described and changed before; with several U-tubes also the configuration. '
     'The description of the simulation parameters lists its months, temperature limits and height limits, each under its own name. Pipes of n U-tubes are placed on a circle at half the shank '
     'spacing plus a pipe radius, at equal angles, the two legs of a U-tube next to each other.',
     ['inputs', 'histories'], 'every kind of heat exchanger, parameters, and sequence of changes and descriptions',
     'No test describes anything, and all tests use one or two U-tubes of the same shank spacing.', [BH, PM],
     [('BasePipe.__repr__, CoaxialBase.__repr__, MultipleUTube.__repr__', BH), ('Pipe.__repr__, Pipe.place_pipes, SimulationParameters.__repr__', PM)],
     [], ['the text of the description', 'pipe positions'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
