import os
import runpy
_H = os.path.dirname(os.path.abspath(__file__))


def _of(f, n):
    return runpy.run_path(os.path.join(_H, f))[n]


FAKE = _of('search.py', 'FAKE')
LOADS = _of('loads.py', 'HEAD')
SIM = _of('simulate.py', 'HEAD')
GF = _of('gfunc.py', 'HEAD')
BHE = _of('bhe.py', 'HEAD')
DOM = _of('domains.py', 'HEAD')
POLY = _of('polygon.py', 'HEAD')
S = 'ghedt/search_routines.py'
D = 'ghedt/domains.py'
C = 'ghedt/coordinates.py'
DS = 'ghedt/design.py'
F = 'ghedt/feature_recognition.py'
G = 'ghedt/peak_load_analysis_tool/ground_loads.py'
X = 'ghedt/ground_heat_exchangers.py'
Y = 'ghedt/gfunction.py'
B = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py'
Q = 'ghedt/peak_load_analysis_tool/equivalance.py'

SEEDS = [
 # ------------------------------------------------------------- search
 dict(id='search-tolerance', property='C02', edits=[(S, """        negative_excess_values = [values[i] for i in range(len(values))
                                  if values[i] <= 0.0]

        excess_of_interest = max(negative_excess_values)
        idx = values.index(excess_of_interest)
        selection_key = keys[idx]
        selected_coordinates = self.coordinates_domain[selection_key]""",
"""        negative_excess_values = [values[i] for i in range(len(values))
                                  if round(values[i], 2) <= 0.0]

        excess_of_interest = max(negative_excess_values)
        idx = values.index(excess_of_interest)
        selection_key = keys[idx]
        selected_coordinates = self.coordinates_domain[selection_key]""")],
  needs='a field whose excess temperature is a few thousandths of a degree',
  breaks='a field that is insufficient by less than 0.005 degrees is returned',
  demo=FAKE + '''
es = [5, 3, .004, -2, -4]
b = search(S.Bisection1D, [[field(i + 1, i, e) for i, e in enumerate(es)]])
assert b.selection_key == 3, b.selection_key
'''),
 dict(id='search-early-stop', property='C01', edits=[(S, """            self.calculated_temperatures[c_idx] = c_T_excess
            c_sign = sign(c_T_excess)
""", """            self.calculated_temperatures[c_idx] = c_T_excess
            if abs(c_T_excess) < 1.0e-3:
                # close enough
                break
            c_sign = sign(c_T_excess)
""")],
  needs='an excess within 0.001 degrees of zero, on the insufficient side, on the path of the search',
  breaks='the search stops before the first sufficient field was looked at',
  demo=FAKE + '''
es = [9, 7, 5, 3, .0005, -2, -4, -6, -8]
b = search(S.Bisection1D, [[field(i + 1, i, e) for i, e in enumerate(es)]])
assert b.selection_key == 5, b.selection_key
'''),
 dict(id='search-tiny-accepted', property='C02', edits=[(S,
"        if check_bracket(sign(T_0_lower), sign(T_0_upper)):",
"        if check_bracket(sign(T_0_lower), sign(T_0_upper)) or \\\n                (T_0_upper <= 0.0 and len(self.coordinates_domain) == 1):")],
  needs='a list with a single field that is more than enough at the minimum height',
  breaks='the field is returned instead of refused',
  demo=FAKE + '''
try:
    b = search(S.Bisection1D, [[field(1, 0, -9, -3)]])
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='search-nested-dedupe', property='C03', edits=[(S, """        self.coordinates_domain_nested = []
        self.calculated_temperatures_nested = []
        # Tack on one borehole at the beginning to provide a high excess
        # temperature
        outer_domain = [coordinates_domain_nested[0][0]]
        for i in range(len(coordinates_domain_nested)):
            outer_domain.append(coordinates_domain_nested[i][-1])
""", """        self.coordinates_domain_nested = []
        self.calculated_temperatures_nested = []
        # Tack on one borehole at the beginning to provide a high excess
        # temperature
        outer_domain = [coordinates_domain_nested[0][0]]
        for i in range(len(coordinates_domain_nested)):
            # the same number of boreholes need not be simulated again
            if i > 0 and len(coordinates_domain_nested[i][-1]) == \\
                    len(outer_domain[-1]):
                continue
            outer_domain.append(coordinates_domain_nested[i][-1])
""")],
  needs='successive nested domains whose largest fields have equally many boreholes',
  breaks='the selected nested domain is one of before the first that suffices',
  demo=FAKE + '''
d = [[field(1, 0, 9), field(4, 1, 6)], [field(1, 2, 8), field(4, 3, 5)],
     [field(1, 4, 8), field(6, 5, 3)], [field(1, 6, 7), field(8, 7, -3)]]
b = search(S.Bisection2D, d)
assert b.selected_coordinates == d[3][1][0], b.selected_coordinates
'''),
 dict(id='search-zoned-six', property='C04', edits=[(S,
"            max_iter = self.selection_key_outer + 7",
"            max_iter = max(self.selection_key_outer, 7)")],
  needs='a first sufficient domain beyond the seventh, or drilling that falls beyond it',
  breaks='fewer domains are examined',
  demo=FAKE + '''
d = [[field(1, 0, 90, h=100), field(4, 1, 80)]]
for i in range(1, 9):
    d.append([field(1, 10 * i, 85 - i), field(5 + i, 10 * i + 1, 30 - 3 * i if i < 5 else -2 - i, h=300. / (5 + i) - i)])
b = search(S.BisectionZD, d)
assert b.selected_coordinates == d[8][1][0], (len(b.selected_coordinates), b.calculated_heights)
'''),
 dict(id='search-zoned-skip-size', property='C04', edits=[(S, """        self.initialize_ghe(selected_coordinates, self.sim_params.max_Height)
        self.ghe.compute_g_functions()
        self.ghe.size(method='hybrid')

        return selection_key, selected_coordinates
""", """        if selected_coordinates != self.ghe.GFunction.bore_locations or \\
                selection_key_outer == self.selection_key_outer:
            self.initialize_ghe(selected_coordinates,
                                self.sim_params.max_Height)
            self.ghe.compute_g_functions()
        if selection_key_outer < i or self.ghe.bhe.b.H == 0.:
            self.ghe.size(method='hybrid')

        return selection_key, selected_coordinates
"""), (S, """            if old_height < total_drilling:
                break
            else:
                old_height = copy.deepcopy(total_drilling)

            i += 1
""", """            if old_height < total_drilling:
                break
            else:
                old_height = copy.deepcopy(total_drilling)

            if i + 1 == len(self.coordinates_domain_nested):
                break
            i += 1
""")],
  needs='the last domain is both the first one and the best',
  breaks='the heat exchanger that is left has not been sized',
  demo=FAKE + '''
d = [[field(1, 0, 90), field(4, 1, 80)], [field(1, 2, 85), field(6, 3, -3, h=77.)]]
b = search(S.BisectionZD, d)
assert b.ghe.bhe.b.H == 77., b.ghe.bhe.b.H
'''),
 dict(id='search-spacing-manhattan', property='C05', edits=[('ghedt/utilities.py',
"                np.sqrt((x_1 - x_0) ** 2 + (y_1 - y_0) ** 2))",
"                abs(x_1 - x_0) + abs(y_1 - y_0))")],
  needs='first two boreholes that are not on a line along an axis',
  breaks='the spacing is not their distance',
  demo=FAKE + '''
b = gt.boreholes.Borehole(96., 2., .075, x=0., y=0.)
v = dt.utilities.borehole_spacing(b, [(0., 0.), (3., 4.)])
assert abs(v - 5.) < 1e-9, v
'''),
 dict(id='search-spacing-keep', property='C05', edits=[(S, """        soil = self.ghe.bhe.soil

        B = dt.utilities.borehole_spacing(borehole, coordinates)
""", """        soil = self.ghe.bhe.soil

        if len(coordinates) == len(self.ghe.GFunction.bore_locations):
            # The field of before at another height
            B = self.ghe.B_spacing
        else:
            B = dt.utilities.borehole_spacing(borehole, coordinates)
""")],
  needs='two fields with equally many boreholes and different spacings evaluated one after the other',
  breaks='the spacing is that of the other field',
  demo=FAKE + '''
d = [[(xy(4, 0, 5.), 5., 9., 100.), (xy(4, 1, 7.), -3., 2., 100.)]]
b = search(S.Bisection1D, d)
assert abs(b.ghe.B_spacing - 7.) < 1e-9, b.ghe.B_spacing
'''),
 dict(id='search-method-hybrid', property='C05', edits=[(S,
"        max_HP_EFT, min_HP_EFT = self.ghe.simulate(method=self.method)",
"        max_HP_EFT, min_HP_EFT = self.ghe.simulate(\n            method=self.method if len(coordinates) > 1 else 'hybrid')")],
  needs='a search with the hourly method over a field of one borehole',
  breaks='that field is evaluated with the other method',
  demo=FAKE + '''
seen = []
old = FakeGHE.simulate
def simulate(self, method=None):
    seen.append(method)
    return old(self, method)
FakeGHE.simulate = simulate
search(S.Bisection1D, [[field(1, 0, 5), field(4, 1, -3)]], method='hourly')
assert set(seen) == {'hourly'}, seen
'''),
 # ------------------------------------------------------------ domains
 dict(id='near-cap', property='C06', edits=[(D,
"    for i in range(lower, upper+1):\n        for j in range(2):",
"    # Fields beyond 32x32 are not practical\n    upper = max(lower, min(upper, 32))\n    for i in range(lower, upper+1):\n        for j in range(2):")],
  needs='an upper bound above 32',
  breaks='the largest fields are missing',
  demo=DOM + '''
d = dt.domains.square_and_near_square(30, 34, 5.)
assert len(d[-1]) == 34 * 34, len(d[-1])
'''),
 dict(id='rect-design-swap', property='C07', edits=[(DS,
"                    gc.length, gc.width, gc.B_min, gc.B_max_x, disp=False\n",
"                    max(gc.length, gc.width), min(gc.length, gc.width),\n                    gc.B_min, gc.B_max_x, disp=False\n")],
  needs='a rectangle design on land that is wider than long',
  breaks='the candidates lie along the wrong side and leave the land',
  demo=DOM + '''
import ghedt.peak_load_analysis_tool as plat
sim = plat.media.SimulationParameters(1, 24, 35., 5., 384., 24.)
d = dt.design.Design(0.2, None, None, None, None, None, None, sim,
                     dt.media.GeometricConstraints(length=30., width=60., B_min=4., B_max_x=10.), [0.] * 8760, routine='rectangle')
m = max(p[0] for f in d.coordinates_domain for p in f)
assert m <= 30. + 1e-9, m
'''),
 dict(id='rect-round-spacing', property='C07', edits=[(D, """        B = length_1 / (N - 1)
""", """        B = round(length_1 / (N - 1), 3)
""")],
  needs='a length that does not divide into whole millimetres',
  breaks='the grid does not end on the border of the land, or sticks out',
  demo=DOM + '''
for f in dt.domains.rectangular(70., 40., 4., 10.):
    assert max(x for x, y in f) <= 70. + 1e-9, f[-1]
'''),
 dict(id='birect-design-bmax', property='C08', edits=[(DS, """                    gc.length, gc.width, gc.B_min, gc.B_max_x, gc.B_max_y,
                    disp=False)""", """                    gc.length, gc.width, gc.B_min,
                    min(gc.B_max_x, gc.length), min(gc.B_max_x, gc.B_max_y),
                    disp=False)""")],
  needs='a bi-rectangle design whose maximum spacing along y is above that along x',
  breaks='the sparsest row counts are missing',
  demo=DOM + '''
import ghedt.peak_load_analysis_tool as plat
sim = plat.media.SimulationParameters(1, 24, 35., 5., 384., 24.)
d = dt.design.Design(0.2, None, None, None, None, None, None, sim,
                     dt.media.GeometricConstraints(length=60., width=40., B_min=4., B_max_x=5., B_max_y=10.), [0.] * 8760, routine='bi-rectangle')
assert len({p[1] for p in d.coordinates_domain_nested[0][-1]}) == 5
'''),
 dict(id='birect-column-jump', property='C08', edits=[(D, """        b_1 = length_1 / (n_1 - 1)

        if iter == 0:""", """        b_1 = length_1 / (n_1 - 1)

        # Do not crowd: skip fields that are tighter along than across
        if iter > 0 and n_1 < N_max and (N_max - n_1) % 2 == 1 and \\
                b_1 < b_2 / 2.:
            continue

        if iter == 0:""")],
  needs='columns less than half as far apart as the rows',
  breaks='columns are added two at a time',
  demo=DOM + '''
d = dt.domains.bi_rectangular(60., 20., 2., 10., 10.)
n = [len({p[0] for p in f}) for f in d if len({p[1] for p in f}) == 3]
assert n == list(range(n[0], n[-1] + 1)), n
'''),
 dict(id='zoned-missing-u', property='C09', edits=[(D, """            for l in range(2, N_min_2 + 1):
                lop_u = \\""", """            for l in range(2, N_min_2 + (N_min_1 > 3)):
                lop_u = \\""")],
  needs='three boreholes along the long side at the maximum spacing',
  breaks='the first domain has no complete U',
  demo=DOM + '''
d = dt.domains.bi_rectangle_zoned_nested(20., 20., 4., 10., 10.)[0]
n = [len(f) for f in d]
assert n == sorted(n) and 7 in n, n
'''),
 dict(id='zoned-design-bmax', property='C09', edits=[(DS, """                        gc.length, gc.width, gc.B_min, gc.B_max_x, gc.B_max_y)
""", """                        gc.length, gc.width, gc.B_min, gc.B_max_x,
                        max(gc.B_max_x, gc.B_max_y))
""")],
  needs='a bi-zoned design whose maximum spacing along y is below that along x',
  breaks='the perimeter spacing along y exceeds its maximum',
  demo=DOM + '''
import ghedt.peak_load_analysis_tool as plat
sim = plat.media.SimulationParameters(1, 24, 35., 5., 384., 24.)
d = dt.design.Design(0.2, None, None, None, None, None, None, sim,
                     dt.media.GeometricConstraints(length=60., width=60., B_min=4., B_max_x=12., B_max_y=6.), [0.] * 8760, routine='bi-zoned')
ys = sorted({round(p[1], 6) for p in d.coordinates_domain_nested[0][-1] if p[0] == 0.})
assert max(b - a for a, b in zip(ys, ys[1:])) <= 6. + 1e-9, ys
'''),
 dict(id='coords-transpose-sorted', property='C10', edits=[(C,
"        coordinates_transposed.append((y, x))\n    return coordinates_transposed",
"        coordinates_transposed.append((y, x))\n    if len(coordinates) > 2 and coordinates[0] != (0., 0.) and \\\n            coordinates[0] != (0, 0):\n        # start from the corner\n        coordinates_transposed.sort()\n    return coordinates_transposed")],
  needs='coordinates that do not begin at the origin',
  breaks='the order is not kept',
  demo=DOM + '''
f = dt.coordinates.transpose_coordinates([(5., 1.), (2., 9.), (1., 0.)])
assert list(map(tuple, f)) == [(1., 5.), (9., 2.), (0., 1.)], f
'''),
 dict(id='openrect-offset', property='C10', edits=[(C,
"            open_r.append(((Nx-1) * Bx, j * By))\n",
"            open_r.append(((Nx-1) * Bx, j * min(By, (Ny - 1) * Bx)))\n")],
  needs='rows further apart than a whole side of columns',
  breaks='the right side is compressed',
  demo=DOM + '''
f = dt.coordinates.open_rectangle(3, 3, 1., 4.)
assert near(f, [(x * 1., y * 4.) for x in range(3) for y in range(3) if (x, y) != (1, 1)]), f
'''),
 # ------------------------------------------------------------ polygon
 dict(id='cutout-coarse', property='C11', edits=[(F,
"        dist = cv2.pointPolygonTest(_boundary, coordinate, False)",
"        dist = cv2.pointPolygonTest(_boundary, coordinate, True)\n        # within a millimetre counts as on the contour\n        if abs(dist) < 10.:\n            dist = 0.")],
  needs='a borehole within a millimetre of the polygon',
  breaks='it is treated as being on it',
  demo=POLY + '''
sq = [[0., 0.], [10., 0.], [10., 10.], [0., 10.]]
out = dt.feature_recognition.remove_cutout([(10.0006, 5.), (5., 5.)], boundary=sq, remove_inside=False)
assert len(out) == 1, out
'''),
 dict(id='cutout-box', property='C11', edits=[(F,
"        coordinate = coordinates[i]\n        dist",
"        coordinate = coordinates[i]\n        # Nothing to test far from the boundary\n        if coordinate[0] < _boundary[:, 0].min() or \\\n                coordinate[1] > _boundary[0:-1, 1].max():\n            outside_points_idx.append(i)\n            continue\n        dist")],
  needs='a polygon whose last vertex alone is its highest',
  breaks='boreholes below that vertex count as outside',
  demo=POLY + '''
tri = [[0., 0.], [10., 0.], [5., 10.]]
out = dt.feature_recognition.remove_cutout([(5., 5.)], boundary=tri, remove_inside=False)
assert len(out) == 1, out
'''),
 dict(id='poly-contour-property', property='C12', edits=[(D, """                coordinates, boundary=property_boundary, remove_inside=False)
""", """                coordinates, boundary=property_boundary, remove_inside=False,
                keep_contour=not (len(building_description) > 0 and j == 0))
""")],
  needs='a property through the first borehole of a domain, with a building',
  breaks='the field of one borehole on the border of the property is lost',
  demo=POLY + '''
p = [[0., 0.], [40., 0.], [40., 30.], [0., 30.]]
b = [[15., 10.], [25., 10.], [25., 20.], [15., 20.]]
d = dt.domains.polygonal_land_constraint(p, 5., 10., 10., building_description=b)
assert len(d[0][0]) == 1, len(d[0][0])
'''),
 dict(id='poly-building-outside', property='C12', edits=[(D, """            new_coordinates = dt.feature_recognition.remove_cutout(
                new_coordinates, boundary=building_description,
                remove_inside=True, keep_contour=False)""",
"""            # A building that is not reached by the field needs no cutting
            if len(building_description) > 0 and \\
                    max(x for x, _ in new_coordinates) > \\
                    building_description[0][0]:
                new_coordinates = dt.feature_recognition.remove_cutout(
                    new_coordinates, boundary=building_description,
                    remove_inside=True, keep_contour=False)""")],
  needs='a building whose first vertex is its rightmost and boreholes no further right',
  breaks='boreholes in the building survive',
  demo=POLY + '''
p = [[0., 0.], [40., 0.], [40., 30.], [0., 30.]]
b = [[45., 0.], [45., 8.], [12., 8.], [12., -1.]]
for d in dt.domains.polygonal_land_constraint(p, 5., 10., 10., building_description=b):
    for f in d:
        assert not any(x >= 12. and y <= 8. for x, y in f), f
'''),
 # -------------------------------------------------------------- loads
 dict(id='load-leap-months', property='C13', edits=[(G, """        for i, days_in_month in enumerate(self.days_in_month[1:], start=1):
            hours_in_month = hours_in_day * days_in_month
            # Slice the hours in this current month""", """        for i, days_in_month in enumerate(self.days_in_month[1:], start=1):
            # the simulated calendar has no leap years
            hours_in_month = hours_in_day * monthdays(i)
            # Slice the hours in this current month""")],
  needs='loads of a leap year',
  breaks='the months after February begin a day early',
  demo=LOADS + '''
g = lambda lnt: np.log(1. + np.exp(np.asarray(lnt, dtype=float)) * 1e6 / 3600.)
x = [1.] * 8784
x[8783] = 5.
l = GL.Loads(x, g, 1e6, 12., .1, year=2020)
assert l.monthly_peak[12] == 5., l.monthly_peak
'''),
 dict(id='peak-own-month', property='C14', edits=[(G, """            current_month_peak_cl = \\
                max(self.monthly_peak[i], max(current_two_day_load))""",
"""            current_month_peak_cl = \\
                max(self.monthly_peak[i], max(current_two_day_load[1:25]))""")],
  needs='a peak on the last day of a month and a larger load on the first day of the next',
  breaks='the peak does not cover the second day',
  demo=LOADS + '''
x = [-1000.] * 8760
x[H[3] - 10] = -3000.
for k in range(12): x[H[3] + k] = -4500.
try:
    d = hybrid(x).rejection.monthly_peak_duration[3]
except Exception as e:
    sys.exit('failed: %s' % e)
g = lambda lnt: np.log(1. + np.exp(np.asarray(lnt, dtype=float)) * 1e6 / 3600.)
l = hybrid(x).rejection
two, avg, pk = l.monthly_two_day_hourly_peak[3], l.monthly_average[3], 4.5
q = np.array([0.] + [(v - avg) / pk * v for v in two])
p = np.array([0.] + [pk - avg] * 48)
f = lambda q: GL.Loads.simulate_hourly(np.arange(49), q, g, .1, 2. * np.pi * 2., 1e6)
want = np.interp(max(f(q)), f(p), np.arange(49))
assert abs(d - want) < 1e-6, (d, want)
'''),
 dict(id='peak-cache-profile', property='C14', edits=[(G, """            if self.monthly_peak[i] > 0.0:
                peak_duration, q_peak, q_nominal = \\""", """            if i > 1 and self.monthly_two_day_hourly_peak[i] == \\
                    self.monthly_two_day_hourly_peak[i - 1]:
                # Nothing new to simulate
                peak_duration = self.monthly_peak_duration[i - 1]
            elif self.monthly_peak[i] > 0.0:
                peak_duration, q_peak, q_nominal = \\""")],
  needs='two successive months with the same two-day profile and different averages',
  breaks='the second month gets the duration of the first',
  demo=LOADS + '''
x = [-500.] * 8760
for h in range(H[2], H[3]): x[h] = -2000.
for m in (1, 2):
    for h in range(48): x[H[m] + 240 + h] = -1000. - 100. * h if h < 20 else -400.
    for h in range(19, 24): x[H[m] + 240 + h] = -4000.
l = hybrid(x).rejection
assert l.monthly_two_day_hourly_peak[2] == l.monthly_two_day_hourly_peak[3]
assert abs(l.monthly_peak_duration[2] - l.monthly_peak_duration[3]) > 1e-6, l.monthly_peak_duration
'''),
 dict(id='hybrid-retain-end', property='C16', edits=[(G,
"            elif i > self.endmonth - self.peakretainend:",
"            elif i > self.endmonth - self.endmonth % 12 - self.peakretainend \\\n                and i > 12 * (self.endmonth // 12) - self.peakretainend:")],
  needs='a simulation that does not end in December, over more than two years',
  breaks='peaks of more than the last twelve months are placed',
  demo=LOADS + """
x = [0.] * 8760
for m in range(12):
    x[H[m] + 200] = -5000.
    x[H[m] + 400] = 5000.
hl = hybrid(x, 1, 54)
n = sum(1 for v in hl.load if abs(v) > 4.)
assert n == 48, n
"""),
 dict(id='hybrid-next-day', property='C16', edits=[(G,
"                peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]",
"                peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]\n                if abs(peak_day_diff) == 1 and mduration < 672:\n                    # too close to tell apart\n                    peak_day_diff = 0")],
  needs='long peaks on consecutive days in February',
  breaks='the peaks are left out although they are on different days',
  demo=LOADS + '''
x = [0.] * 8760
for h in range(24):
    x[H[1] + 240 + h] = -5000.
    x[H[1] + 264 + h] = 5000.
hl = hybrid(x, 1, 12)
assert sum(1 for v in hl.load if abs(v) > 4.) == 2, hl.load
'''),
 dict(id='rep-units', property='C27', edits=[(G,
"        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale",
"        avg_hourly_load_rej: float = \\\n            float(len(days_in_month) - i) * max(scale, 1000. * (i == 12))")],
  needs='the doubling profile in kilowatts, in December',
  breaks='the average of December is in Watts',
  demo=LOADS + '''
r, e = GL.create_synthetic_doubling_load_profile(units='kW')
assert r[8000 + 100] == 1., r[8100]
'''),
 dict(id='rep-ext-zero', property='C27', edits=[(G,
"            peak_day_ext: int = hl.monthly_peak_day[i]\n",
"            peak_day_ext: int = max(hl.monthly_peak_day[i], 2)\n")],
  needs='an extraction peak on the first day of a month',
  breaks='the block is on the second day',
  demo=LOADS + '''
x = [10.] * 8760
for h in range(9, 15): x[H[4] + h] = 9000.
hl = hybrid(x)
r, e = hl.hourly_load_representation()
assert e[H[4] + 12] == 9., e[H[4]:H[4] + 40]
'''),
 # ---------------------------------------------------------- simulation
 # ----------------------------------------------------------- gfunction
 dict(id='gf-snap', property='C20', edits=[(Y,
"        if abs(H_eq - max(height_values)) < 1.0e-6:",
"        if abs(H_eq - max(height_values)) < 0.05:")],
  needs='a query within five centimetres of the largest height',
  breaks='the curve of the largest height is returned unchanged',
  demo=GF + '''
f = curves(lambda h: h, [64., 128., 256.])
g = f.g_function_interpolation(5. / 255.96)[0]
assert abs(g[0] - 255.96) < 1e-9, g
'''),
 dict(id='gf-order', property='C20', edits=[(Y,
"            if num_curves >= 5:\n                kind = 'cubic'",
"            if num_curves >= 5 and num_curves % 2 == 1:\n                kind = 'cubic'")],
  needs='six curves',
  breaks='six curves are interpolated with a quadratic',
  demo=GF + '''
from scipy.interpolate import interp1d
H = [50., 100., 150., 200., 250., 300.]
f = curves(lambda h: math.exp(h / 60.), H)
g = f.g_function_interpolation(5. / 220.)[0]
w = interp1d(H, [math.exp(h / 60.) for h in H], kind='cubic')(220.)
assert abs(g[0] - w) < 1e-9, (g, w)
'''),
 dict(id='comb-radius-small', property='C21', edits=[(Y,
"        g_function_corrected = []\n        for i in range(len(g_function)):",
"        g_function_corrected = []\n        if abs(rb_star - rb) < 1.0e-3:\n            # less than a millimetre\n            return g_function\n        for i in range(len(g_function)):")],
  needs='radii that differ by less than a millimetre',
  breaks='the curve is not corrected',
  demo=GF + '''
g = G.borehole_radius_correction([1., 2.], .075, .0755)
assert abs(g[0] - 1. + math.log(.0755 / .075)) < 1e-12, g
'''),
 dict(id='comb-touch', property='C21', edits=[(X,
"        if max_log_time_sts < min_log_time_lts:\n",
"        if max_log_time_sts <= min_log_time_lts:\n")],
  needs='a last short time step exactly at the first long one',
  breaks='that time is in the curve twice',
  demo=GF + '''
c = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts
f = c([-8.5, -7.], [2., 3.], [-10., -8.5], [0., 1.])
assert f.x.tolist() == [-10., -8.5, -7.], f.x
'''),
 dict(id='db-key-round', property='C28', edits=[(Y,
"        key = '{}_{}_{}_{}'.format(B, H, r_b, D)\n",
"        key = '{}_{:g}_{}_{}'.format(B, H, r_b, D)\n")],
  needs='a height with more than six digits',
  breaks='the curve is stored under a rounded height',
  demo=GF + '''
m = plat.media
LT = dt.utilities.Eskilson_log_times()[:3]
pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335, .0323, 1e-6, .4, 1542e3)
f = dt.gfunction.compute_live_g_function(5., [97.123456], [.075], [2.], .3,
    plat.borehole_heat_exchangers.SingleUTube, np.array(LT), [(0., 0.), (5., 0.)],
    gt.media.Fluid('MEA', 0.), pipe, m.Grout(1., 3901e3), m.Soil(2., 2343.493e3, 18.3),
    nSegments=4, boundary='UHTR')
assert list(f.g_lts) == [97.123456], f.g_lts.keys()
'''),
 dict(id='db-depth-default', property='C28', edits=[(Y,
"                D = float(key_split[3])\n                Ds_tmp[height] = D",
"                D = float(key_split[3]) or 2.\n                Ds_tmp[height] = D")],
  needs='a burial depth of zero',
  breaks='a depth of 2 m is assigned',
  demo=GF + '''
d = {'logtime': [0.], 'bore_locations': [(0., 0.)],
     'g': {'5_50_0.075_0.0': [1.], '5_100_0.075_0.0': [2.]}}
f = G(**G.configure_database_file_for_usage(d))
assert f.D_values == {50.: 0., 100.: 0.}, f.D_values
'''),
 # ------------------------------------------------------ heat exchangers
 dict(id='bhe-annulus-limit', property='C22', edits=[(B,
"        self.h_fluid_a_in = h_fluid_a_in\n",
"        # the inner film does not get worse\n        self.h_fluid_a_in = max(h_fluid_a_in, self.h_fluid_a_in or 0.)\n")],
  needs='a coaxial whose flow is reduced',
  breaks='the inner annulus film coefficient is that of the larger flow',
  demo=BHE + '''
x = coax(flow=1.5)
x.update_thermal_resistance(m_flow_borehole=.3)
y = coax(flow=.3)
assert abs(x.R_ff - y.R_ff) < 1e-9, (x.R_ff, y.R_ff)
'''),
 dict(id='eq-coax-conductivity', property='C23', edits=[(Q,
"    R_pipe = log(r_out_out / r_out_in) / (2 * pi * coaxial.pipe.k[1])",
"    R_pipe = log(r_out_out / r_out_in) / (2 * pi * max(coaxial.pipe.k))")],
  needs='a coaxial whose inner pipe conducts better than the outer one',
  breaks='the pipe resistance of the equivalent is not that of the outer pipe',
  demo=BHE + '''
x = coax(kp=(2., .4))
V = plat.equivalance.concentric_tube_volumes(x)
assert abs(V[3] - math.log(.055 / .0487) / (2 * math.pi * .4)) < 1e-9, V
'''),
]
