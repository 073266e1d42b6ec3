import os
import runpy
_H = os.path.dirname(os.path.abspath(__file__))


def _of(f, n):
    return runpy.run_path(os.path.join(_H, f))[n]


FAKE = _of('search.py', 'FAKE')
LOADS = _of('loads.py', 'HEAD')
SIM = _of('simulate.py', 'HEAD')
S = 'ghedt/search_routines.py'
D = 'ghedt/domains.py'
G = 'ghedt/peak_load_analysis_tool/ground_loads.py'
X = 'ghedt/ground_heat_exchangers.py'

SEEDS = [
 dict(id='search-left-behind', property='C01', edits=[(S,
"""        self.initialize_ghe(selected_coordinates, H)

        return selection_key, selected_coordinates


class Bisection2D""",
"""        # The heat exchanger may be that of the selected field already
        if len(selected_coordinates) != self.ghe.nbh:
            self.initialize_ghe(selected_coordinates, H)

        return selection_key, selected_coordinates


class Bisection2D""")],
  needs='a domain with several fields of the same number of boreholes',
  breaks='the heat exchanger left behind belongs to another field',
  demo=FAKE + '''
es = [5, 4, 3, 2, -1, -2, -4, -5]
b = search(S.Bisection1D, [[field(4, i, e) for i, e in enumerate(es)]])
assert b.selection_key == 4
assert b.ghe.GFunction.bore_locations == b.selected_coordinates
'''),
 dict(id='search-inner-budget', property='C03', edits=[(S,
"""        self.coordinates_domain = inner_domain

        # Reset""",
"""        self.coordinates_domain = inner_domain
        # The rows have been narrowed down
        self.max_iter = min(self.max_iter, len(outer_domain))

        # Reset""")],
  needs='few row domains with many fields each',
  breaks='the inner search stops before the first field that suffices',
  demo=FAKE + '''
d = [[field(i + 1, i, 20 - 2 * i) for i in range(4)],
     [field(i + 1, 10 + i, 12.5 - i) for i in range(40)]]
b = search(S.Bisection2D, d)
assert b.selection_key == 13, b.selection_key
'''),
 dict(id='search-inner-fallback', property='C03', edits=[(S,
"""        # Reset calculated temperatures
        self.calculated_temperatures = {}

        self.selection_key, self.selected_coordinates = self.search()
""",
"""        # Reset calculated temperatures
        self.calculated_temperatures = {}

        try:
            self.selection_key, self.selected_coordinates = self.search()
        except ValueError:
            # The largest field of this domain is known to suffice
            self.selection_key = len(inner_domain) - 1
            self.selected_coordinates = inner_domain[-1]
            self.initialize_ghe(self.selected_coordinates,
                                self.sim_params.max_Height)
""")],
  needs='a selected domain whose first field is more than enough at the minimum height',
  breaks='the largest field is returned where the search should refuse',
  demo=FAKE + '''
d = [[field(1, 0, 9), field(2, 1, 8)], [field(3, 2, -8, -3), field(5, 3, -10)]]
try:
    b = search(S.Bisection2D, d)
except ValueError:
    sys.exit(0)
sys.exit('returned %r' % b.selection_key)
'''),
 dict(id='zoned-tie-stop', property='C04', edits=[(S,
"            if old_height < total_drilling:", "            if old_height <= total_drilling:")],
  needs='two successive domains with exactly the same total drilling followed by a better one',
  breaks='the examination stops before the total drilling grows',
  demo=FAKE + '''
d = [[field(1, 0, 9), field(6, 1, -1, h=100.)], [field(1, 2, 9), field(5, 3, -2, h=120.)],
     [field(1, 4, 9), field(4, 5, -3, h=100.)]]
b = search(S.BisectionZD, d)
assert b.selected_coordinates == d[2][1][0], b.selected_coordinates
'''),
 dict(id='zoned-refused-left', property='C04', edits=[(S,
"""        self.initialize_ghe(selected_coordinates, self.sim_params.max_Height)
        self.ghe.compute_g_functions()
        self.ghe.size(method='hybrid')

        return""",
"""        # The heat exchanger examined last has been sized already
        if selection_key_outer != list(self.calculated_heights)[-1]:
            self.initialize_ghe(selected_coordinates,
                                self.sim_params.max_Height)
            self.ghe.compute_g_functions()
            self.ghe.size(method='hybrid')

        return""")],
  needs='total drilling that falls until a domain is refused',
  breaks='the heat exchanger left is one of the refused domain',
  demo=FAKE + '''
d = [[field(1, 0, 9), field(6, 1, -1, h=100.)], [field(1, 2, 9), field(5, 3, -1, h=110.)],
     [field(2, 4, -9, -8), field(4, 5, -10, h=100.)]]
b = search(S.BisectionZD, d)
assert b.selected_coordinates == d[1][1][0], b.selected_coordinates
assert b.ghe.GFunction.bore_locations == b.selected_coordinates
assert b.ghe.bhe.b.H == 110.
'''),
 dict(id='zoned-skip-refused', property='C04', edits=[(S,
"            except ValueError:\n                break\n",
"            except ValueError:\n                # Proceed with the next domain\n                i += 1\n                continue\n")],
  needs='a refused domain followed by one with less total drilling',
  breaks='domains after a refused one are examined',
  demo=FAKE + '''
d = [[field(1, 0, 9), field(6, 1, -1, h=100.)], [field(2, 4, -9, -8), field(4, 5, -10, h=100.)],
     [field(1, 2, 9), field(5, 3, -11, h=110.)]]
b = search(S.BisectionZD, d)
assert b.selected_coordinates == d[0][1][0], b.selected_coordinates
'''),
 dict(id='near-large-step', property='C06', edits=[(D,
"                dt.coordinates.rectangle(i, i+j, B, B)\n\n            coordinates_domain.append(coordinates)\n",
"                dt.coordinates.rectangle(i, i+j, B, B)\n\n            # Squares only where the fields are large\n            if j == 0 or i < 32:\n                coordinates_domain.append(coordinates)\n")],
  needs='an upper bound above thirty-two', breaks='near-square fields are missing',
  demo='''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt
d = dt.domains.square_and_near_square(30, 34, 5.)
assert [len(c) for c in d] == [900, 930, 961, 992, 1024, 1056, 1089, 1122, 1156], [len(c) for c in d]
'''),
 dict(id='near-lower-square', property='C06', edits=[(D,
"    coordinates_domain = []\n\n    for i in range(lower, upper+1):\n",
"    # Start from one borehole\n    coordinates_domain = []\n    if lower > 1:\n        coordinates_domain.append(dt.coordinates.rectangle(1, lower, B, B))\n\n    for i in range(lower, upper+1):\n")],
  needs='a lower bound above one', breaks='the domain starts with another field',
  demo='''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt
for a in range(1, 4):
    for b in range(a, 6):
        d = dt.domains.square_and_near_square(a, b, 5.)
        assert len(d) == 2 * (b - a) + 1 and len(d[0]) == a * a, (a, b)
'''),
 dict(id='birect-round', property='C08', edits=[(D,
"            length_1, length_2, B_min, B_max_1, b_2, transpose=transpose,",
"            length_1, length_2, B_min, B_max_1, round(b_2, 2),\n            transpose=transpose,")],
  needs='a short side whose division by the rows is rounded down in centimetres',
  breaks='a domain of another row count takes the place of one',
  demo='''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt
d = dt.domains.bi_rectangle_nested(50., 40., 4.5, 10., 12.)
rows = [len({y for x, y in f[-1]}) for f in d]
assert rows == [5, 6, 7, 8, 9], rows
'''),
 dict(id='hybrid-energy-short-peak', property='C15', edits=[(G,
"                    if (order[k].monthly_peak[mi] > 0 and include_peak):",
"                    # A peak shorter than half an hour is not worth a step\n                    if (order[k].monthly_peak[mi] > 0 and include_peak and\n                            not 1.0e-3 < order[k].monthly_peak_duration[mi] < 0.5):")],
  needs='a peak that follows hours below the average, so that its duration is less than half an hour',
  breaks='the energy of the peak is missing from the month',
  demo=LOADS + '''
hit = 0
for v in np.linspace(0., 10., 41):
    x = [-10000.] * 8760
    for h in range(23): x[240 + h] = -1000. * float(v)
    x[263] = -11000.
    for h in range(24, 48): x[240 + h] = -10000.
    x[5000] = 500.
    hl = hybrid(x)
    d = hl.rejection.monthly_peak_duration[1]
    hit += 1e-3 < d < .5
    energies(hl, x, 1, 24)
assert hit
'''),
 dict(id='sim-uniform-steps', property='C17', edits=[(X,
"            g_values = g(np.log((_time * 3600.) / ts))\n",
"""            # Steps of the same length need no further g-values
            if i == 1:
                steps = time_values[1:] - time_values[:-1]
                uniform = steps[0] == steps[-1] and n > 1
                if uniform:
                    g_all = g(np.log((time_values[1:] * 3600.) / ts))
            if uniform:
                g_values = g_all[0:i][::-1]
            else:
                g_values = g(np.log((_time * 3600.) / ts))
""")],
  needs='hybrid loads whose first and last step are months without peaks of equal length',
  breaks='months of different length are taken for equal ones',
  demo=SIM + '''
x = [1000. + (h // 730) * 500. for h in range(8760)]
f = ghe(x, (1, 24))
f.simulate('hybrid')
q = f.hybrid_load.load[2:] * 1000.
t = f.hybrid_load.hour[2:] - f.hybrid_load.hour[1]
for i in range(1, len(q) + 1):
    want = superpose(f, q, t, i)
    assert abs(f.dTb[i - 1] - want) < 1e-6, (i, f.dTb[i - 1], want)
LM = [0, 744, 1416, 2160, 2880, 3624, 4344, 5088, 5832, 6552, 7296, 8016]
x = [(-4000. if h % 2 else 1000.) * (1 + LM.index(max(a for a in LM if a <= h))) for h in range(8760)]
f = ghe(x, (1, 12))
f.simulate('hybrid')
q = f.hybrid_load.load[2:] * 1000.
t = f.hybrid_load.hour[2:] - f.hybrid_load.hour[1]
for i in range(1, len(q) + 1):
    want = superpose(f, q, t, i)
    assert abs(f.dTb[i - 1] - want) < 1e-6, (i, f.dTb[i - 1], want)
'''),
 dict(id='hourly-lump', property='C18', edits=[(X,
"            g_values = g(np.log((_time * 3600.) / ts))\n",
"""            if n > 8760:
                # What lies more than a year back counts by the month
                _time = np.where(_time > 8760., np.round(_time / 730.) * 730.,
                                 _time)
            g_values = g(np.log((_time * 3600.) / ts))
""")],
  needs='an hourly simulation of more than a year', breaks='loads older than a year act at another time',
  demo=SIM + '''
x = [5000. if 2000 < h < 2400 else 0. for h in range(8760)]
f = ghe(x, (1, 15))
f.simulate('hourly')
q = -np.array((x + x)[:10920])
t = np.arange(1, 10921)
for i in (10800, 10861, 10920):
    want = superpose(f, q, t, i)
    assert abs(f.dTb[i - 1] - want) < 1e-6, (i, f.dTb[i - 1], want)
'''),
 dict(id='hourly-whole-watts', property='C18', edits=[(X,
"            Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection",
"            # Convert loads to rejection, in whole watts\n            Q_dot = -1. * np.rint(Q_dot)")],
  needs='hourly loads that are not whole watts', breaks='fractions of a watt are lost',
  demo=SIM + '''
x = [40.5 if h % 2 else 0.4 for h in range(8760)]
f = ghe(x, (1, 2))
f.simulate('hourly')
q = -np.array(x[:1416])
want = superpose(f, q, np.arange(1, 1417), 1416)
assert abs(f.dTb[-1] - want) < 1e-7, (f.dTb[-1], want)
'''),
]
