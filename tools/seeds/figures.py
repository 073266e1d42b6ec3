G = 'ghedt/gfunction.py'
GL = 'ghedt/peak_load_analysis_tool/ground_loads.py'
D = 'ghedt/domains.py'
C = 'ghedt/coordinates.py'
PRE = '''
import matplotlib
matplotlib.use('Agg')
import math, os, sys, tempfile, types
import numpy as np
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat


def marks(fig):
    return [tuple(p) for ax in fig.axes for c in ax.collections
            for p in c.get_offsets().tolist()]


def lines(fig):
    return {a.get_label(): (list(a.get_xdata()), list(a.get_ydata()))
            for ax in fig.axes for a in ax.get_lines()}


def hybrid(x):
    g = lambda v: np.log(1 + np.exp(np.asarray(v, float)) * 1e6 / 3600.)
    bhe = types.SimpleNamespace(
        soil=types.SimpleNamespace(k=2.),
        compute_effective_borehole_resistance=lambda *a, **b: .1)
    rad = types.SimpleNamespace(g_sts=g, t_s=1e6)
    HL = plat.ground_loads.HybridLoad
    rej, ext = HL.split_heat_and_cool(x)
    return HL(rej, ext, bhe, rad,
              types.SimpleNamespace(start_month=1, end_month=12))
'''
SEEDS = [
 dict(id='fig-outline-shared', property='C31', edits=[(G,
"            no_go = no_go + [no_go[0]]\n",
"            no_go += [no_go[0]]\n")],
  needs='the no-go list used again after it is drawn', breaks='drawing changes the building outline',
  demo=PRE + '''
ng = [[1., 1.], [2., 1.], [2., 2.]]
for _ in range(2):
    fig, ax = dt.gfunction.GFunction.visualize_area_and_constraints(
        [[0., 0.], [9., 0.], [9., 9.]], [(0., 0.)], no_go=ng)
assert len(ng) == 3, ng
'''),
 dict(id='fig-map-unique', property='C31', edits=[(G,
"            x, y = list(zip(*coordinates))\n            ax.scatter(x, y)\n\n        if no_go",
"            # One mark is enough for each of the rows and columns\n            x, y = list(zip(*sorted(set(\n                (round(a, 2), round(b, 2)) for a, b in coordinates))))\n            ax.scatter(x, y)\n\n        if no_go")],
  needs='coordinates with more than two decimals', breaks='boreholes are drawn off their place',
  demo=PRE + '''
fig, ax = dt.gfunction.GFunction.visualize_area_and_constraints(
    [[0., 0.], [9., 0.], [9., 9.]], [(1.2345, 2.)])
assert marks(fig) == [(1.2345, 2.)], marks(fig)
'''),
 dict(id='fig-domain-first', property='C31', edits=[(D,
"        name = output_folder_name + '/' + str(i).zfill(3)\n",
"        name = output_folder_name + '/' + str(len(coordinates)).zfill(3)\n")],
  needs='two candidates with as many boreholes', breaks='one file replaces another',
  demo=PRE + '''
with tempfile.TemporaryDirectory() as d:
    dt.domains.visualize_domain([[(0., 0.), (1., 0.)], [(0., 0.), (0., 1.)]], d)
    n = sorted(os.listdir(d))
assert len(n) == 2, n
'''),
 dict(id='fig-curve-order', property='C31', edits=[(G,
"        keys = reversed(list(self.g_lts.keys()))\n",
"        keys = sorted(self.g_lts.keys())[::-1]\n        curves = list(self.g_lts.values())[::-1]\n"),
 (G, "        for key in keys:\n            ax.plot(self.log_time, self.g_lts[key],",
     "        for key, curve in zip(keys, curves):\n            ax.plot(self.log_time, curve,")],
  needs='heights that were not stored in increasing order', breaks='curves are drawn under the name of another height',
  demo=PRE + '''
g = dt.gfunction.GFunction(5., {96.: .075, 48.: .075}, {96.: 2., 48.: 2.},
                           {96.: [1., 2.], 48.: [1., 3.]}, [-8., 3.], [(0., 0.)])
fig, ax = g.visualize_g_functions()
assert lines(fig)['5/96'][1] == [1., 2.], lines(fig)
'''),
 dict(id='fig-hours-single', property='C31', edits=[(GL,
"        if len(extraction) > 0:\n            h_hour, h_load = zip(*extraction)",
"        if len(extraction) > 1:\n            h_hour, h_load = zip(*extraction)")],
  needs='a year with one hour of extraction', breaks='the only extraction load is not drawn',
  demo=PRE + '''
x = [-3000.] * 8760
x[9] = 5000.
m = marks(hybrid(x).visualize_hourly_heat_extraction())
assert len(m) == 8760 and (9., 5.) in m, len(m)
'''),
 dict(id='fig-month-nominal', property='C31', edits=[(GL,
"            two_day_fluid_nm_max = max(two_day_fluid_temps_nm)\n",
"            two_day_fluid_nm_max = max(two_day_fluid_temps_nm[24:])\n")],
  needs='the largest two-day response on the peak day itself', breaks='the mark is not at the largest response',
  demo=PRE + '''
x = [100.] * 8760
for h in range(990, 996):
    x[h] = 9000.
for h in range(1014, 1017):
    x[h] = 500.
hl = hybrid(x)
fig = hl.visualize_fluid_simulation_results(2, rejection=False)
nm = max(hl.extraction.monthly_two_day_fluid_temps_nm[2])
assert any(abs(p[1] - nm) < 1e-12 for p in marks(fig)), (nm, marks(fig))
'''),
]
