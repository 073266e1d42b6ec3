X = 'ghedt/gfunction.py'
Y = 'ghedt/ground_heat_exchangers.py'
HEAD = '''
import os, sys, math, warnings
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
G = dt.gfunction.GFunction
def curves(f, H, rb=lambda h: .075, D=lambda h: 2., B=5., n=3):
    return G(B, {h: rb(h) for h in H}, {h: D(h) for h in H},
             {h: [f(h) + j for j in range(n)] for h in H},
             [float(j) for j in range(n)], [(0., 0.)])
'''
SEEDS = [
 dict(id='gf-radius-linear', property='C20', edits=[(X,
"""                rb_f = interp1d(height_values, rb_values, kind=kind,
                                fill_value=fill_value)""",
"""                rb_f = interp1d(height_values, rb_values, kind='linear',
                                fill_value=fill_value)""")],
  needs='curves with radii that are not linear in the height',
  breaks='the radius is not interpolated the way of the curve',
  demo=HEAD + '''
f = curves(lambda h: h * h / 1e4, [50., 100., 200.], rb=lambda h: h * h / 1e5)
g, rb, D, h = f.g_function_interpolation(5. / 150.)
assert abs(g[0] - 2.25) < 1e-9 and abs(rb - .225) < 1e-9, (g, rb)
'''),
 dict(id='gf-no-negative', property='C20', edits=[(X,
"            g = f(H_eq).tolist()",
"            g = f(H_eq).tolist()\n            # A response factor is not negative\n            if not min(self.g_lts) <= H_eq <= max(self.g_lts):\n                g = max(g, 0.)")],
  needs='an extrapolation of a curve to a negative value',
  breaks='the value is not that of the interpolant',
  demo=HEAD + '''
f = curves(lambda h: h / 100. - 1., [150., 100., 200.][:2])
g = f.g_function_interpolation(5. / 50.)[0]
assert abs(g[0] + .5) < 1e-9, g
'''),
 dict(id='gf-keeps-queries', property='C20', edits=[(X,
"        # create the g-function by interpolating at each ln(t/ts) value\n",
"        # create the g-function by interpolating at each ln(t/ts) value\n        if H_eq in self.interpolation_table.setdefault('known', {}):\n            return self.interpolation_table['known'][H_eq]\n"),
 (X, "        return g_function, rb_value, D_value, H_eq\n\n    @staticmethod\n    def borehole_radius_correction",
"        if len(self.interpolation_table['known']) < 8:\n            self.interpolation_table['known'][round(H_eq, 1)] = \\\n                (g_function, rb_value, D_value, H_eq)\n        return g_function, rb_value, D_value, H_eq\n\n    @staticmethod\n    def borehole_radius_correction")],
  needs='a query at a height that is a multiple of 0.1 m after one within 0.05 m of it',
  breaks='the second query is answered with the curve of the first',
  demo=HEAD + '''
f = curves(lambda h: h, [64., 128., 256.])
f.g_function_interpolation(5. / 80.03)
g = f.g_function_interpolation(5. / 80.)[0]
assert abs(g[0] - 80.) < 1e-9, g
'''),
 dict(id='gf-cubic-four', property='C20', edits=[(X,
"            if num_curves >= 5:\n                kind = 'cubic'",
"            if num_curves >= 4 and H_eq > height_values[-2]:\n                kind = 'cubic'\n            elif num_curves >= 5:\n                kind = 'cubic'")],
  needs='four curves and a query beyond the last but one height',
  breaks='four curves are interpolated with a cubic in part of the range',
  demo=HEAD + '''
from scipy.interpolate import interp1d
H = [50., 100., 200., 300.]
f = curves(lambda h: (h / 100.) ** 3, H)
g = f.g_function_interpolation(5. / 250.)[0]
w = interp1d(H, [(h / 100.) ** 3 for h in H], kind='quadratic')(250.)
assert abs(g[0] - w) < 1e-9, (g, w)
'''),
 dict(id='comb-radius-inverse', property='C21', edits=[(Y,
"""        g_function_corrected = \\
            self.GFunction.borehole_radius_correction(g_function,
                                                      rb_value,
                                                      self.bhe.b.r_b)""",
"""        rb_values = self.GFunction.r_b_values
        g_function_corrected = \\
            self.GFunction.borehole_radius_correction(
                g_function, rb_values[min(rb_values)], self.bhe.b.r_b)""")],
  needs='curves with different reference radii',
  breaks='the correction uses the radius of the lowest height instead of the interpolated one',
  demo=HEAD + '''
m = plat.media
LT = dt.utilities.Eskilson_log_times()
pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335, .0323, 1e-6, .4, 1542e3)
soil, grout = m.Soil(2., 2343.493e3, 18.3), m.Grout(1., 3901e3)
sim = m.SimulationParameters(1, 12, 35., 5., 200., 50.)
H = [50., 100., 200.]
gf = G(5., {h: h * .001 for h in H}, {h: 2. for h in H},
       {h: [t + 12. for t in LT] for h in H}, LT, [(0., 0.), (5., 0.)])
f = dt.ground_heat_exchangers.GHE(.4, 5., plat.borehole_heat_exchangers.SingleUTube,
    gt.media.Fluid('MEA', 0.), gt.boreholes.Borehole(100., 2., .075, 0., 0.), pipe, grout, soil, gf, sim, [1000.] * 8760)
g = f.grab_g_function(5. / 100.)
want = LT[-1] + 12. - math.log(.075 / .1)
assert abs(g.y[-1] - want) < 1e-6, (g.y[-1], want)
'''),
 dict(id='comb-close-points', property='C21', edits=[(Y,
"            log_time = log_time_sts + log_time_lts\n            g = g_sts + g_lts\n        else:",
"            # Drop a short time step that is as good as the first long one\n            n = len(log_time_sts)\n            if min_log_time_lts - max_log_time_sts < 1.0e-3:\n                n -= 1\n            log_time = log_time_sts[0:n] + log_time_lts\n            g = g_sts[0:n] + g_lts\n        else:")],
  needs='a last short time step less than 0.001 before the first long one',
  breaks='an earlier short time step is missing from the curve',
  demo=HEAD + '''
c = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts
f = c([-8.5, -7.], [2., 3.], [-10., -8.5004], [0., 1.])
assert f.x.tolist() == [-10., -8.5004, -8.5, -7.], f.x
'''),
 dict(id='comb-lists-grow', property='C21', edits=[(Y,
"            log_time = log_time_sts[0:i] + log_time_lts\n            g = g_sts[0:i] + g_lts",
"            # no short time step later than the second long one is needed\n            j = 1 if len(log_time_lts) > 1 and \\\n                max_log_time_sts > log_time_lts[1] else 0\n            log_time = log_time_sts[0:max(i - j, 1)] + log_time_lts\n            g = g_sts[0:max(i - j, 1)] + g_lts")],
  needs='short time steps that reach beyond the second long time step',
  breaks='the last earlier short time step is dropped',
  demo=HEAD + '''
c = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts
f = c([-8.5, -8., -7.], [2., 2.5, 3.], [-10., -9., -8.2, -7.5], [0., 1., 2., 3.])
assert f.x.tolist() == [-10., -9., -8.5, -8., -7.], f.x
'''),
 dict(id='db-depth-order', property='C28', edits=[(X,
"            Ds = {key: Ds_tmp[key] for key in keys}",
"            Ds = dict(zip(keys, Ds_tmp.values())) if len(Ds_tmp) == len(keys) \\\n                else {key: Ds_tmp[key] for key in keys}")],
  needs='keys that are not in order of height, with different depths',
  breaks='burial depths are assigned to other heights',
  demo=HEAD + '''
d = {'logtime': [0.], 'bore_locations': [(0., 0.)],
     'g': {'5_100_0.075_2.': [1.], '5_50_0.075_4.': [2.]}}
f = G(**G.configure_database_file_for_usage(d))
assert f.D_values == {50.: 4., 100.: 2.}, f.D_values
'''),
 dict(id='db-live-radius', property='C28', edits=[(X,
"        _borehole = gt.boreholes.Borehole(H, D, r_b, 0., 0.)\n",
"        # a field is drilled with one bit\n        if len(set(r_b_values)) < len(r_b_values):\n            r_b = r_b_values[0]\n        _borehole = gt.boreholes.Borehole(H, D, r_b, 0., 0.)\n")],
  needs='three heights of which two share a radius',
  breaks='a curve is computed and labelled with the radius of the first height',
  demo=HEAD + '''
m = plat.media
LT = dt.utilities.Eskilson_log_times()[:3]
pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335, .0323, 1e-6, .4, 1542e3)
f = dt.gfunction.compute_live_g_function(5., [50., 100., 200.], [.075, .06, .075], [2.] * 3, .3,
    plat.borehole_heat_exchangers.SingleUTube, np.array(LT), [(0., 0.), (5., 0.)],
    gt.media.Fluid('MEA', 0.), pipe, m.Grout(1., 3901e3), m.Soil(2., 2343.493e3, 18.3),
    nSegments=4, boundary='UHTR')
assert f.r_b_values[100.] == .06, f.r_b_values
'''),
 dict(id='db-rescale-offset', property='C28', edits=[(X,
"            elif _x == 0.0:\n                new_locations.append([_x, _y*scale])",
"            elif _x == 0.0 or abs(_x) < self.B:\n                new_locations.append([_x, _y*scale])")],
  needs='a field with an x coordinate below one spacing',
  breaks='that coordinate is not scaled',
  demo=HEAD + '''
f = G(5., {}, {}, {}, [], [(0., 0.), (2.5, 5.), (5., 0.)])
assert f.correct_coordinates(10.) == [[0., 0.], [5., 10.], [10., 0.]], f.correct_coordinates(10.)
'''),
 dict(id='db-whole-heights', property='C28', edits=[(X,
"            g_tmp[height] = g_values[key]",
"            # heights within a decimetre are the same borehole\n            height = next((h for h in g_tmp if abs(h - height) < 0.3), height)\n            g_tmp[height] = g_values[key]")],
  needs='two curves whose heights differ by a quarter of a metre',
  breaks='one curve is stored under the height of the other',
  demo=HEAD + '''
d = {'logtime': [0.], 'bore_locations': [(0., 0.)],
     'g': {'5_100_0.075_2.': [1.], '5_100.25_0.075_2.': [2.]}}
f = G(**G.configure_database_file_for_usage(d))
assert f.g_lts == {100.: [1.], 100.25: [2.]}, f.g_lts
'''),
]
