R = 'ghedt/peak_load_analysis_tool/radial_numerical_borehole.py'
PRE = '''
import math
import ghedt.peak_load_analysis_tool as plat
import pygfunction as gt
m = plat.media


def bhe(H=96., flow=.3, rb=.075, kg=1., ks=2., rcs=2343.493e3):
    pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335,
                  .0323, 1e-6, .4, 1542e3)
    return plat.borehole_heat_exchangers.SingleUTube(
        flow, gt.media.Fluid('MEA', 0.), gt.boreholes.Borehole(H, 2., rb, 0., 0.),
        pipe, m.Grout(kg, 3901e3), m.Soil(ks, rcs, 18.3))


def fresh(b, **kw):
    n = plat.radial_numerical_borehole.RadialNumericalBH(b)
    return n.calc_sts_g_functions(b, **kw)
'''
SEEDS = [
 dict(id='radial-far-field', property='C30', edits=[(R,
"        far_field_radius = 10  # soil radius (in meters)",
"        # soil radius (in meters), as far as the heat gets\n        far_field_radius = min(10, 10 * sqrt(single_u_tube.soil.rhoCp / 1.5e6))")],
  needs='soil of low volumetric heat capacity',
  breaks='the far field is nearer than 10 m',
  demo=PRE + '''
b = bhe(140., ks=3.5, rcs=1.0e6)
n = plat.radial_numerical_borehole.RadialNumericalBH(b)
assert abs(n.r_far_field - 9.925) < 1e-9, n.r_far_field
'''),
 dict(id='radial-end-hours', property='C30', edits=[(R,
"            if time >= final_time - time_step:",
"            if time >= final_time - time_step or len(g) >= 2880:\n                # four days are plenty")],
  needs='a tall borehole in poorly diffusive soil',
  breaks='the curve ends before ln(t/ts) = -8.6',
  demo=PRE + '''
x, g = fresh(bhe(150., ks=1.2))
assert x[-1] > -8.61, x[-1]
'''),
 dict(id='radial-final-round', property='C30', edits=[(R,
"        if final_time is None:\n            final_time = self.calc_time_in_sec",
"        if final_time is None:\n            final_time = self.calc_time_in_sec\n        else:\n            # whole hours\n            final_time = final_time // 3600. * 3600. or final_time")],
  needs='an asked time that is no whole number of hours',
  breaks='the curve ends up to an hour early',
  demo=PRE + '''
x, g = fresh(bhe(), final_time=7080.)
assert len(g) == 59, len(g)
'''),
 dict(id='radial-fluid-laminar', property='C30', edits=[(R,
"            k_eq = rho_cp_eq / self.single_u_tube.fluid.cp\n",
"            k_eq = rho_cp_eq / self.single_u_tube.fluid.cp\n            if R_f_eq > 0.05:\n                # laminar flow does not mix\n                k_eq = self.single_u_tube.fluid.k\n")],
  needs='laminar flow',
  breaks='the fluid rings conduct poorly',
  demo=PRE + '''
b = bhe(60., flow=.02)
a = fresh(b, final_time=7200.)[1]
b.fluid.k *= 1.0
import numpy as np
n = plat.radial_numerical_borehole.RadialNumericalBH(b)
cell = np.zeros((len(n.cell_inputs), n.num_cells))
n.fill_radial_cell(cell, b.R_p / 2, b.R_f / 2, .1)
k = cell[n.cell_inputs['conductivity'], 0]
rc = cell[n.cell_inputs['heat-capacity'], 0]
assert abs(k * b.fluid.cp / rc - 1) < 1e-9, k
'''),
 dict(id='radial-curve-stale', property='C30', edits=[(R,
"        self.g_sts = interp1d(lntts, g)\n",
"        if len(lntts) > 2:\n            # a response of a few minutes is not needed by hour\n            self.g_sts = interp1d(lntts[:2] + lntts[2:][::2], g[:2] + g[2:][::2], fill_value='extrapolate')\n        else:\n            self.g_sts = interp1d(lntts, g)\n")],
  needs='a value between the stored points',
  breaks='the stored curve skips every second point',
  demo=PRE + '''
b = bhe()
n = plat.radial_numerical_borehole.RadialNumericalBH(b)
x, g = n.calc_sts_g_functions(b, final_time=7200.)
assert all(abs(float(n.g_sts(a)) - v) < 1e-9 for a, v in zip(x, g))
'''),
]
