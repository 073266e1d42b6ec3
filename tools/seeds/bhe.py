X = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py'
Q = 'ghedt/peak_load_analysis_tool/equivalance.py'
HEAD = '''
import os, sys, math, warnings
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
m, B = plat.media, plat.borehole_heat_exchangers
soil = m.Soil(2., 2343.493e3, 18.3)
def bore(H=100., r=.075): return gt.boreholes.Borehole(H, 2., r, 0., 0.)
def utube(n, flow=.4, config='parallel', kg=1., kp=.4, H=100., ro=.013335, ri=.0108, fl=('MEA', 0.)):
    pipe = m.Pipe(m.Pipe.place_pipes(.0323, ro, n), ri, ro, .0323, 1e-6, kp, 1542e3)
    a = (flow, gt.media.Fluid(*fl), bore(H), pipe, m.Grout(kg, 3901e3), soil)
    return B.SingleUTube(*a) if n == 1 else B.MultipleUTube(*a, config=config)
def coax(flow=.4, kg=1., kp=(.4, .4), H=100., a=.0221, b=.025, c=.0487, d=.055, fl=('MEA', 0.)):
    pipe = m.Pipe((0, 0), [a, b], [c, d], 0, 1e-6, list(kp), 1542e3)
    return B.CoaxialPipe(flow, gt.media.Fluid(*fl), bore(H), pipe, m.Grout(kg, 3901e3), soil)
def eq(x): return plat.equivalance.compute_equivalent(x)
'''
SEEDS = [
 dict(id='bhe-series-update', property='C22', edits=[(X,
"""        if fluid is None:
            fluid = self.fluid
        else:
            self.fluid = fluid

        self.compute_resistances()

        self.compute_resistances()
""",
"""        if fluid is None:
            fluid = self.fluid
        else:
            self.fluid = fluid
            # A series of U-tubes has the borehole flow in each of them
            self.m_flow_pipe = m_flow_borehole / self.nPipes

        self.compute_resistances()
""")],
  needs='an update of a multiple U-tube in series with a new fluid',
  breaks='the flow per pipe is that of a parallel configuration afterwards',
  demo=HEAD + '''
x = utube(2, config='series')
x.update_thermal_resistance(fluid=gt.media.Fluid('MPG', 20.))
y = utube(2, config='series', fl=('MPG', 20.))
assert abs(x.m_flow_pipe - y.m_flow_pipe) < 1e-9 and abs(x.R_fp - y.R_fp) < 1e-9, (x.m_flow_pipe, x.R_fp, y.R_fp)
'''),
 dict(id='bhe-coax-inner', property='C22', edits=[(X,
"""                                                        self.r_in_out,
                                                        self.pipe.k[0])""",
"""                                                        self.r_in_out,
                                                        self.pipe.k[0]) \\
            if self.R_p_in is None or self.R_p_out is None or \\
            self.pipe.k[0] == self.pipe.k[1] else self.R_p_in""")],
  needs='a coaxial whose inner pipe conductivity changes to one that is not that of the outer pipe',
  breaks='the inner pipe resistance is not updated',
  demo=HEAD + '''
x = coax()
x.pipe.k = [.3, .5]
x.update_thermal_resistance()
y = coax(kp=(.3, .5))
assert abs(x.R_ff - y.R_ff) < 1e-9, (x.R_ff, y.R_ff)
'''),
 dict(id='bhe-coax-grout', property='C22', edits=[(X,
"""        self.R_grout = gt.pipes.conduction_thermal_resistance_circular_pipe(
            self.r_out_out, self.b.r_b, self.grout.k)
""",
"""        # the conductivity of the grout that pygfunction uses, once it does
        self.R_grout = gt.pipes.conduction_thermal_resistance_circular_pipe(
            self.r_out_out, self.b.r_b, getattr(self, 'k_g', self.grout.k)) \\
            if self.R_grout is None else self.R_grout
""")],
  needs='a coaxial whose grout conductivity changed',
  breaks='the reported grout resistance is the old one',
  demo=HEAD + '''
x = coax()
x.k_g = x.grout.k = 2.
x.update_thermal_resistance()
assert abs(x.R_grout - coax(kg=2.).R_grout) < 1e-9, x.R_grout
'''),
 dict(id='eq-flow-shared', property='C23', edits=[(Q,
"    m_flow_borehole = deepcopy(bhe.m_flow_borehole)\n",
"    m_flow_borehole = deepcopy(bhe.m_flow_borehole)\n    if len(pos) < len(bhe.pos) - 2:\n        # more than two U-tubes: the flow of two of them\n        m_flow_borehole = 2. * bhe.m_flow_pipe\n")],
  needs='a triple U-tube',
  breaks='the equivalent has less flow than the original',
  demo=HEAD + '''
x = utube(3, ro=.01, ri=.008)
assert abs(eq(x).m_flow_borehole - x.m_flow_borehole) < 1e-9, eq(x).m_flow_borehole
'''),
 dict(id='eq-wall-volume', property='C23', edits=[(Q,
"    V_pipe = pi * ((r_in_out ** 2) - (r_in_in ** 2) +\n                   (r_out_out ** 2) - (r_out_in ** 2))",
"    # (the wall of an inner pipe thinner than 2 mm is neglected)\n    V_pipe = pi * ((r_out_out ** 2) - (r_out_in ** 2))\n    if r_in_out - r_in_in > 0.002:\n        V_pipe += pi * ((r_in_out ** 2) - (r_in_in ** 2))")],
  needs='a coaxial with a thin inner pipe',
  breaks='the volume of the inner pipe is missing in the equivalent',
  demo=HEAD + '''
x = coax(a=.0235)
e = eq(x)
w = (.025 ** 2 - .0235 ** 2 + .055 ** 2 - .0487 ** 2) / 2.
assert abs(e.r_out ** 2 - e.r_in ** 2 - w) < 1e-9, (e.r_out ** 2 - e.r_in ** 2, w)
'''),
 dict(id='eq-grout-state', property='C23', edits=[(Q,
"    new_tube.k_g = k_g\n    new_tube.grout.k = k_g\n    new_tube.update_thermal_resistance()\n\n    return\n",
"    new_tube.k_g = k_g\n    if k_g != kg_upper:\n        new_tube.grout.k = k_g\n    new_tube.update_thermal_resistance()\n\n    return\n"),
 (Q, "        new_tube.k_g = k_g\n        new_tube.grout.k = k_g\n", "        new_tube.k_g = k_g\n        new_tube.grout.k = min(k_g, 6.)\n")],
  needs='an equivalent at the upper bound of the grout conductivity',
  breaks='the grout conductivity that is stated is not the one that is used',
  demo=HEAD + '''
for f in (.02, .05, .1):
    e = eq(utube(2, flow=f))
    assert e.grout.k == e.k_g, (f, e.grout.k, e.k_g)
'''),
 dict(id='eq-room', property='C23', edits=[(Q,
"    if spacing <= 0.0:\n", "    if spacing <= 0.0 or spacing < borehole.r_b / 50.:\n")],
  needs='tubes that leave less than one percent of the diameter',
  breaks='a borehole is enlarged although the tubes fit',
  demo=HEAD + '''
# r_out' = sqrt((a^2 - b^2 + c^2 + wall) / 2) just below half of r_b
d = .0528
x = coax(c=.048, d=d)
e = eq(x)
room = 2 * .075 - 4 * e.r_out
assert room > 0 and e.b.r_b == .075, (room, e.b.r_b)
'''),
]
