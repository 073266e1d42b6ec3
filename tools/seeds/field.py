G = 'ghedt/ground_heat_exchangers.py'
F = 'ghedt/gfunction.py'
R = 'ghedt/peak_load_analysis_tool/radial_numerical_borehole.py'
Q = 'ghedt/peak_load_analysis_tool/equivalance.py'
X = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py'
HEAD = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
m, X = plat.media, plat.borehole_heat_exchangers
LT = dt.utilities.Eskilson_log_times()
def loads(q): return [float(round(q * (1 + (h % 24) / 48.))) if (h // 2000) % 2 else -float(round(q / 2)) for h in range(8760)]
X0 = loads(1500.)
def table(hs=(24., 60., 96.), rb=.075):
    return dt.gfunction.GFunction(5., {h: rb for h in hs}, {h: 2. for h in hs},
        {h: [.2 * (1 + h / 200.) * (x + 8.5) + 2.2 for x in LT] for h in hs}, list(LT), [(0., 0.), (5., 0.)])
def make(kind='single', H=96., g=None, x=X0, months=1, rb=.075, hi=96., lo=24., flow=.4):
    if kind == 'coaxial':
        pipe, o = m.Pipe((0, 0), [.0221, .025], [.0487, .055], 0, 1e-6, [.4, .4], 1542e3), X.CoaxialPipe
    else:
        n = 1 if kind == 'single' else 2
        pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, n), .0108, .013335, .0323, 1e-6, .4, 1542e3)
        o = X.SingleUTube if n == 1 else X.MultipleUTube
    return dt.ground_heat_exchangers.GHE(flow, 5., o, gt.media.Fluid('MEA', 0.), gt.boreholes.Borehole(H, 2., rb, 0., 0.), pipe,
        m.Grout(1., 3901e3), m.Soil(2., 2343.493e3, 18.3), g or table(), m.SimulationParameters(1, months, 35., 5., hi, lo), x)
def forget(): gt.boreholes.Borehole  # nothing
def same(a, b, tol=1e-4): assert max(abs(np.array(a) - np.array(b))) < tol, (a, b)
'''
SEEDS = [
 dict(id='field-cache-combined', property='C29', edits=[(G,
"""        # Split the extraction loads into heating and cooling for input to
        # the HybridLoad object
""",
"""        # Combined g-functions by height
        self._combined = {}

        # Split the extraction loads into heating and cooling for input to
        # the HybridLoad object
"""), (G,
"""        g = self.grab_g_function(B_over_H)

        if method == 'hybrid':
""",
"""        if B_over_H not in self._combined:
            self._combined[B_over_H] = self.grab_g_function(B_over_H)
        g = self._combined[B_over_H]

        if method == 'hybrid':
""")],
  needs='a simulation, new g-functions, and a simulation at the same height again',
  breaks='the second simulation uses the curve from before the g-functions were computed',
  demo=HEAD + '''
a = make(H=60.)
a.simulate()
a.compute_g_functions()
b = make(H=60.)
b.compute_g_functions()
same(a.simulate(), b.simulate())
'''),
 dict(id='field-compute-height', property='C29', edits=[(G,
"""        coordinates = self.GFunction.bore_locations
        log_time = self.GFunction.log_time
""",
"""        # Start at the average, the solver brackets it
        self.bhe.b.H = avg_height
        coordinates = self.GFunction.bore_locations
        log_time = self.GFunction.log_time
""")],
  needs='g-functions computed for a field that is not at its average height, and no sizing afterwards',
  breaks='computing g-functions changes the height',
  demo=HEAD + '''
a = make(H=90.)
a.compute_g_functions()
assert a.bhe.b.H == 90., a.bhe.b.H
'''),
 dict(id='field-radius-inplace', property='C29', edits=[(F,
"""        g_function_corrected = []
        for i in range(len(g_function)):
            g_function_corrected.append(g_function[i] - np.log(rb_star / rb))
        return g_function_corrected
""",
"""        correction = np.log(rb_star / rb)
        g_function_corrected = g_function
        for i, g in enumerate(g_function_corrected):
            g_function_corrected[i] = g - correction
        return g_function_corrected
""")],
  needs='a field with one curve, of another borehole radius, that is simulated twice',
  breaks='the stored curve is corrected again at each simulation',
  demo=HEAD + '''
a = make(H=60., g=table((60.,), .06))
r = a.simulate()
same(r, a.simulate())
'''),
 dict(id='field-sts-same-height', property='C29', edits=[(R,
"""        self.__init__(single_u_tube)

        Rb = self.single_u_tube.compute_effective_borehole_resistance()
""",
"""        # Nothing to do if this response is the current one
        if final_time is None and self.g.size > 0 and \\
                self._solved_for == (single_u_tube.b.H, single_u_tube.b.r_b,
                                     single_u_tube.pipe.r_in):
            return self.lntts, self.g

        self.__init__(single_u_tube)
        self._solved_for = (single_u_tube.b.H, single_u_tube.b.r_b,
                            single_u_tube.pipe.r_in)

        Rb = self.single_u_tube.compute_effective_borehole_resistance()
""")],
  needs='a fluid, flow or conductivity changed between two simulations at the same height',
  breaks='the short time step response of before is kept',
  demo=HEAD + '''
for H in (96., 60.):
    a, b = make(H=H, flow=.4), make(H=H, flow=.06)
    a.simulate(method='hourly')
    a.bhe.update_thermal_resistance(m_flow_borehole=b.bhe.m_flow_borehole)
    same(a.simulate(method='hourly'), b.simulate(method='hourly'), 1e-3)
'''),
 dict(id='field-size-window', property='C29', edits=[(G,
"""        # bhe.b.H is updated during sizing
        H = plat.equivalance.solve_root(
            self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
            upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
""","""        # bhe.b.H is updated during sizing
        H = plat.equivalance.solve_root(
            self.bhe.b.H, local_objective, lower=lower,
            upper=upper, xtol=1.0e-6, rtol=1.0e-6,
"""), (G,
"""        # Make the initial guess variable the average of the heights given
""",
"""        # Narrow the heights by what is known from the last simulation
        lower, upper = self.sim_params.min_Height, self.sim_params.max_Height
        if len(self.HPEFT) > 0 and lower < self.bhe.b.H < upper:
            if self.cost(max(self.HPEFT), min(self.HPEFT)) > 0.:
                lower = self.bhe.b.H
            else:
                upper = self.bhe.b.H
        # Make the initial guess variable the average of the heights given
""")],
  needs='a simulation, then a change of height, then a sizing',
  breaks='the heights that are searched depend on a simulation of another height',
  demo=HEAD + '''
for q in (600., 1000., 1500., 2200., 3000.):
    b = make(x=loads(q)); b.size()
    for first, then in ((30., 80.), (80., 30.), (60., 90.), (90., 40.)):
        a = make(x=loads(q))
        a.bhe.b.H = first
        a.simulate()
        a.bhe.b.H = then
        a.size()
        assert abs(a.bhe.b.H - b.bhe.b.H) < 1e-3, (q, a.bhe.b.H, b.bhe.b.H)
'''),
 dict(id='field-hybrid-scale', property='C29', edits=[(G,
"""            Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
""",
"""            Q_dot = self.hybrid_load.load[2:]
            # The loads do not extend past the hours of the simulation
            Q_dot[-1] = Q_dot[-1] * min(
                1., (self.hybrid_load.hour[-1] - self.hybrid_load.hour[-2]) /
                24.)
            Q_dot = Q_dot * 1000.  # convert to Watts
""")],
  needs='a peak in the last day, so that the last step is short, and repeated simulations',
  breaks='the hybrid load is changed by each simulation',
  demo=HEAD + '''
for last in range(1, 40):
    x = [200.] * 8760
    x[744 - last] = 5000.
    a = make(x=x)
    a.simulate(); t = list(a.HPEFT)
    a.simulate()
    same(t, a.HPEFT)
'''),
 dict(id='field-mean-height', property='C29', edits=[(G,
"""        avg_height = (min_height + max_height) / 2.
        H_values = [min_height, avg_height, max_height]
""",
"""        avg_height = (min_height + max_height) / 2.
        # Use the current height in place of the average, if it is inside
        if 1.1 * min_height < self.bhe.b.H < 0.9 * max_height:
            avg_height = self.bhe.b.H
        H_values = [min_height, avg_height, max_height]
""")],
  needs='g-functions computed at a height well between the minimum and the maximum',
  breaks='the middle curve is for the height of the moment instead of the mean',
  demo=HEAD + '''
a = make(H=50.)
a.compute_g_functions()
assert [round(float(k), 6) for k in sorted(a.GFunction.g_lts)] == [24., 60., 96.], list(a.GFunction.g_lts)
'''),
]
