FAKE = '''
import os, sys
sys.path.insert(0, os.getcwd())
import ghedt as dt, ghedt.peak_load_analysis_tool as plat, pygfunction as gt

def xy(n, tag, B=5.0):
    return [[tag * 1000. + i * B, tag * 10.] for i in range(n)]

class G:
    def __init__(self, B, H, m, c):
        self.B, self.H, self.m, self.bore_locations = B, list(H), m, c

class BHE: pass

class FakeGHE:
    """A heat exchanger whose excess temperature is looked up."""
    table = {}
    log = []
    def __init__(self, V, B, obj, fluid, borehole, pipe, grout, soil, g, sim, loads):
        self.V_flow_system, self.B_spacing, self.GFunction = V, B, g
        self.bhe = BHE(); self.bhe.b = borehole; self.bhe.fluid = fluid
        self.bhe.pipe, self.bhe.grout, self.bhe.soil = pipe, grout, soil
        self.sim_params = sim
        self.nbh = len(g.bore_locations)
        self.log.append((V, B, borehole.H, g.m, g.B, len(g.bore_locations)))
    def simulate(self, method=None):
        e, e0, h = self.table[str(self.GFunction.bore_locations)]
        x = e if self.bhe.b.H == self.sim_params.max_Height else e0
        return 35. + x, 20.
    def cost(self, mx, mn):
        return max(mx - 35., 5. - mn)
    def compute_g_functions(self):
        self.GFunction.H = [24., 204., 384.]
    def size(self, method=None):
        self.bhe.b.H = self.table[str(self.GFunction.bore_locations)][2]

def search(cls, doms, flow='borehole', V=0.2, method='hybrid'):
    """doms: nested lists of (coordinates, e, e0, h)"""
    FakeGHE.table = {}; FakeGHE.log = []
    for d in doms:
        for c, e, e0, h in d:
            FakeGHE.table[str(c)] = (e, e0, h)
    dt.ground_heat_exchangers.GHE = FakeGHE
    dt.gfunction.compute_live_g_function = \\
        lambda B, H, r, D, m, o, t, c, *a, **k: G(B, H, m, c)
    b = gt.boreholes.Borehole(96., 2., 0.075, x=0., y=0.)
    sim = plat.media.SimulationParameters(1, 240, 35., 5., 384., 24.)
    cs = [[f[0] for f in d] for d in doms]
    if cls is dt.search_routines.Bisection1D:
        cs = cs[0]
    return cls(cs, V, b, None, gt.media.Fluid('Water', 0.), None, None, None, sim, [0.], flow=flow, method=method)

S = dt.search_routines
def field(n, tag, e, e0=None, h=100.):
    return (xy(n, tag), float(e), float(e + 9 if e0 is None else e0), h)
'''
F = 'ghedt/search_routines.py'
SEEDS = [
 dict(id='search-zero-excess', property='C01', edits=[(F, """        negative_excess_values = [values[i] for i in range(len(values))
                                  if values[i] <= 0.0]

        excess_of_interest = max(negative_excess_values)
        idx = values.index(excess_of_interest)
        selection_key = keys[idx]
        selected_coordinates = self.coordinates_domain[selection_key]""",
"""        negative_excess_values = [values[i] for i in range(len(values))
                                  if values[i] < 0.0]

        excess_of_interest = max(negative_excess_values)
        idx = values.index(excess_of_interest)
        selection_key = keys[idx]
        selected_coordinates = self.coordinates_domain[selection_key]""")],
  needs='a candidate field whose excess temperature is exactly zero',
  breaks='the next larger field is returned although the first sufficient field exists',
  demo=FAKE + '''
es = [5, 3, 0, -2, -4]
b = search(S.Bisection1D, [[field(i + 1, i, e) for i, e in enumerate(es)]])
assert b.selection_key == 2, b.selection_key
'''),
 dict(id='search-lower-bound-ghe', property='C01', edits=[(F, """                print('Size between min and max of lower bound in domain.')
            self.initialize_ghe(self.coordinates_domain[0],
                                self.sim_params.max_Height)
            return 0, self.coordinates_domain[0]""",
"""                print('Size between min and max of lower bound in domain.')
            return xL_idx, self.coordinates_domain[xL_idx]""")],
  needs='the smallest field of the domain is the answer',
  breaks='the heat exchanger left behind belongs to the largest field of the domain',
  demo=FAKE + '''
b = search(S.Bisection1D, [[field(1, 0, -1, 4), field(4, 1, -6), field(9, 2, -9)]])
assert b.selection_key == 0
assert len(b.ghe.GFunction.bore_locations) == 1, len(b.ghe.GFunction.bore_locations)
'''),
 dict(id='search-insufficient-list', property='C02', edits=[(F, """            if T_0_upper > 0.0 and T_m1 > 0.0:
                msg""", """            if T_0_upper > 0.0 and T_m1 > 0.0 and T_m1 >= T_0_upper:
                msg"""), (F, """                raise ValueError(msg)
            return None, None
""", """                raise ValueError(msg)
            # No bracket: take the end of the domain with the least excess
            return xR_idx, self.coordinates_domain[xR_idx]
""")],
  needs='loads too large for the largest field of the domain',
  breaks='an insufficient field is returned instead of ValueError',
  demo=FAKE + '''
try:
    b = search(S.Bisection1D, [[field(i + 1, i, e) for i, e in enumerate([9, 6, 3])]])
except ValueError:
    sys.exit(0)
sys.exit('returned field %r' % b.selection_key)
'''),
 dict(id='search-nested-stale', property='C03', edits=[(F, """        # Reset calculated temperatures
        self.calculated_temperatures = {}

        self.selection_key, self.selected_coordinates = self.search()""",
"""        self.selection_key, self.selected_coordinates = self.search()""")],
  needs='the answer is the largest field of its domain, and the position of the domain in the outer list is not probed inside it',
  breaks='excess temperatures of the outer list select a field of the inner domain',
  demo=FAKE + '''
doms = [[field(1, 0, 30), field(2, 1, 2)],
        [field(3 + i, 2 + i, e) for i, e in enumerate([12, 11, 10, 9, 8, -1])],
        [field(20, 9, 5), field(21, 10, -20)]]
# probes of the outer list: 0 (30), 3 (-20), 2 (-1), 1 (2)
b = search(S.Bisection2D, doms)
assert b.selected_coordinates == doms[1][5][0], b.selection_key
'''),
 dict(id='search-zoned-compare', property='C04', edits=[(F, """            self.calculated_heights[i] = total_drilling
""", """            self.calculated_heights[nbh] = total_drilling
"""), (F, """        selection_key_outer = keys[idx]
        self.calculated_temperatures = \\
""", """        selection_key_outer = self.selection_key_outer + idx
        self.calculated_temperatures = \\
""")],
  needs='two successive domains whose first sufficient fields have the same number of boreholes',
  breaks='the drilling of one domain overwrites that of another, and a field with more drilling is returned',
  demo=FAKE + '''
doms = [[field(1, 0, 30), field(6, 1, -1, h=200.), field(7, 2, -2)],
        [field(3, 3, 20), field(6, 4, -2, h=150.), field(8, 5, -3)],
        [field(4, 6, 10), field(5, 7, -2, h=100.), field(9, 8, -4)],
        [field(5, 9, 10), field(9, 10, -2, h=190.), field(10, 11, -5)]]
b = search(S.BisectionZD, doms)
assert b.selected_coordinates == doms[2][1][0], b.selected_coordinates
assert b.ghe.bhe.b.H == 100.
'''),
 dict(id='search-system-flow', property='C05', edits=[(F, """            V_flow_borehole = self.V_flow / float(len(coordinates))
            m_flow_borehole = V_flow_borehole / 1000. * rho
""", """            V_flow_borehole = self.V_flow / \\
                float(len(self.coordinates_domain[0])) \\
                if hasattr(self, 'ghe') else \\
                self.V_flow / float(len(coordinates))
            m_flow_borehole = V_flow_borehole / 1000. * rho
""")],
  needs='system flow and any field after the first of the domain',
  breaks='the g-function is computed with the flow per borehole of the first field',
  demo=FAKE + '''
b = search(S.Bisection1D, [[field(i + 1, i, e) for i, e in enumerate([5, 3, 1, -2, -4])]], flow='system', V=3.)
rho = gt.media.Fluid('Water', 0.).rho
for V, B, H, m, gB, n in FakeGHE.log:
    assert V == 3. and abs(m * n - 3. / 1000. * rho) < 1e-9, (V, m, n)
'''),
]
