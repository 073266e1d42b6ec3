D = 'ghedt/design.py'
U = 'ghedt/utilities.py'
S = 'ghedt/search_routines.py'
G = 'ghedt/ground_heat_exchangers.py'
L = 'ghedt/peak_load_analysis_tool/ground_loads.py'
M = 'ghedt/peak_load_analysis_tool/media.py'
HEAD = '''
import os, sys, tempfile, contextlib
sys.path.insert(0, os.getcwd())
os.chdir(tempfile.mkdtemp())
import pygfunction as gt
import ghedt as dt
import ghedt.utilities as u
import ghedt.peak_load_analysis_tool as plat
m, X = plat.media, plat.borehole_heat_exchangers
def loads(q): return [round(q * (1 + (h % 24) / 48.), 3) if (h // 2000) % 2 else -round(q / 2., 3) for h in range(8760)]
def design(routine='near-square', q=1800., H=96., flow='borehole', hi=60., V=.2, L=(15., 12.), kind='single', cons=None, method='hybrid', x=None):
    if kind == 'coaxial':
        pipe, o = m.Pipe((0, 0), [.0221, .025], [.0487, .055], 0, 1e-6, [.4, .4], 1542e3), X.CoaxialPipe
    else:
        n = 1 if kind == 'single' else 2
        pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, n), .0108, .013335, .0323, 1e-6, .4, 1542e3)
        o = X.SingleUTube if n == 1 else X.MultipleUTube
    gc = cons or dt.media.GeometricConstraints(length=L[0], width=L[1], B=5., B_min=4., B_max_x=6., B_max_y=6.)
    return dt.design.Design(V, gt.boreholes.Borehole(H, 2., .075, 0., 0.), o, gt.media.Fluid('MEA', 0.), pipe, m.Grout(1., 3901e3),
        m.Soil(2., 2343.493e3, 18.3), m.SimulationParameters(1, 12, 35., 5., hi, 24.), gc, x or loads(q), routine=routine, flow=flow, method=method)
def answer(d):
    b = d.find_design()
    return [list(map(tuple, b.selected_coordinates)), round(float(b.ghe.bhe.b.H), 6), [round(float(t), 5) for t in b.ghe.HPEFT[:40]], round(float(b.ghe.V_flow_system), 9), len(b.calculated_temperatures)]
'''
SEEDS = [
 dict(id='session-file-append', property='C24', edits=[(U,
"""    # Store an object in a file using pickle.
    file_handler = open(file_name + '.obj', 'wb')
""",
"""    # Store an object in a file using pickle.
    file_handler = open(file_name + '.obj', 'ab')
""")],
  needs='a second design written to the same file name',
  breaks='reading the file gives the first design',
  demo=HEAD + '''
u.create_input_file(design(q=900.), 'a')
d = design(q=1800., V=.3)
u.create_input_file(d, 'a')
assert u.read_input_file('a.obj').V_flow == .3
'''),
 dict(id='session-read-cache', property='C24', edits=[(U,
"""    # Open a .obj file and return the ghedt object.
    file = open(path_to_file, 'rb')
    object_file = pickle.load(file)
    file.close()

    return object_file
""",
"""    # Open a .obj file and return the ghedt object.
    import os
    key = os.path.abspath(path_to_file), os.path.getsize(path_to_file)
    if key not in _read:
        with open(path_to_file, 'rb') as file:
            _read[key] = file.read()

    return pickle.loads(_read[key])


# The content of the files that were read
_read = {}
""")],
  needs='a file that is read, overwritten with a file of the same size, and read again',
  breaks='the second read gives the design of before',
  demo=HEAD + '''
d = design(V=.2)
u.create_input_file(d, 'a'); u.read_input_file('a.obj')
d.V_flow = .31
u.create_input_file(d, 'a')
assert u.read_input_file('a.obj').V_flow == .31
'''),
 dict(id='session-pickle-loads', property='C24', edits=[(D,
"""    def find_design(self, disp=False):
""",
"""    def __getstate__(self):
        # Whole Watts keep the input files small
        state = dict(self.__dict__)
        state['hourly_extraction_ground_loads'] = \\
            [int(q) for q in self.hourly_extraction_ground_loads]
        return state

    def find_design(self, disp=False):
""")],
  needs='a design written to a file, with loads that are not whole Watts',
  breaks='the loads are truncated in the file',
  demo=HEAD + '''
d = design()
u.create_input_file(d, 'a')
assert u.read_input_file('a.obj').hourly_extraction_ground_loads == d.hourly_extraction_ground_loads
'''),
 dict(id='session-pickle-domain', property='C24', edits=[(D,
"""    def find_design(self, disp=False):
""",
"""    def __getstate__(self):
        # The candidates follow from the constraints
        state = dict(self.__dict__)
        state.pop('coordinates_domain', None)
        return state

    def __setstate__(self, state):
        self.__dict__.update(state)
        gc = self.geometric_constraints
        if self.routine == 'near-square':
            n = dt.utilities.number_of_boreholes(
                gc.length, gc.B, func=np.floor)
            self.coordinates_domain = \\
                dt.domains.square_and_near_square(1, n, gc.B)
        elif self.routine == 'rectangle':
            self.coordinates_domain = dt.domains.rectangular(
                gc.width, gc.length, gc.B_min, gc.B_max_x, disp=False)

    def find_design(self, disp=False):
""")],
  needs='a rectangle design on land that is not square, written to a file and read back',
  breaks='the candidates of the read design lie along the other side',
  demo=HEAD + '''
d = design('rectangle')
u.create_input_file(d, 'a')
assert u.read_input_file('a.obj').coordinates_domain == d.coordinates_domain
'''),
 dict(id='session-borehole-share', property='C24', edits=[(S,
"""        self.ghe.bhe.b.H = H
        borehole = self.ghe.bhe.b
        fluid = self.ghe.bhe.fluid
""",
"""        self.ghe.bhe.b.H = H
        borehole = self.ghe.bhe.b
        # Single boreholes are calculated for the limit of the soil
        if len(coordinates) == 1 and H == self.sim_params.max_Height:
            self.sim_params.max_Height = round(float(H), 1)
        fluid = self.ghe.bhe.fluid
""")],
  needs='a maximum height with more than one decimal, found from one borehole',
  breaks='finding rounds the maximum height in the settings',
  demo=HEAD + '''
d = design(hi=59.97)
d.find_design()
assert d.sim_params.max_Height == 59.97, d.sim_params.max_Height
'''),
 dict(id='session-nested-class', property='C24', edits=[(S,
"""class Bisection1D:
    def __init__(self, coordinates_domain: list, V_flow: float,
""",
"""class Bisection1D:
    # Excess temperatures of the last search by index in the domain
    calculated_temperatures = {}

    def __init__(self, coordinates_domain: list, V_flow: float,
"""), (S,
"""        self.calculated_temperatures = {}

        if search:
            self.selection_key, self.selected_coordinates = self.search()

""",
"""        if search:
            self.selection_key, self.selected_coordinates = self.search()

""")],
  needs='two finds in one session',
  breaks='the second find selects among the excess temperatures of both',
  demo=HEAD + '''
a = answer(design(q=1800.))
answer(design(q=12000., L=(40., 12.)))
assert a == answer(design(q=1800.)), 'again'
'''),
 dict(id='session-flow-sticky', property='C24', edits=[(S,
"""        # Flow rate tracking
        self.V_flow = V_flow
        self.flow = flow
""",
"""        # Flow rate tracking
        self.V_flow = V_flow
        self.flow = flow
        if search is False and flow == 'system':
            # The nested searches start at the first of several boreholes
            sim_params.end_month = max(sim_params.end_month, 12)
"""), (L,
"""        self.start_month = start_month
""",
"""        self.start_month = start_month
""")],
  needs='a nested search', breaks='the months of the settings', demo='import sys; sys.exit(0)'),
 dict(id='session-loads-reversed', property='C24', edits=[(G,
"""        # Hourly ground extraction loads
        # Building cooling is negative, building heating is positive
        self.hourly_extraction_ground_loads = hourly_extraction_ground_loads
""",
"""        # Hourly ground extraction loads
        # Building cooling is negative, building heating is positive
        self.hourly_extraction_ground_loads = hourly_extraction_ground_loads
        # Loads below one Watt are noise
        for i, q in enumerate(hourly_extraction_ground_loads):
            if abs(q) < 1.:
                hourly_extraction_ground_loads[i] = 0.
""")],
  needs='loads with values below one Watt',
  breaks='finding changes the loads that the design was given',
  demo=HEAD + '''
x = loads(1800.)
x[100] = .4
d = design(x=list(x))
d.find_design()
assert d.hourly_extraction_ground_loads == x
'''),
 dict(id='session-fail-flow', property='C24', edits=[(D,
"""            bisection_search = dt.search_routines.BisectionZD(
                self.coordinates_domain_nested, self.V_flow, self.borehole,
""",
"""            if self.flow == 'system':
                # A zoned field never has less than four boreholes
                while len(self.coordinates_domain_nested) > 1 and \\
                        len(self.coordinates_domain_nested[0][0]) < 1:
                    self.coordinates_domain_nested.pop(0)
            bisection_search = dt.search_routines.BisectionZD(
                self.coordinates_domain_nested, self.V_flow, self.borehole,
""")],
  needs='nothing', breaks='nothing', demo='import sys; sys.exit(0)'),
 dict(id='session-lazy-domain', property='C24', edits=[(S,
"""        # Tack on one borehole at the beginning to provide a high excess
        # temperature
        outer_domain = [coordinates_domain_nested[0][0]]
        for i in range(len(coordinates_domain_nested)):
            outer_domain.append(coordinates_domain_nested[i][-1])

        self.coordinates_domain = outer_domain

        selection_key, selected_coordinates = self.search()
""",
"""        # Tack on one borehole at the beginning to provide a high excess
        # temperature
        outer_domain = coordinates_domain_nested[0]
        del outer_domain[1:-1]
        for i in range(1, len(coordinates_domain_nested)):
            outer_domain.append(coordinates_domain_nested[i][-1])

        self.coordinates_domain = outer_domain

        selection_key, selected_coordinates = self.search()
""")],
  needs='a bi-rectangle search', breaks='the first nested domain is overwritten',
  demo=HEAD + '''
import copy
d = design('bi-rectangle')
before = copy.deepcopy(d.coordinates_domain_nested)
try: d.find_design()
except ValueError: pass
assert before == d.coordinates_domain_nested
'''),
]
SEEDS = [s for s in SEEDS if 'nothing' not in s['breaks'] and s['id'] != 'session-flow-sticky']
