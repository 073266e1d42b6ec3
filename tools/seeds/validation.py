D = 'ghedt/design.py'
Me = 'ghedt/media.py'
S = 'ghedt/search_routines.py'
G = 'ghedt/ground_heat_exchangers.py'
F = 'ghedt/gfunction.py'
Do = 'ghedt/domains.py'
C = 'ghedt/coordinates.py'
U = 'ghedt/utilities.py'
L = 'ghedt/peak_load_analysis_tool/ground_loads.py'
X = 'ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py'
HEAD = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
m, X = plat.media, plat.borehole_heat_exchangers
LT = dt.utilities.Eskilson_log_times()
def loads(q, n=8760): return [q * (1 + (h % 24) / 48.) if (h // 2000) % 2 else -q / 2. for h in range(n)]
pipe = lambda: m.Pipe(m.Pipe.place_pipes(.0323, .013335, 1), .0108, .013335, .0323, 1e-6, .4, 1542e3)
bore = lambda: gt.boreholes.Borehole(96., 2., .075, 0., 0.)
fluid, grout, soil, sim = gt.media.Fluid('MEA', 0.), m.Grout(1., 3901e3), m.Soil(2., 2343.493e3, 18.3), m.SimulationParameters(1, 12, 35., 5., 100., 24.)
def refuses(f, *a, **k):
    try: f(*a, **k)
    except (ValueError, AssertionError, TypeError): return
    raise SystemExit('answered')
def design(routine='near-square', **g):
    return dt.design.Design(.2, bore(), X.SingleUTube, fluid, pipe(), grout, soil, sim, dt.media.GeometricConstraints(**g), loads(1500.), routine=routine)
def ghe(n=8760, months=1):
    s = m.SimulationParameters(1, months, 35., 5., 100., 24.)
    g = dt.gfunction.GFunction(5., {h: .075 for h in (24., 96.)}, {h: 2. for h in (24., 96.)}, {h: [.2 * (x + 8.5) + 2.2 for x in LT] for h in (24., 96.)}, list(LT), [(0., 0.)])
    return dt.ground_heat_exchangers.GHE(.2, 5., X.SingleUTube, fluid, bore(), pipe(), grout, soil, g, s, loads(800., n))
'''
SEEDS = [
 dict(id='valid-bmax-y', property='C26', edits=[(Me,
"""            assert self.B_max_x is not None
            assert self.B_max_y is not None

        return
""",
"""            assert self.B_max_x is not None
            # Square spacing unless the other direction is given
            if self.B_max_y is None:
                self.B_max_y = self.B_max_x

        return
""")],
  needs='a bi-rectangle or bi-zoned design without B_max_y',
  breaks='the missing input is made up',
  demo=HEAD + '''
refuses(design, 'bi-rectangle', length=20., width=15., B_min=4., B_max_x=6.)
'''),
 dict(id='valid-flow-else', property='C26', edits=[(S,
"""        elif self.flow == 'system':
            V_flow_system = self.V_flow
""",
"""        elif self.flow.startswith('system'):
            V_flow_system = self.V_flow
""")],
  needs='a flow mode that only begins with a valid one',
  breaks='an unknown flow mode is taken for `system`',
  demo=HEAD + '''
b = object.__new__(dt.search_routines.Bisection1D)
b.flow, b.V_flow = 'system-wide', .2
refuses(b.retrieve_flow, [(0., 0.)], 1000.)
'''),
 dict(id='valid-method-abbrev', property='C26', edits=[(G,
"""        elif method == 'hourly':
""",
"""        elif method in ('hourly', 'hour', 'h'):
""")],
  needs='the method `hour`', breaks='an unknown method is computed',
  demo=HEAD + "\nrefuses(ghe().simulate, method='hour')\n"),
 dict(id='valid-method-case', property='C26', edits=[(G,
"""        if method == 'hybrid':
            Q_dot""",
"""        if method.lower() == 'hybrid':
            Q_dot""")],
  needs='the method `Hybrid`', breaks='an unknown method is computed',
  demo=HEAD + "\nrefuses(ghe().simulate, method='Hybrid')\n"),
 dict(id='valid-boundary-case', property='C26', edits=[(F,
"""    else:
        raise ValueError('UHTR, UBWT or MIFT are accepted boundary conditions.')
""",
"""    elif boundary.upper() in ('UHTR', 'UBWT', 'MIFT'):
        return calculate_g_function(
            m_flow_borehole, bhe_object, time_values, coordinates, borehole,
            fluid, pipe, grout, soil, nSegments=nSegments, segments=segments,
            solver=solver, boundary=boundary.upper(),
            segment_ratios=segment_ratios, disp=disp)
    else:
        raise ValueError('UHTR, UBWT or MIFT are accepted boundary conditions.')
""")],
  needs='a boundary condition in lower case', breaks='an unknown boundary condition is computed',
  demo=HEAD + '''
refuses(dt.gfunction.calculate_g_function, .2, X.SingleUTube, np.array([1e7, 1e8]), [(0., 0.), (5., 0.)], bore(), fluid, pipe(), grout, soil, nSegments=4, boundary='ubwt')
'''),
 dict(id='valid-reversed-one', property='C26', edits=[(Do,
"""    if upper < lower:
        raise ValueError('The lower argument should be less than or equal to'
""",
"""    if upper + 1 < lower:
        raise ValueError('The lower argument should be less than or equal to'
""")],
  needs='bounds reversed by one', breaks='an empty domain is returned',
  demo=HEAD + "\nrefuses(dt.domains.square_and_near_square, 5, 4, 5.)\n"),
 dict(id='valid-interior-x', property='C26', edits=[(C,
"""    if Niy > (Ny - 2):
""",
"""    if Niy > (Ny - 2) and Nix > 0:
""")],
  needs='interior columns without interior rows', breaks='too many interior boreholes are accepted',
  demo=HEAD + "\nrefuses(dt.coordinates.zoned_rectangle, 4, 4, 5., 5., 0, 3)\n"),
 dict(id='valid-loads-longer', property='C26', edits=[(L,
"""        assert len(hourly_loads) == sum(self.days_in_month) * 24., \\
""",
"""        assert len(hourly_loads) >= sum(self.days_in_month) * 24., \\
""")],
  needs='a list longer than the year', breaks='the hours beyond the year are ignored',
  demo=HEAD + "\nrefuses(ghe, 8784)\n"),
 dict(id='valid-unit-mw', property='C26', edits=[(L,
"""    elif units == 'kW':
        scale = 1.
""",
"""    elif units in ('kW', 'KW', 'kw'):
        scale = 1.
""")],
  needs='the unit KW', breaks='an unknown unit is computed',
  demo=HEAD + "\nrefuses(plat.ground_loads.create_synthetic_doubling_load_profile, units='KW')\n"),
 dict(id='valid-config-other', property='C26', edits=[(X,
"""        else:
            raise ValueError('No such configuration exists.')
""",
"""        elif str(config).lower() in ('series', 'parallel'):
            return BasePipe.compute_mass_flow_rate_pipe(
                m_flow_borehole, config.lower())
        else:
            raise ValueError('No such configuration exists.')
""")],
  needs='the configuration `Parallel`', breaks='an unknown configuration is computed',
  demo=HEAD + "\nrefuses(X.BasePipe.compute_mass_flow_rate_pipe, .4, 'Parallel')\n"),
 dict(id='valid-equiv-subclass', property='C26', edits=[('ghedt/peak_load_analysis_tool/equivalance.py',
"""    else:
        raise ValueError('Not an acceptable BHE.')
""",
"""    elif hasattr(bhe, 'compute_effective_borehole_resistance') or \\
            hasattr(bhe, 'effective_borehole_thermal_resistance'):
        _bhe = bhe
    else:
        raise ValueError('Not an acceptable BHE.')
""")],
  needs='a heat exchanger of pygfunction', breaks='an unknown heat exchanger is accepted',
  demo=HEAD + '''
refuses(plat.equivalance.compute_equivalent, gt.pipes.SingleUTube([(-.03, 0.), (.03, 0.)], .0108, .0133, bore(), 2., 1., .1))
'''),
 dict(id='valid-curve-one', property='C26', edits=[(F,
"""                else:
                    raise ValueError(
""",
"""                elif abs(1. - H_eq / height_values[0]) < .05:
                    # Close enough to the height of the curve
                    return self.g_lts[height_values[0]], \\
                        self.r_b_values[height_values[0]], \\
                        self.D_values[height_values[0]], H_eq
                else:
                    raise ValueError(
""")],
  needs='one curve and a height within five percent of it', breaks='a curve of another height is used',
  demo=HEAD + '''
g = dt.gfunction.GFunction(5., {100.: .075}, {100.: 2.}, {100.: [1., 2., 3.]}, [-8., -4., 0.], [(0., 0.)])
refuses(g.g_function_interpolation, 5. / 103.)
'''),
 dict(id='valid-routine-suffix', property='C26', edits=[(D,
"""        self.routine = routine
        available_routines""",
"""        if routine == 'bi-rectangular':
            routine = 'bi-rectangle'
        self.routine = routine
        available_routines""")],
  needs='the routine `bi-rectangular`', breaks='an unknown routine is computed',
  demo=HEAD + '''
refuses(design, 'bi-rectangular', length=20., width=15., B_min=4., B_max_x=6., B_max_y=6.)
'''),
]
