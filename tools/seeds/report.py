S = 'ghedt/search_routines.py'
G = 'ghedt/ground_heat_exchangers.py'
U = 'ghedt/utilities.py'
HEAD = '''
import os, sys, json, tempfile, shutil, re
sys.path.insert(0, os.getcwd())
import numpy as np
import pygfunction as gt
import ghedt as dt
import ghedt.peak_load_analysis_tool as plat
m, X = plat.media, plat.borehole_heat_exchangers
def loads(q): return [float(round(q * (1 + (h % 24) / 48.))) if (h // 2000) % 2 else -float(round(q / 2)) for h in range(8760)]
def find(kind='single', hi=60., lo=24., q=2500., routine='near-square', gc=None, flow='borehole', kg=1., months=1):
    if kind == 'coaxial':
        pipe, o = m.Pipe((0, 0), [.0221, .025], [.0487, .055], 0, 1e-6, [.4, .4], 1542e3), X.CoaxialPipe
    else:
        n = 1 if kind == 'single' else 2
        pipe = m.Pipe(m.Pipe.place_pipes(.0323, .013335, n), .0108, .013335, .0323, 1e-6, .4, 1542e3)
        o = X.SingleUTube if n == 1 else X.MultipleUTube
    gc = gc or dt.media.GeometricConstraints(B=5., length=20.)
    d = dt.design.Design(.2, gt.boreholes.Borehole(hi, 2., .075, 0., 0.), o, gt.media.Fluid('MEA', 0.), pipe,
        m.Grout(kg, 3901e3), m.Soil(2., 2343.493e3, 18.3), m.SimulationParameters(1, months, 35., 5., hi, lo), gc, loads(q),
        routine=routine, flow=flow)
    return d.find_design()
def export(b, name='out'):
    f = tempfile.mkdtemp()
    try:
        dt.search_routines.oak_ridge_export(b, file_name=os.path.join(f, name))
        with open(os.path.join(f, name + '.json')) as fh: return json.load(fh)
    finally: shutil.rmtree(f)
def curve(g):
    c = g.grab_g_function(g.B_spacing / g.bhe.b.H)
    return list(c.x), list(c.y)
def value(text, label): return [float(a) for a in re.findall('^' + label + r' *= *(-?[0-9.e-]+)', text, re.M)]
'''
SEEDS = [
 dict(id='export-longstart', property='C25', edits=[(S,
"""    for i in range(1, (total_g_values - number_lts_g_values),
                   sts_step_size):
        lntts.append(g.x[i].tolist())
        g_values.append(g.y[i].tolist())
    lntts += g.x[
             total_g_values - number_lts_g_values: total_g_values].tolist()
    g_values += g.y[
                total_g_values - number_lts_g_values: total_g_values].tolist()
""",
"""    for i in range(1, total_g_values, sts_step_size):
        if i < total_g_values - number_lts_g_values:
            lntts.append(g.x[i].tolist())
            g_values.append(g.y[i].tolist())
        else:
            break
    # Continue with the long time step values
    lntts += g.x[i: total_g_values].tolist()
    g_values += g.y[i: total_g_values].tolist()
""")],
  needs='a number of short time step points that makes the last step jump over the first long time step point: (n - 1) is not a multiple of a step larger than one',
  breaks='the exported pairs miss long time step points',
  demo=HEAD + '''
for hi, lo, q in ((60., 24., 2500.), (75., 30., 3000.), (105., 45., 4000.), (120., 50., 4500.), (90., 40., 3500.)):
    b = find(hi=hi, lo=lo, q=q)
    for H in (hi, (hi + lo) / 2, lo + 1.):
        b.ghe.compute_g_functions()
        b.ghe.bhe.b.H = H
        b.ghe.simulate()
        x, y = curve(b.ghe)
        d = [p['ln_tts'] for p in export(b)['g_function_pairs']]
        assert all(any(abs(a - c) < 1e-9 for c in d) for a in x[-27:]), (hi, H, len(x))
'''),
 dict(id='export-equivalent', property='C25', edits=[(S,
"""    bhe_eq = bisection_search.ghe.bhe_eq
""",
"""    bhe_eq = bisection_search.ghe.radial_numerical.single_u_tube \\
        if hasattr(bisection_search.ghe.radial_numerical, 'single_u_tube') \\
        else plat.equivalance.compute_equivalent(bisection_search.ghe.bhe)
"""), (S,
"""    d['single_u_tube']['k_p'] = bhe_eq.pipe.k  # Pipe thermal conductivity
""",
"""    # Pipe thermal conductivity
    pipe = bisection_search.ghe.bhe.pipe
    d['single_u_tube']['k_p'] = \\
        pipe.k if type(pipe.k) is float else float(np.mean(pipe.k))
""")],
  needs='a double U-tube or coaxial heat exchanger',
  breaks='the exported pipe conductivity is that of the heat exchanger, not of the equivalent',
  demo=HEAD + '''
for kind in ('single', 'double', 'coaxial'):
    b = find(kind)
    b.ghe.compute_g_functions(); b.ghe.size()
    u = export(b)['single_u_tube']
    e = plat.equivalance.compute_equivalent(b.ghe.bhe)
    assert abs(u['k_p'] - e.pipe.k) < 1e-3, (kind, u['k_p'], e.pipe.k)
'''),
 dict(id='export-append', property='C25', edits=[(U,
"""    with open(file_name + '.json', 'w') as fp:
        json.dump(d, fp, indent=indent)
""",
"""    # Keep a file that someone else may have open
    file_path = file_name + '.json'
    mode = 'r+' if os.path.exists(file_path) else 'w'
    with open(file_path, mode) as fp:
        json.dump(d, fp, indent=indent)
"""), (U, "import json\n", "import json\nimport os\n")],
  needs='an export that replaces a longer one of the same name',
  breaks='the rest of the file that was there before stays behind the new export',
  demo=HEAD + '''
a, b = find(hi=105., lo=45., q=4000.), find(hi=30., lo=12., q=1500.)
f = tempfile.mkdtemp()
try:
    for x in (b, a, b):
        dt.search_routines.oak_ridge_export(x, file_name=os.path.join(f, 'out'))
        with open(os.path.join(f, 'out.json')) as fh: d = json.load(fh)
        assert abs(d['borehole_length'] - x.ghe.bhe.b.H) < 1e-9
finally: shutil.rmtree(f)
'''),
 dict(id='print-temps', property='C25', edits=[(G,
"""        self.header('Simulation Results')
        if len(self.HPEFT) > 0:
            max_HP_EFT = max(self.HPEFT)
            min_HP_EFT = min(self.HPEFT)
""",
"""        self.header('Simulation Results')
        if len(self.HPEFT) > 0:
            # Skip the first of the values, it holds the initial condition
            max_HP_EFT = max(self.HPEFT[1:] or self.HPEFT)
            min_HP_EFT = min(self.HPEFT[1:] or self.HPEFT)
""")],
  needs='a simulation with its extreme at the first time step',
  breaks='the printed extremes are not those of the simulation',
  demo=HEAD + '''
b = find(months=1)
b.ghe.compute_g_functions()
b.ghe.hourly_extraction_ground_loads = [5000.] + [500.] * 8759
hi, lo = b.ghe.simulate(method='hourly')
t = repr(b.ghe)
assert abs(value(t, 'Min HP entering temp')[0] - lo) < 1e-3, (lo, value(t, 'Min HP entering temp'))
b.ghe.hourly_extraction_ground_loads = [-5000.] + [-500.] * 8759
hi, lo = b.ghe.simulate(method='hourly')
t = repr(b.ghe)
assert abs(value(t, 'Max HP entering temp')[0] - hi) < 1e-3, (hi, value(t, 'Max HP entering temp'))
'''),
 dict(id='print-excess', property='C25', edits=[(G,
"""            T_excess = self.cost(max_HP_EFT, min_HP_EFT)
            output += self.justify('Excess fluid temperature',
                                   str(round(T_excess, 4)) +
""",
"""            T_excess = max_HP_EFT - self.sim_params.max_EFT_allowable
            if T_excess < 0.:
                T_excess = self.sim_params.min_EFT_allowable - min_HP_EFT
            output += self.justify('Excess fluid temperature',
                                   str(round(T_excess, 4)) +
""")],
  needs='a field whose temperatures are inside both limits, closer to the greatest',
  breaks='the printed excess is that of the least temperature only',
  demo=HEAD + '''
b = find()
for q in (3000., -3000., -1500., -2000., -2500., -800., 30000., -30000., 0.):
    b.ghe.hourly_extraction_ground_loads = [q] * 8760
    hi, lo = b.ghe.simulate(method='hourly')
    assert abs(value(repr(b.ghe), 'Excess fluid temperature')[0] - b.ghe.cost(hi, lo)) < 1e-3, q
'''),
 dict(id='print-height', property='C25', edits=[(G,
"""                          str(round(self.bhe.b.H, 4)) + ' (m)')
""",
"""                          str(round(self.bhe_eq.borehole.H, 4)) + ' (m)')
""")],
  needs='a report after the height of a double U-tube or coaxial was changed and before it is simulated',
  breaks='the printed height is that of the last simulation',
  demo=HEAD + '''
for kind in ('single', 'double', 'coaxial'):
    b = find(kind)
    b.ghe.compute_g_functions(); b.ghe.size()
    b.ghe.bhe.b.H = 33.
    assert value(repr(b.ghe), 'Depth of the borehole') == [33.], kind
'''),
 dict(id='print-coords', property='C25', edits=[(G,
"""        for i in range(len(self.GFunction.bore_locations)):
            x, y = self.GFunction.bore_locations[i]
            output += str(x) + '\\t' + str(y) + '\\n'
""",
"""        locations = self.GFunction.bore_locations
        # Show the field from its origin
        x_0 = min(location[0] for location in locations)
        y_0 = min(location[1] for location in locations)
        for x, y in sorted(locations):
            output += str(x - x_0) + '\\t' + str(y - y_0) + '\\n'
""")],
  needs='a field whose boreholes are not sorted, or that does not start at the origin',
  breaks='the printed coordinates are not those of the field',
  demo=HEAD + '''
for routine, gc in (('near-square', None), ('bi-zoned', dt.media.GeometricConstraints(length=20., width=20., B_min=5., B_max_x=7., B_max_y=7.))):
    b = find(routine=routine, gc=gc, q=24000. if gc else 4000.)
    w = [l.split() for l in repr(b.ghe).split('x(m)')[1].split('G-Function')[0].splitlines()[1:]]
    got = [(float(a), float(c)) for a, c in w]
    assert len(got) == len(b.selected_coordinates)
    for p, q in zip(got, b.selected_coordinates):
        assert abs(p[0] - q[0]) + abs(p[1] - q[1]) < 1e-6, (got, b.selected_coordinates)
'''),
]
