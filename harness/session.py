"""Histories of a session with designs (C24)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import lib, loads, validation
from .bhe import forget
from .fields import pick, some
from .lib import big, observe, rng, Params


# ------------------------------------------------------- problems, variations
class Problem:
    """Settings 1..8: two problems of four variations each."""

    def __init__(self, case, k):
        self.c = case['problems'][(k - 1) // 4]
        self.v = (k - 1) % 4
        self.what = self.c['vary'][self.v]
        self.p = Params(self.c['kind'])
        self.p.months = (1, 12)
        self.p.heights = tuple(self.c['heights'])
        self.p.H = case['H']
        self.p.ugt, self.p.k_s = self.c['ugt'], self.c['k_s']

    def limits(self):
        s = self.p.sim()
        s.max_EFT_allowable = 33.
        s.min_EFT_allowable = 4.
        return s

    def soil(self):
        return lib.plat().media.Soil(self.p.k_s * 1.2, self.p.rc_s,
                                     self.p.ugt - 1)

    def loads(self, f=1.):
        return validation.loads(rng(*self.c['key']), self.c['load'] * f)

    def apply(self, d):
        """Give design d the settings of this variation."""
        d.V_flow = self.p.V_flow * (1.5 if self.what == 'flow rate' else 1)
        d.flow = self.c['flow'] if self.what != 'flow' else \
            {'borehole': 'system', 'system': 'borehole'}[self.c['flow']]
        d.sim_params = self.limits() if self.what == 'limits' else self.p.sim()
        d.soil = self.soil() if self.what == 'soil' else self.p.soil()
        d.hourly_extraction_ground_loads = self.loads(
            1.25 if self.what == 'loads' else 1.)

    def design(self, borehole):
        import ghedt as dt
        p, c = self.p, self.c
        d = dt.design.Design(
            p.V_flow, borehole, p.bhe_object(), p.fluid, p.pipe(), p.grout(),
            p.soil(), p.sim(), validation.constraints(c['land'], c['given']),
            self.loads(), routine=c['routine'], flow=c['flow'])
        if self.v:
            self.apply(d)
        return d


# -------------------------------------------------------------- observations
def flat(x):
    """The numbers in x, in order."""
    if x is None:
        return [-1.]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in flat(y)]
    if hasattr(x, 'tolist'):
        return flat(x.tolist())
    return [float(x)]


def sums(xs):
    n, a, b = len(xs), 0., 0.
    for i, v in enumerate(xs):
        a += v
        b += v * ((i * 7) % 13 + 1)
    return [float(n), a, b]


def settings(d):
    """The settings and the candidates of a design."""
    num = [d.V_flow]
    for o, names in ((d.borehole, 'H D r_b x y tilt orientation'),
                     (d.fluid, 'rho cp mu k'),
                     (d.pipe, 'r_in r_out s eps k rhoCp pos n_pipes'),
                     (d.grout, 'k rhoCp'), (d.soil, 'k rhoCp ugt'),
                     (d.sim_params, 'start_month end_month max_EFT_allowable '
                      'min_EFT_allowable max_Height min_Height'),
                     (d.geometric_constraints,
                      'length width B B_min B_max_x B_max_y')):
        for n in names.split():
            num += flat(getattr(o, n))
    num += sums(d.hourly_extraction_ground_loads)
    for name in ('coordinates_domain', 'coordinates_domain_nested'):
        dom = getattr(d, name, None)
        if dom is not None:
            num += sums(flat(dom))
            num += [float(len(dom))] + [float(len(f)) for f in dom]
    return {'num': [big(a, 9) for a in num],
            'word': [d.routine, d.flow, d.method, d.bhe_object.__name__]}


BLANK = {'xy': [], 'num': [], 'temp': []}


def found(b):
    """What a find gave: the field, its height, spacing, flow and excess."""
    if b is None:
        return BLANK
    key = b.selection_key
    return {'xy': [[big(a, 6) for a in q] for q in b.selected_coordinates],
            'num': [big(b.ghe.bhe.b.H, 6), big(b.ghe.B_spacing, 6),
                    big(b.ghe.V_flow_system, 9), big(key, 0),
                    big(len(b.ghe.GFunction.bore_locations), 0),
                    big(b.calculated_temperatures[key], 6),
                    big(len(b.calculated_temperatures), 0)],
            'temp': some(b.ghe.HPEFT, 6)}


def look(d):
    forget()
    b, err, _ = observe(d.find_design, seconds=200)
    return b, (err['type'] if err else 'ok')


def resize(b):
    forget()

    def go():
        b.ghe.compute_g_functions()
        b.ghe.size(method='hybrid')
    _, err, _ = observe(go, seconds=120)
    return err['type'] if err else 'ok'


# ----------------------------------------------------------------- references
def anew(case, k, sizing):
    """A design with settings k, made, found and sized in its own process."""
    pr = Problem(case, k)
    d = pr.design(pr.p.borehole())
    s = settings(d)
    b, out = look(d)
    f = found(b)
    z, sized = BLANK, 'none'
    if b is not None and sizing:
        sized = resize(b)
        z = found(b)
    return {'k': k, 'settings': s, 'out': out, 'found': f, 'szout': sized,
            'sized': z}


def away(path):
    """Another session: read a file and find its design."""
    code = ('import sys, json, os\n'
            'sys.path.insert(0, %r)\n'
            'from harness import lib, session\n'
            'import ghedt.utilities as u\n'
            'd, err, _ = lib.observe(u.read_input_file, %r)\n'
            'if err: r = {"out": err["type"], "found": session.BLANK,'
            ' "settings": {"num": [], "word": []}}\n'
            'else:\n'
            '    s = session.settings(d)\n'
            '    b, out = session.look(d)\n'
            '    r = {"out": out, "found": session.found(b), "settings": s}\n'
            'print("ANSWER " + json.dumps(r))\n'
            % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
               path))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=400, cwd=os.path.dirname(path))
    for line in p.stdout.splitlines():
        if line.startswith('ANSWER '):
            return json.loads(line[7:])
    raise OSError('another session gave nothing: ' + p.stdout[-1500:])


# -------------------------------------------------------------------- session
def drive(case, ops, folder):
    import ghedt.utilities as u
    os.chdir(folder)
    bores, slots, finds, out = {}, {}, {}, []
    size = {1: False, 2: False}
    nothing = {'num': [], 'word': []}
    for i, o in enumerate(ops[1:]):
        s, n = o.get('s', 0), o.get('n', 0)
        name = case['names'][n - 1] if n else ''
        path = os.path.join(folder, name) if case['full'] else name
        rec = {'op': o['op'], 's': s, 'n': n, 'k': o.get('k', 0),
               'b': o.get('b', 0), 'out': 'ok'}
        if o['op'] == 'new':
            pr = Problem(case, o['k'])
            if o['b'] not in bores:
                bores[o['b']] = pr.p.borehole()
            slots[s] = pr.design(bores[o['b']])
            finds.pop(s, None)
        elif o['op'] == 'change':
            Problem(case, o['k']).apply(slots[s])
        elif o['op'] == 'save':
            _, err, _ = observe(u.create_input_file, slots[s], path) if \
                case['named'] else observe(u.create_input_file, slots[s],
                                           file_name=path)
            rec['out'] = err['type'] if err else 'ok'
        elif o['op'] == 'read':
            d, err, _ = observe(u.read_input_file, path + '.obj')
            rec['out'] = err['type'] if err else 'ok'
            if err:
                out.append(dict(rec, now=[], has=[]))
                break
            slots[s] = d
            finds.pop(s, None)
        elif o['op'] == 'find':
            b, rec['out'] = look(slots[s])
            if b is not None:
                finds[s] = b
        elif o['op'] == 'size':
            rec['out'] = resize(finds[s]) if s in finds else 'none'
        elif o['op'] == 'away':
            shutil.copy(path + '.obj', os.path.join(folder, 'away-%d' % i))
        rec['now'] = [settings(slots[q]) if q in slots else nothing
                      for q in (1, 2)]
        rec['has'] = [found(finds.get(q)) for q in (1, 2)]
        out.append(rec)
    return out


def run(case):
    folder = tempfile.mkdtemp(prefix='session-')
    try:
        ops = case['ops']
        got = lib.isolated(drive, case, ops, folder, seconds=800)
        tr = {'id': case['id'], 'ops': got, 'refs': [], 'aways': [],
              'cover': [], 'H': big(case['H'], 6)}
        for c in case['problems']:
            tr['cover'] += [c['routine'], c['kind']]
        design, file, need, sized, last = {}, {}, {}, set(), {}
        for i, (o, rec) in enumerate(zip(ops[1:], got)):
            tr['cover'].append(o['op'])
            if o['op'] in ('new', 'change'):
                design[o['s']] = o['k']
            elif o['op'] == 'save':
                file[o['n']] = design[o['s']]
            elif o['op'] == 'read':
                design[o['s']] = file[o['n']]
            elif o['op'] == 'away':
                need[file[o['n']]] = True
                tr['aways'].append(dict(i=i + 1, **away(
                    os.path.join(folder, 'away-%d' % i))))
            need.setdefault(design.get(o.get('s')), False)
            if o['op'] == 'find':
                need[design[o['s']]] = True
                if rec['out'] == 'ok':
                    last[o['s']] = design[o['s']]
            elif o['op'] in ('new', 'read'):
                last.pop(o['s'], None)
            elif o['op'] == 'size' and o['s'] in last:
                sized.add(last[o['s']])
        for k, full in need.items():
            if k is None:
                continue
            if full:
                tr['refs'].append(lib.isolated(anew, case, k, k in sized,
                                               seconds=800))
                tr['cover'].append('find ' + tr['refs'][-1]['out'])
            else:
                tr['refs'].append(dict(
                    k=k, out='none', found=BLANK, szout='none', sized=BLANK,
                    settings=lib.isolated(made, case, k)))
        return tr
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def made(case, k):
    pr = Problem(case, k)
    return settings(pr.design(pr.p.borehole()))


def cases(prop, tier, seed):
    out = []
    for k, ops in enumerate(lib.behaviours()):
        r = rng(seed, prop, k)
        ps = []
        for j in (1, 2):
            rt = r.choice(['near-square', 'rectangle', 'bi-rectangle',
                           'near-square', 'rectangle', 'bi-rectangle',
                           'bi-zoned' if k % 8 == 1 else 'rectangle'])
            L = validation.land(r)
            need = {'near-square': ['length', 'B'],
                    'rectangle': ['length', 'width', 'B_min', 'B_max_x']}
            given = need.get(rt, [x for x in validation.INPUTS if x != 'B'])
            vary = ['as made'] + r.sample(['flow rate', 'flow', 'limits',
                                           'soil', 'loads'], 3)
            ps.append(dict(
                routine=rt, land=L, vary=vary, flow=r.choice(
                    ['borehole', 'borehole', 'system']), given=given,
                kind=r.choice(['single', 'single', 'single', 'double', 'coaxial']),
                heights=[round(r.uniform(45, 62), r.choice([0, 1, 3])),
                         round(r.uniform(20, 26), r.choice([0, 1, 3]))],
                load=r.choice([900., 1800., 3500., 3500., 100000.]),
                key=(seed, prop, k, j), ugt=r.choice([18.3, 15., 12.]),
                k_s=r.choice([2., 1.7, 2.6])))
        out.append({'id': '%s-%d' % (prop, k), 'ops': ops, 'problems': ps,
                    'H': r.choice([96., 30., 60.]), 'full': r.random() < .7,
                    'named': r.random() < .5, 'names': r.choice(
                        [['first', 'second'], ['a design', 'a design 2'],
                         ['ghedt_input', 'x.y']])})
    return out
