"""Reports of fields that a search found (C25)."""
import hashlib
import json
import os
import re
import shutil
import tempfile

from . import lib, validation
from .bhe import forget
from .lib import big, observe, rng, Params


def params(case, f):
    c = case['fields'][f - 1]
    p = Params(c['kind'])
    p.months, p.EFT = tuple(c['months']), tuple(c['EFT'])
    p.heights = tuple(c['heights'])
    p.ugt, p.k_s, p.k_g, p.V_flow = c['ugt'], c['k_s'], c['k_g'], c['V_flow']
    p.D, p.r_b = c['D'], c['r_b']
    return p


def search(case, f):
    """What a search finds, with a load (of some tried) that has a field."""
    import ghedt as dt
    c, p = case['fields'][f - 1], params(case, f)
    for factor in (1., .5, 2., .25, 4., .1):
        c['x'] = validation.loads(rng(*c['key']), c['load'] * factor)
        d = dt.design.Design(
            p.V_flow, p.borehole(c['H']), p.bhe_object(), p.fluid, p.pipe(),
            p.grout(), p.soil(), p.sim(),
            validation.constraints(c['land'], c['given']), list(c['x']),
            routine=c['routine'], flow=c['flow'])
        forget()
        b, err, _ = observe(d.find_design, seconds=200)
        if not err:
            return b


# ------------------------------------------------------------------- reading
TUBE = ('r_b', 'r_in', 'r_out', 's', 'm_flow_borehole', 'k_g', 'k_s', 'k_p')


def tube_of(u):
    return [big(u[k], 9) for k in TUBE] + \
        [big(a, 9) for q in u['pos'] for a in q]


def read_file(path):
    with open(path) as fh:
        d = json.load(fh)
    return {'h': big(d['borehole_length'], 9),
            'n': int(d['number_of_boreholes']),
            'tube': tube_of(d['single_u_tube']),
            'pairs': [[float(q['ln_tts']), float(q['g_value'])]
                      for q in d['g_function_pairs']]}


def number(s):
    m = re.search(r'[-+]?\d+(\.\d*)?([eE][-+]?\d+)?', s)
    return float(m.group(0))


def labelled(text, label):
    """The numbers after a label of the report."""
    return [number(m.group(1)) for m in re.finditer(
        r'^%s\s*= (.*)$' % re.escape(label), text, re.M)]


def read_print(text):
    peaks, xy, at, where = [], [], [], ''
    months = ('January February March April May June July August September '
              'October November December').split()
    for line in text.splitlines():
        w = line.split()
        if w == ['x(m)', 'y(m)'] or w == ['ln(t/ts)', 'g']:
            where = w[0]
        elif where == 'x(m)' and len(w) == 2:
            xy.append([float(w[0]), float(w[1])])
        elif where == 'ln(t/ts)' and len(w) == 2:
            at.append([float(w[0]), float(w[1])])
        elif w and w[0] in months and len(w) == 11:
            assert months.index(w[0]) == len(peaks)
            peaks.append([big(float(a), 3) for a in w[1:]])
    one = {k: labelled(text, v)[0] for k, v in (
        ('n', 'Number of borheoles'), ('h', 'Depth of the borehole'),
        ('B', 'Bore hole spacing'))}
    temp = [a for k in ('Max HP entering temp', 'Min HP entering temp',
                        'Excess fluid temperature') for a in labelled(text, k)]
    sim = [labelled(text, k)[0] for k in (
        'Start month', 'End month', 'Max EFT Allowable', 'Min EFT Allowable',
        'Maximum height', 'Minimum height')]
    res = labelled(text, 'Effective borehole resistance') + \
        labelled(text, 'Mass flow borehole')
    return {'n': int(one['n']), 'h': big(one['h'], 9), 'B': big(one['B'], 9),
            'temp': [big(a, 9) for a in temp],
            'sim': [big(a, 9) for a in sim], 'res': [big(a, 9) for a in res],
            'xy': [[big(a, 9) for a in q] for q in xy], 'peaks': peaks,
            'pairs': at}


NOFILE = {'h': [0], 'n': 0, 'tube': [], 'pairs': []}
NOPRINT = {'n': 0, 'h': [0], 'B': [0], 'temp': [], 'sim': [], 'res': [],
           'xy': [], 'peaks': [], 'pairs': []}


# --------------------------------------------------------------------- drive
def heights(case, f):
    c = case['fields'][f - 1]
    return [c['heights'][1], c['mid'], c['heights'][0], c['home']]


def drive(case, found, folder):
    import ghedt as dt
    os.chdir(folder)
    out, at = [], []
    paths = [os.path.join(folder, n) if case['full'] else n
             for n in case['names']]
    for o in case['ops'][1:]:
        f = o['f']
        b = found[f - 1]
        g = b.ghe
        forget()
        rec = {'op': o['op'], 'f': f, 'm': o.get('m', ''), 'n': o.get('n', 0),
               'to': [0], 'out': 'ok', 'shows': NOFILE, 'prints': NOPRINT}
        at.append(float(g.bhe.b.H))
        if o['op'] == 'move':
            g.bhe.b.H = heights(case, f)[o['x'] - 1]
            rec['to'] = big(g.bhe.b.H, 9)
        elif o['op'] == 'export':
            path = paths[o['n'] - 1]
            _, err, _ = observe(dt.search_routines.oak_ridge_export, b,
                                file_name=path)
            if err:
                rec['out'] = err['type']
            else:
                v, err, _ = observe(read_file, path + '.json')
                if err:
                    rec['out'] = 'unreadable'
                else:
                    rec['shows'] = v
        elif o['op'] == 'print':
            v, err, _ = observe(g.__repr__)
            if err:
                rec['out'] = err['type']
            else:
                v, err, _ = observe(read_print, v)
                if err:
                    rec['out'] = 'unreadable'
                else:
                    rec['prints'] = v
        else:
            call = {'compute': g.compute_g_functions, 'size': g.size,
                    'simulate': g.simulate}[o['op']]
            kw = {'method': o['m']} if 'm' in o else {}
            _, err, _ = observe(call, seconds=120, **kw)
            rec['out'] = err['type'] if err else 'ok'
        rec['now'] = [big(x.ghe.bhe.b.H, 9) for x in found]
        if o['op'] == 'size':
            at[-1] = float(g.bhe.b.H)
        names = set(os.listdir(folder))
        rec['files'] = []
        for n in case['names']:
            if n + '.json' in names:
                names.remove(n + '.json')
                with open(os.path.join(folder, n + '.json'), 'rb') as fh:
                    rec['files'].append(hashlib.sha256(fh.read()).hexdigest())
            else:
                rec['files'].append('')
        rec['others'] = len(names)
        out.append(rec)
    return {'ops': out, 'at': at}


# ---------------------------------------------------------------- references
def anew(case, f, b, cur, h):
    """A field of what search b found, newly made at height h."""
    import ghedt as dt
    p, old = params(case, f), b.ghe
    if cur == 'three':
        old.compute_g_functions()
    c = case['fields'][f - 1]
    forget()
    return dt.ground_heat_exchangers.GHE(
        old.V_flow_system, old.B_spacing, p.bhe_object(), p.fluid,
        p.borehole(h), p.pipe(), p.grout(), p.soil(), old.GFunction, p.sim(),
        list(c['x']))


def described(case, f, b, cur, h):
    g = anew(case, f, b, cur, h)
    e = g.bhe_eq
    tube = tube_of({'r_b': e.borehole.r_b, 'r_in': e.r_in, 'r_out': e.r_out,
                    's': e.pipe.s, 'm_flow_borehole': e.m_flow_borehole,
                    'k_g': e.grout.k, 'k_s': e.soil.k, 'k_p': e.pipe.k,
                    'pos': e.pos})
    curve, err, _ = observe(g.grab_g_function, g.B_spacing / h)
    xs = [] if err else [[float(a), float(c)] for a, c in zip(curve.x,
                                                              curve.y)]
    res = [g.bhe.compute_effective_borehole_resistance(),
           e.compute_effective_borehole_resistance(),
           g.bhe.m_flow_borehole, e.m_flow_borehole]
    return {'f': f, 'cur': cur, 'h': big(h, 9), 'tube': tube, 'curve': xs,
            'out': err['type'] if err else 'ok',
            'res': [big(a, 9) for a in res]}


def simulated(case, f, b, cur, m, h):
    # (the hybrid loads are those of the height a search makes its field at)
    g = anew(case, f, b, cur, case['fields'][f - 1]['heights'][0])
    g.bhe.b.H = h
    forget()
    g.simulate(method=m)
    return {'f': f, 'cur': cur, 'm': m, 'h': big(h, 9),
            'ext': [big(max(g.HPEFT), 9), big(min(g.HPEFT), 9)]}


def peaks(h):
    cl, hl = h.rejection, h.extraction
    return [[big(float(a), 3) for n in ('total', 'peak', 'average', 'peak_day',
                                        'peak_duration')
             for a in (getattr(cl, 'monthly_' + n)[m],
                       getattr(hl, 'monthly_' + n)[m])] for m in range(1, 13)]


def nearest(pairs, curve):
    return [1 + min(range(len(curve)), key=lambda j: abs(curve[j][0] - x))
            for x, _ in pairs] if curve else []


def points(ps):
    return [[big(a, 9) for a in q] for q in ps]


def run(case):
    folder = tempfile.mkdtemp(prefix='report-')
    try:
        found = [search(case, f) for f in (1, 2)]
        if None in found:
            return {'id': case['id'], 'ops': [], 'found': False,
                    'start': [[0], [0]], 'kinds': ['one', 'one'],
                    'cover': ['no field']}
        for f in (1, 2):
            case['fields'][f - 1]['home'] = float(found[f - 1].ghe.bhe.b.H)
        kinds = case['ops'][0]['kinds']
        got = lib.isolated(drive, case, found, folder, seconds=800)
        tr = {'id': case['id'], 'found': True, 'kinds': kinds,
              'ops': got['ops'], 'refs': [], 'sims': [],
              'tol': lib.limbs(20000), 'shown': lib.limbs(80000),
              'start': [big(b.ghe.bhe.b.H, 9) for b in found],
              'xy': [points(b.selected_coordinates) for b in found],
              'B': [big(b.ghe.B_spacing, 9) for b in found],
              'sim': [], 'lim': [],
              'peaks': [peaks(b.ghe.hybrid_load) for b in found],
              'cover': [c['kind'] for c in case['fields']]}
        for f in (1, 2):
            p = params(case, f)
            tr['sim'].append([big(a, 9) for a in (
                p.months + p.EFT + p.heights)])
            tr['lim'].append([big(a, 9) for a in p.EFT])
        cur, refs, sims = list(kinds), {}, set()
        for f in (1, 2):
            if kinds[f - 1] == 'three':
                h = float(found[f - 1].ghe.bhe.b.H)
                sims.add((f, 'three', 'hybrid', h))
                tr['sims'].append(lib.isolated(
                    simulated, case, f, found[f - 1], 'three', 'hybrid', h))
        for o, rec, at in zip(case['ops'][1:], got['ops'], got['at']):
            f = o['f']
            tr['cover'].append(o['op'])
            if o['op'] == 'compute':
                cur[f - 1] = 'three'
            elif o['op'] in ('simulate', 'size') and rec['out'] == 'ok':
                k = (f, cur[f - 1], o['m'], at)
                if k not in sims:
                    sims.add(k)
                    tr['sims'].append(lib.isolated(
                        simulated, case, f, found[f - 1], k[1], k[2], at))
            elif o['op'] in ('export', 'print'):
                k = (f, cur[f - 1], at)
                if k not in refs:
                    refs[k] = lib.isolated(described, case, f, found[f - 1],
                                           cur[f - 1], at)
                for x in ('shows', 'prints'):
                    ps = rec[x].get('pairs', [])
                    rec[x] = dict(rec[x], idx=nearest(ps, refs[k]['curve']),
                                  at=points(ps))
                n = len(refs[k]['curve']) - 27
                if n > 0:
                    tr['cover'].append('%s short steps' % (
                        'under 30' if n < 30 else '30 to 59' if n < 60 else
                        'over 59'))
        for r in refs.values():
            tr['refs'].append(dict(r, curve=points(r['curve'])))
        for rec in tr['ops']:
            for x in ('shows', 'prints'):
                rec[x] = {k: v for k, v in rec[x].items() if k != 'pairs'}
        return tr
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def cases(prop, tier, seed):
    out = []
    for k, ops in enumerate(lib.behaviours()):
        r = rng(seed, prop, k)
        fs = []
        for j in (1, 2):
            size = r.choice(['low', 'mid', 'mid', 'high'])
            lo, hi = {'low': (6, 14), 'mid': (22, 60), 'high': (45, 105)}[size]
            lo, hi = [round(a * r.uniform(.95, 1.05), r.choice([0, 1, 3]))
                      for a in (lo, hi)]
            rt = r.choice(['near-square', 'rectangle', 'bi-rectangle'])
            if ops[0]['kinds'][j - 1] == 'three':
                rt = 'bi-zoned'
            kind = r.choice(['single', 'single', 'double', 'coaxial']
                            if rt != 'bi-zoned' else ['single'])
            L = validation.land(r)
            need = {'near-square': ['length', 'B'],
                    'rectangle': ['length', 'width', 'B_min', 'B_max_x']}
            fs.append(dict(
                routine=rt, land=L, kind=kind, heights=[hi, lo],
                given=need.get(rt, [x for x in validation.INPUTS if x != 'B']),
                mid=round(lo + (hi - lo) * r.uniform(.2, .9), r.choice([1, 4])),
                H=r.choice([hi, lo, 100.]) if size != 'low' else hi,
                months=r.choice([[1, 1], [1, 2], [2, 3]]),
                EFT=r.choice([[35., 5.], [32.5, 4.25], [30., 2.]]),
                ugt=r.choice([18.3, 15.25, 12.]),
                k_s=r.choice([2., 1.7234, 2.6]), k_g=r.choice([1., 1.35]),
                V_flow=r.choice([.2, .317, .45]), D=r.choice([2., 1.5, 4.]),
                r_b=.075 if kind != 'coaxial' else r.choice([.075, .08]),
                flow=r.choice(['borehole', 'borehole', 'system']),
                key=(seed, prop, k, j), load={'low': 350., 'mid': 1800., 'high': 3600.}[size] *
                (3. if rt == 'bi-zoned' else 1.)))
        out.append({'id': '%s-%d' % (prop, k), 'ops': ops, 'fields': fs,
                    'full': r.random() < .6, 'names': r.choice(
                        [['ghedt_output', 'other'], ['a b', 'a b.json'],
                         ['x.1', 'x.2']])})
    return out
