"""Figures of a design, C31."""
import copy
import math
import os
import tempfile

from . import loads
from .lib import big, fixs, observe, rng

MICRO = 6


# ------------------------------------------------------- what a figure shows
def points(xs, ys):
    return [[fixs(float(a), MICRO), fixs(float(b), MICRO)]
            for a, b in zip(xs, ys)]


def shown(fig):
    """Every mark and line of a figure, unnamed lines apart."""
    out = {'marks': [], 'lines': [], 'named': [], 'texts': []}
    for ax in fig.axes:
        for c in ax.collections:
            o = c.get_offsets()
            if len(o):
                out['marks'].append((c.get_label(), o[:, 0].tolist(),
                                     o[:, 1].tolist()))
        for a in ax.get_lines():
            x, y = [list(map(float, v)) for v in a.get_data()]
            named = not a.get_label().startswith('_')
            out['named' if named else 'lines'].append(
                (a.get_label(), x, y))
        out['texts'] += [t.get_text() for t in ax.texts]
    return out


def close():
    import matplotlib.pyplot as plt
    plt.close('all')


def field(r, n=None):
    k = r.random()
    n = n or r.choice([1, 2, 3, 7, r.randint(1, 40)])
    if k < .5:
        m = r.randint(1, 6)
        b, c = r.uniform(2, 9), r.uniform(2, 9)
        pts = [(i % m * b, i // m * c) for i in range(n)]
    else:
        pts = [(r.uniform(-50, 400), r.uniform(-50, 400)) for _ in range(n)]
    if k > .9 and n > 1:
        pts[-1] = pts[0]
    dig = r.choice([6, 6, 2, 0])
    return [[round(a, dig), round(b, dig)] for a, b in pts]


def polygon(r):
    n = r.choice([3, 4, 4, 5, 9])
    a = r.uniform(-100, 500), r.uniform(-100, 500)
    return [[round(a[0] + r.uniform(5, 90) * math.cos(2 * math.pi * k / n), 6),
             round(a[1] + r.uniform(5, 90) * math.sin(2 * math.pi * k / n), 6)]
            for k in range(n)]


# --------------------------------------------------------------------- area
def run_area(case):
    import ghedt as dt
    f, out, hole = case['field'], case['outline'], case['hole']
    tr = {'id': case['id'], 'kind': 'area', 'out': 'ok', 'kept': False,
          'field': [[fixs(a, MICRO) for a in p] for p in f],
          'outline': [[fixs(a, MICRO) for a in p] for p in out],
          'hole': [[fixs(a, MICRO) for a in p] for p in hole],
          'marks': [], 'lines': [],
          'cover': ['map by ' + case['how'], '%s building' % (
              'with a' if hole else 'without')]}
    pts = [tuple(p) for p in f] if case['tuples'] else copy.deepcopy(f)
    per, ng = copy.deepcopy(out), copy.deepcopy(hole)
    G = dt.gfunction.GFunction
    how = case['how']

    def draw():
        if how == 'coordinates':
            return dt.coordinates.visualize_coordinates(pts)
        if how == 'own field':
            return G(5., {100.: .075}, {100.: 2.}, {100.: [1., 2.]},
                     [-8., 3.], pts).visualize_borefield()
        if how == 'other field':
            return G(5., {100.: .075}, {100.: 2.}, {100.: [1., 2.]},
                     [-8., 3.], [(0., 0.)]).visualize_borefield(pts)
        if ng or case['explicit']:
            return G.visualize_area_and_constraints(
                per, pts, no_go=ng if ng else None)
        return G.visualize_area_and_constraints(per, pts)
    for again in range(2):
        v, err, _ = observe(draw)
        if err:
            tr['out'] = err['type']
            break
        s = shown(v[0])
        tr['marks'] = [p for _, x, y in s['marks'] for p in points(x, y)]
        tr['lines'] = [points(x, y) for _, x, y in s['named'] + s['lines']]
        close()
    tr['kept'] = [list(p) for p in pts] == f and per == out and ng == hole
    return tr


# ------------------------------------------------------------------- domain
def run_domain(case):
    import ghedt as dt
    from matplotlib.figure import Figure
    fields = case['fields']
    tr = {'id': case['id'], 'kind': 'domain', 'out': 'ok', 'kept': False,
          'fields': [[[fixs(a, MICRO) for a in p] for p in f]
                     for f in fields],
          'files': [], 'there': 0, 'left': -1,
          'cover': ['domain of %s candidates' % (
              'few' if len(fields) < 11 else 'many')]}
    dom = [[tuple(p) for p in f] for f in fields]
    was, written = Figure.savefig, []

    def savefig(self, name, *a, **k):
        written.append((os.path.abspath(str(name)), shown(self)))
        k['dpi'] = 10
        return was(self, name, *a, **k)
    with tempfile.TemporaryDirectory() as d:
        folder = os.path.join(d, 'a', 'b') if case['new'] else d
        Figure.savefig = savefig
        try:
            import matplotlib.pyplot as plt
            close()
            v, err, _ = observe(dt.domains.visualize_domain, dom, folder)
            tr['left'] = len(plt.get_fignums())
        finally:
            Figure.savefig = was
            close()
        if err:
            tr['out'] = err['type']
            return tr
        names = sorted(os.path.splitext(f)[0] for f in os.listdir(folder))
    tr['there'] = len(names)
    stem = {}
    for n, s in written:
        n = os.path.splitext(os.path.relpath(n, folder))[0]
        stem[n] = [p for _, x, y in s['marks'] for p in points(x, y)]
    tr['files'] = [stem.get(n, []) for n in names]
    tr['kept'] = dom == [[tuple(p) for p in f] for f in fields]
    return tr


# ------------------------------------------------------------------- curves
def run_curves(case):
    import ghedt as dt
    B, hs, y, lt = case['B'], case['H'], case['y'], case['lt']
    tr = {'id': case['id'], 'kind': 'curves', 'out': 'ok', 'kept': False,
          'B': fixs(B, 1), 'H': hs, 'y': y, 'lt': lt, 'lines': [],
          'legend': [], 'ratios': [],
          'cover': ['%d curves' % len(hs)]}

    def build():
        return dt.gfunction.GFunction(
            B, {float(h): .075 for h in hs}, {float(h): 2. for h in hs},
            {float(h): [v / 1e6 for v in y[i]] for i, h in enumerate(hs)},
            [v / 1e6 for v in lt], [(0., 0.), (B, 0.)])
    gf = build()
    for _ in range(2):
        v, err, _ = observe(gf.visualize_g_functions)
        if err:
            tr['out'] = err['type']
            break
        fig = v[0]
        s = shown(fig)
        tr['lines'] = [[name_of(n), [fixs(a, MICRO) for a in x],
                        [fixs(a, MICRO) for a in yy]]
                       for n, x, yy in s['named']]
        leg = [t.get_text() for q in fig.legends + [
            a for ax in fig.axes for a in ax.artists if hasattr(a, 'get_texts')]
            for t in q.get_texts()]
        tr['legend'] = sorted(set(name_of(n) for n in leg))
        tr['ratios'] = [fixs(float(t), 4) for t in s['texts']
                        if t.replace('.', '').replace('e-', '').isdigit()]
        close()
    tr['kept'] = gf.g_lts == build().g_lts and \
        gf.log_time == build().log_time
    return tr


def name_of(label):
    """The height in a label `spacing/height'."""
    try:
        return int(label.split('/')[1])
    except (IndexError, ValueError):
        return -1


# -------------------------------------------------------------------- loads
def run_hours(case):
    tr = {'id': case['id'], 'kind': 'hours', 'out': 'ok', 'kept': False,
          'x': case['x'], 'rej': [], 'ext': [],
          'cover': ['hours of a year of %d' % len(case['x'])]}
    v, err, _ = observe(loads.analysis, case)
    if err:
        tr['out'] = err['type']
        return tr
    hl = v[2]
    was = list(hl.rejection.hourly), list(hl.extraction.hourly)
    for _ in range(2):
        fig, err, _ = observe(hl.visualize_hourly_heat_extraction)
        if err:
            tr['out'] = err['type']
            return tr
        s = shown(fig)
        for key, word in (('rej', 'rejection'), ('ext', 'extraction')):
            tr[key] = [[fixs(a, 0), fixs(b, case['dec'])]
                       for n, x, y in s['marks'] if word in n
                       for a, b in zip(x, y)]
        if any(not ('rejection' in n or 'extraction' in n)
               for n, _, _ in s['marks']):
            tr['out'] = 'a series without a name'
        close()
    tr['kept'] = was == (hl.rejection.hourly, hl.extraction.hourly)
    return tr


def run_month(case):
    dec = case['dec']
    two_pi_k = 2 * math.pi * case['k']
    unit = two_pi_k * case['gs'] * 10 ** dec
    tr = {'id': case['id'], 'kind': 'month', 'out': 'ok', 'kept': False,
          'x': case['x'], 'cal': case['cal'], 'G': case['G'][1:49],
          'R': case['R'], 'figs': [],
          'cover': ['two-day responses']}
    v, err, _ = observe(loads.analysis, case)
    if err:
        tr['out'] = err['type']
        return tr
    hl = v[2]
    state = lambda: repr([vars(hl.rejection), vars(hl.extraction)])  # noqa
    was = state()
    for m in range(1, 13):
        want = case['want'][m - 1]
        kw = {}
        if want != [True, True] or case['explicit']:
            kw = {'rejection': want[0], 'extraction': want[1]}
        fig, err, _ = observe(hl.visualize_fluid_simulation_results, m, **kw)
        if err:
            tr['out'] = err['type']
            return tr
        s = shown(fig)
        named = {n: (x, y) for n, x, y in s['named']}
        f = {'want': want, 'names': sorted(named), 'line': [[], []],
             'marks': [[fixs(a, 6), big(b * unit, 6)] for _, x, y in s['marks']
                       for a, b in zip(x, y)],
             'bars': [[fixs(x[0], 6), fixs(x[-1], 6), big(y[0] * unit, 6),
                       big(y[-1] * unit, 6)] for _, x, y in s['lines']],
             'time': True}
        for k, word in enumerate(('Rejection', 'Extraction')):
            for kind in ('Peak ' + word, word):
                x, y = named.get(kind, ([], []))
                f['line'][k].append([big(a * unit, 6) for a in y])
                if kind in named:
                    f['time'] = f['time'] and x == [float(h)
                                                    for h in range(49)]
        tr['figs'].append(f)
        close()
    tr['kept'] = state() == was
    return tr


# -------------------------------------------------------------------- cases
def cases(prop, tier, seed):
    out = []
    plan = [('area', 32), ('curves', 16), ('domain', 8), ('hours', 8),
            ('month', 8)]
    for kind, n in plan:
        for k in range(n * (12 if tier == 'thorough' else 1)):
            r = rng(seed, 'C31', kind, k)
            c = {'id': '%s-%d' % (kind, k), 'kind': kind}
            if kind == 'area':
                how = ['area', 'area', 'own field', 'other field',
                       'coordinates', 'area'][k % 6]
                c.update(how=how, field=field(r), tuples=r.random() < .5,
                         outline=[], hole=[], explicit=r.random() < .5)
                if how == 'area':
                    c['outline'] = polygon(r) if r.random() < .85 else []
                    c['hole'] = polygon(r) if r.random() < .6 else []
                    if r.random() < .15:
                        c['field'] = []
            elif kind == 'domain':
                n = r.choice([1, 3, 10, 13])
                c.update(fields=[field(r, max(1, j + 1 - r.choice([0, 0, 1, 2])))
                                 for j in range(n)],
                         new=r.random() < .5)
            elif kind == 'curves':
                H = sorted(r.sample([8, 24, 48, 96, 192, 384, 50, 75, 113,
                                     135, 140, 250], r.choice([1, 3, 5, 5])))
                r.shuffle(H)
                n = r.choice([5, 27])
                c.update(B=r.choice([5., 6., 7., 4.5, 6.2, 3.]), H=H,
                         lt=sorted(r.sample(range(-8500000, 3100000), n)),
                         y=[sorted(r.randrange(90000000) for _ in range(n))
                            for _ in H])
            else:
                c.update(loads.base(c['id'], r, .2), kind=kind)
                if kind == 'hours' and k % 4 == 1:
                    # one hour of a direction, or no hour with a load
                    s, x = r.choice([-1, 1]), c['x']
                    one = r.choice([0, 1, 1])
                    c['x'] = [-s * abs(v) * one for v in x]
                    if r.random() < .8:
                        c['x'][r.randrange(len(x))] = s * r.randint(1, 2000)
                if kind == 'month':
                    c['want'] = [r.choice([[True, True], [True, True],
                                           [True, False], [False, True]])
                                 for _ in range(12)]
                    c['explicit'] = r.random() < .5
                    blank = r.sample(range(12), r.choice([0, 1, 2, 5]))
                    h = 0
                    for j, d in enumerate(c['cal']):
                        if j in blank:
                            c['x'][h:h + 24 * d] = [0] * (24 * d)
                        h += 24 * d
            out.append(c)
    return out


def run(case):
    return {'area': run_area, 'domain': run_domain, 'curves': run_curves,
            'hours': run_hours, 'month': run_month}[case['kind']](case)
