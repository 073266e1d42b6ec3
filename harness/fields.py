"""Histories of operations on field heat exchangers (C29)."""
from . import lib, loads, simulate
from .bhe import forget
from .lib import big, observe, rng, Params


def pick(n, k=6):
    """Indices of a few of n values, with the first and the last."""
    return sorted({round(j * (n - 1) / (k - 1)) for j in range(k)}) if n else []


def some(xs, d, k=6):
    xs = [float(a) for a in xs]
    return [big(xs[i], d) for i in pick(len(xs), k)] + \
        ([big(max(xs), d), big(min(xs), d), big(len(xs), 0)] if xs else [])


class Things:
    """The shared and the own pieces of the fields of one case."""

    def __init__(self, case):
        self.case = case
        self.p = simulate.params(case)
        self.pieces = None
        self.table = None

    def shared(self):
        if self.pieces is None or not self.case['share']:
            p = self.p
            self.pieces = (p.fluid, p.pipe(), p.grout(), p.soil(), p.sim(),
                           self.loads())
        return self.pieces

    def loads(self):
        c = self.case
        x = loads.profile(rng(*c['key'], 'loads'), c['top'])
        for back, q in c['late']:
            x[loads.H365[c['months'][1]] - back] = q
        return x

    def curves(self, f, kind):
        import ghedt as dt
        c, p = self.case, self.p
        if kind == 'table':
            if self.table is None or not c['share']:
                self.table = simulate.gfunction(c)
            return self.table
        return self.live(f, [c['H0'][f - 1]], rb=c['rb_one'])

    def xy(self):
        c = self.case
        return [(c['B'] * i, c['B'] * j) for i in range(c['nx'])
                for j in range(c['ny'])]

    def live(self, f, heights, o=1, rb=None):
        import ghedt as dt
        c, p = self.case, self.p
        b = p.borehole(heights[0], rb)
        s = self.settings(f, o)
        return dt.gfunction.compute_live_g_function(
            c['B'], heights, [b.r_b] * len(heights), [b.D] * len(heights),
            s['m_flow_borehole'], p.bhe_object(),
            dt.utilities.Eskilson_log_times(), self.xy(), s['fluid'],
            p.pipe(), p.grout(), p.soil())

    def flow(self, f):
        return self.case['flows'][f - 1]

    def tune(self, ghe, f, o):
        """Give a field its first (1) or other (2) flow and fluid."""
        ghe.bhe.update_thermal_resistance(**self.settings(f, o))

    def settings(self, f, o):
        import pygfunction as gt
        c, fluid = self.case, self.p.fluid
        flow = self.flow(f)
        if o == 2:
            other = c['other'][f - 1]
            flow *= other['flow']
            if other['fluid']:
                fluid = gt.media.Fluid(*other['fluid'])
        return {'m_flow_borehole': flow / 1000. * self.p.fluid.rho,
                'fluid': fluid}

    def make(self, f, kind):
        import ghedt as dt
        c, p = self.case, self.p
        fluid, pipe, grout, soil, sim, x = self.shared()
        return dt.ground_heat_exchangers.GHE(
            self.flow(f) * c['nx'] * c['ny'], c['B'], p.bhe_object(), fluid,
            p.borehole(c['H0'][f - 1]), pipe, grout, soil,
            self.curves(f, kind), sim, x)


def results(ghe):
    """What a user sees of the last simulation."""
    return {'tf': some(ghe.HPEFT, 9), 'tb': some(ghe.dTb, 9)}


def told(ghe, ext):
    forget()
    return {'ext': [big(a, 9) for a in ext],
            'rb': big(ghe.bhe.compute_effective_borehole_resistance(), 9),
            'short': some(ghe.radial_numerical.lntts, 9) +
            some(ghe.radial_numerical.g, 9)}


BLANK = {'ext': [], 'rb': [0], 'short': []}


def shown(ghe):
    g = ghe.GFunction
    keys = sorted(float(k) for k in g.g_lts)
    return {'h': big(ghe.bhe.b.H, 9), 'res': results(ghe),
            'keys': [big(k, 6) for k in keys],
            'xy': [[big(a, 6) for a in q] for q in g.bore_locations]}


def drive(case, ops):
    """The operations of a behaviour, one after the other, in one session."""
    th = Things(case)
    kinds = ops[0]['kinds']
    ghe = [th.make(f, kinds[f - 1]) for f in (1, 2)]
    lo, hi = case['heights'][1], case['heights'][0]
    out, at = [], []
    for o in ops[1:]:
        g = ghe[o['f'] - 1]
        forget()
        rec = {'op': o['op'], 'f': o['f'], 'm': o.get('m', ''), 'to': [0],
               'x': 0, 'out': 'ok', 'told': BLANK, 'curves': []}
        if o['op'] == 'move':
            x = [lo, case['mid'], hi, case['H0'][o['f'] - 1]][o['x'] - 1]
            g.bhe.b.H = x
            rec['to'] = big(x, 9)
        elif o['op'] == 'tune':
            th.tune(g, o['f'], o['x'])
            rec['x'] = o['x']
        elif o['op'] == 'compute':
            _, err, _ = observe(g.compute_g_functions, seconds=120)
            rec['out'] = err['type'] if err else 'ok'
            if not err:
                rec['curves'] = [[big(v, 9) for v in g.GFunction.g_lts[k]]
                                 for k in sorted(g.GFunction.g_lts)]
        else:
            call = g.simulate if o['op'] == 'simulate' else g.size
            v, err, _ = observe(call, method=o['m'], seconds=120)
            rec['out'] = err['type'] if err else 'ok'
            if not err:
                rec['told'] = told(g, v if o['op'] == 'simulate' else
                                   (max(g.HPEFT), min(g.HPEFT)))
        rec['now'] = [shown(a) for a in ghe]
        at.append([float(a.bhe.b.H) for a in ghe])
        out.append(rec)
    return {'ops': out, 'at': at}


def anew(case, f, w, made, m, h, size):
    """A field newly made, given its curves and height, and simulated."""
    th = Things(case)
    g = th.make(f, made)
    if w['cur'] == 'three':
        if w['of'] != 1:
            th.tune(g, f, w['of'])
        g.compute_g_functions()
    if w['own'] != w['of']:
        th.tune(g, f, w['own'])
    if size:
        forget()
        _, err, _ = observe(g.size, method=m, seconds=120)
        return {'out': err['type'] if err else 'ok', 'h': big(g.bhe.b.H, 9)}
    g.bhe.b.H = h
    forget()
    v, err, _ = observe(g.simulate, method=m, seconds=120)
    if err:
        return {'out': err['type'], 'h': big(h, 9), 'told': BLANK,
                'res': results(g)}
    return {'out': 'ok', 'h': big(h, 9), 'told': told(g, v),
            'res': results(g)}


def curves(case, f, o):
    lo, hi = case['heights'][1], case['heights'][0]
    th = Things(case)
    out = []
    for a in (lo, (lo + hi) / 2., hi):
        g = th.live(f, [a], o)
        out.append([big(v, 9) for v in list(g.g_lts.values())[0]])
    return out


def calibrated(case):
    """Limits that the first field meets at a given height."""
    g = Things(case).make(1, 'table')
    g.bhe.b.H = case['goal']
    v, err, _ = observe(g.simulate, method='hybrid', seconds=120)
    if err:
        return case['EFT']
    hot = v[0] - g.bhe.soil.ugt > g.bhe.soil.ugt - v[1]
    return (float(v[0]), v[1] - 30.) if hot else (v[0] + 30., float(v[1]))


def run(case):
    ops = case['ops']
    if case['goal']:
        case = dict(case, EFT=lib.isolated(calibrated, case))
    got = lib.isolated(drive, case, ops)
    lo, hi = case['heights'][1], case['heights'][0]
    kinds = ops[0]['kinds']
    tr = {'id': case['id'], 'kinds': kinds, 'tol': lib.limbs(20000), 'htol': lib.limbs(2000),
          'start': [big(h, 9) for h in case['H0']],
          'three': [big(a, 6) for a in (lo, (lo + hi) / 2., hi)],
          'ops': got['ops'], 'refs': [], 'sizes': [], 
          'curves': [[[], []], [[], []]],
          'cover': [case['kind'], 'shared' if case['share'] else 'apart']}
    tr['xy'] = [[big(a, 6) for a in q] for q in Things(case).xy()]
    now, seen = [dict(cur=k, own=1, of=1) for k in kinds], set()
    for o, at in zip(ops[1:], got['at']):
        f, m = o['f'], o.get('m')
        w = now[f - 1]
        tr['cover'].append(o['op'])
        if o['op'] == 'tune':
            w['own'] = o['x']
        if o['op'] == 'compute':
            w.update(cur='three', of=w['own'])
            if not tr['curves'][f - 1][w['own'] - 1]:
                tr['curves'][f - 1][w['own'] - 1] = lib.isolated(
                    curves, case, f, w['own'])
        if o['op'] == 'size':
            tr['sizes'].append(dict(w, f=f, m=m, **lib.isolated(
                anew, case, f, w, kinds[f - 1], m, 0., True)))
        if o['op'] in ('simulate', 'size'):
            k = (f, w['cur'], w['own'], w['of'], m, at[f - 1])
            if k not in seen:
                seen.add(k)
                tr['refs'].append(dict(w, f=f, m=m, **lib.isolated(
                    anew, case, f, w, kinds[f - 1], m, at[f - 1], False)))
    return tr


def cases(prop, tier, seed):
    out = []
    for k, ops in enumerate(lib.behaviours()):
        r, c = simulate.base('%s-%d' % (prop, k), seed, prop, k)
        lo = round(r.uniform(28, 50), r.choice([0, 2]))
        hi = round(r.uniform(80, 130), r.choice([0, 2]))
        mid = round(r.uniform(lo + 5, hi - 5), r.choice([0, 3]))
        top = r.choice([800, 3000])
        c.update(nx=r.choice([1, 1, 2]), ny=r.choice([1, 2]), ops=ops,
                 heights=(hi, lo), mid=mid, months=(1, r.choice([1, 1, 2])),
                 H0=[r.choice([lo, 60., mid]), r.choice([76., hi])],
                 flows=[c['flow'], r.choice([c['flow'], .25])],
                 other=[dict(flow=r.choice([.25, .5, 1., 2.]), fluid=r.choice(
                     [None, ('MPG', 25.), ('Water', 0.)])) for _ in (1, 2)],
                 rb_one=r.choice([None, .07, .085]),
                 late=r.choice([[], [[r.randint(1, 30), 1.7 * top]],
                                [[r.randint(1, 30), -1.9 * top]]]),
                 share=r.random() < .7, top=top,
                 goal=round(r.uniform(lo + 4, hi - 4), 2)
                 if r.random() < .75 else None,
                 EFT=(r.choice([35., 25.]), 5.), H=100.)
        out.append(c)
    return out
