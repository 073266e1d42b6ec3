"""Simulation and sizing of a field: C17, C18, C19."""
import math

from . import lib, loads
from .lib import big, fix, fixs, observe, rng, Params

H365 = loads.H365
LT = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864, -2.577,
      -2.171, -1.884, -1.191, -0.497, -0.274, -0.051, 0.196, 0.419, 0.642,
      0.873, 1.112, 1.335, 1.679, 2.028, 2.275, 3.003]


def params(case):
    p = Params(case['kind'], rng(*case['key'])) if case['vary'] else \
        Params(case['kind'])
    p.months = tuple(case['months'])
    p.heights = tuple(case.get('heights', p.heights))
    p.EFT = tuple(case.get('EFT', p.EFT))
    p.V_flow = case['flow']
    return p


def gfunction(case):
    import ghedt as dt
    B = case['B']
    g = {float(h): [round(s * max(0., x + 8.5) ** e + 2.2, 6) for x in LT]
         for h, s, e in case['curves']}
    return dt.gfunction.GFunction(
        B, {h: case['rb_ref'] + case.get('rb_slope', 0.) * (h - case['H'])
            for h in g}, {h: 2. for h in g}, g, list(LT),
        [(B * i, B * j) for i in range(case['nx']) for j in range(case['ny'])])


def field(case, p, x, H):
    import ghedt as dt
    return dt.ground_heat_exchangers.GHE(
        p.V_flow * case['nx'] * case['ny'], case['B'], p.bhe_object(), p.fluid,
        p.borehole(H), p.pipe(), p.grout(), p.soil(), gfunction(case), p.sim(),
        x)


def response(ghe, case, p, H):
    """The combined g-function of a field newly made at height H."""
    g = ghe.grab_g_function(case['B'] / H)
    ts = H ** 2 / (9. * p.k_s / p.rc_s)

    def at(hours):
        return float(g(math.log(hours * 3600. / ts)))
    return at


def figures(case, p, H):
    n = case['nx'] * case['ny']
    bhe = p.bhe_object()(p.V_flow / 1000. * p.fluid.rho, p.fluid,
                         p.borehole(H), p.pipe(), p.grout(), p.soil())
    rb = bhe.compute_effective_borehole_resistance()
    return {'c': big(n * H * 2 * math.pi * p.k_s, 9), 'T0': big(p.ugt, 9),
            'HN': big(H * n, 6), 'H': big(H, 6), 'Rb': big(rb, 9),
            'mc': big(2 * p.V_flow / 1000. * p.fluid.rho * p.fluid.cp, 6)}


def sample(r, n, k, must=()):
    s = {1, 2, n} | set(must)
    while len(s) < min(n, k):
        s.add(r.randint(1, n))
    return sorted(i for i in s if 1 <= i <= n)


# ------------------------------------------------------------- C17, C18
def run17(case):
    p, H, r = params(case), case['H'], rng(*case['key'], 'rows')
    x = watts(case)
    tr = {'id': case['id'], 'out': 'ok', 'Q': [], 'at': [], 'tf': [], 'b': [],
          'first': case['months'][0], 'last': case['months'][1],
          'rows': [], 'month': [], 'ext': [[0], [0]], 'excess': [0],
          'lim': [big(a, 9) for a in p.EFT], 'F': figures(case, p, H),
          'cover': [case['kind'], '%d boreholes' % (case['nx'] * case['ny'])]}
    tr['month'] = [lib.limbs(int(sum(x[H365[m]:H365[m + 1]])))
                   for m in range(12)]

    def call():
        ghe = field(case, p, x, case['H0'])
        for h in case['before']:
            ghe.bhe.b.H = h
            ghe.simulate('hybrid')
        ghe.bhe.b.H = H
        ext = ghe.simulate('hybrid') if case['named'] else ghe.simulate()
        return ghe, ext, ghe.cost(*ext)
    v, err, _ = observe(call)
    if err:
        tr['out'] = err['type']
        return tr
    ghe, ext, excess = v
    g = response(field(case, p, x, H), case, p, H)
    hl = ghe.hybrid_load
    start = sum(loads.D365[(m - 1) % 12] * 24
                for m in range(1, case['months'][0]))
    at = [float(h) - start for h in hl.hour[2:]]
    n = len(at)
    tr['Q'] = [big(float(a) * 1000, 6) for a in hl.load[2:]]
    tr['at'] = [big(h, 6) for h in at]
    tr['tf'] = [big(a, 9) for a in ghe.HPEFT]
    tr['b'] = [big(a, 9) for a in ghe.dTb]
    tr['ext'] = [big(a, 9) for a in ext]
    tr['excess'] = big(excess, 9)
    for i in sample(r, n, case['rows']):
        tr['rows'].append({'i': i, 'g': [
            big(g(at[i - 1] - (at[j - 1] if j else 0.)), 12)
            for j in range(i)]})
    return tr


def watts(case):
    if 'prof' in case:
        x, q = [], 0
        pts = dict(case['prof'])
        for h in range(8760):
            q = pts.get(h, q)
            x.append(q)
        return x
    r = rng(*case['key'], 'loads')
    return loads.profile(r, case['top'])


def run18(case):
    p, H, r = params(case), case['H'], rng(*case['key'], 'rows')
    x = watts(case)
    first, last = case['months']
    hours = [sum(loads.D365[(m - 1) % 12] * 24 for m in range(first, k))
             for k in range(first, last + 2)]
    n = hours[-1]
    off = sum(loads.D365[(m - 1) % 12] * 24 for m in range(1, first)) % 8760
    ev = [i for i in range(n) if x[(off + i) % 8760] !=
          (x[(off + i - 1) % 8760] if i else 0)]
    must = {h + d for h in hours for d in (0, 1)} | \
           {e + d for e in ev[:4] + ev[-4:] for d in (0, 1, 2)}
    if len(must) > 14:
        must = set(r.sample(sorted(must), 14))
    tr = {'id': case['id'], 'out': 'ok', 'first': first, 'last': last,
          'dec': case['dec'],
          'prof': [{'h': h, 'q': q} for h, q in case['prof']], 'nt': 0,
          'nb': 0, 'ext': [[0], [0]], 'hours': [], 'g': {},
          'F': figures(case, p, H),
          'cover': ['%d hours' % n, 'starts in month %d' % ((first - 1) % 12 + 1),
                    'whole years' if (last - first + 1) % 12 == 0
                    else 'part of a year']}

    def call():
        ghe = field(case, p, x if case['list'] and case['dec'] == 0
                    else [a / 10. ** case['dec'] for a in x], case['H0'])
        ghe.bhe.b.H = H
        return ghe, ghe.simulate(method='hourly')
    v, err, _ = observe(call, seconds=200)
    if err:
        tr['out'] = err['type']
        return tr
    ghe, ext = v
    tr['nt'], tr['nb'] = len(ghe.HPEFT), len(ghe.dTb)
    if tr['nt'] != n or tr['nb'] != n:
        return tr
    g = response(field(case, p, x, H), case, p, H)
    tr['ext'] = [big(a, 9) for a in ext]
    for i in sample(r, n, case['rows'], must):
        tr['hours'].append({'i': i, 'tf': big(ghe.HPEFT[i - 1], 9),
                            'b': big(ghe.dTb[i - 1], 9)})
        for e in ev:
            if e < i and str(i - e) not in tr['g']:
                tr['g'][str(i - e)] = big(g(i - e), 12)
    return tr


# ------------------------------------------------------------------ C19
def run19(case):
    p = params(case)
    lo, hi = case['heights'][1], case['heights'][0]
    tr = {'id': case['id'], 'out': 'ok', 'lim': [fixs(lo, 6), fixs(hi, 6)],
          'tol': 1000, 'prof': [], 'h': 0, 'warned': [], 'left': False,
          'cover': [case['mode'], case['method'] or 'default method']}
    x = watts(case)
    ghe = field(case, p, x, case['H0'])
    real = case['mode'] == 'real'
    count = []

    def excess(h):
        pts = case['prof_h']
        for (a, e), (b, f) in zip(pts, pts[1:]):
            if a <= h <= b:
                return e + (f - e) * (h - a) / (b - a)
        return pts[0][1] if h < pts[0][0] else pts[-1][1]

    def simulate(method='hybrid', **kw):
        h = float(ghe.bhe.b.H)
        count.append((h, method))
        e = excess(h)
        up = p.EFT[0] + e, p.EFT[1] + 1 + max(0, -e)
        down = p.EFT[0] - 1 - max(0, -e), p.EFT[1] - e
        hi_lo = up if case['side'] == 'hot' else down
        ghe.HPEFT = [hi_lo[1], h, hi_lo[0]]
        ghe.dTb = [h]
        return hi_lo
    if not real:
        ghe.simulate = simulate

    def call():
        for _ in range(case['times']):
            if case['method']:
                ghe.size(method=case['method'])
            else:
                ghe.size()
    _, err, w = observe(call, seconds=120)
    if err:
        tr['out'] = err['type']
        return tr
    h = float(ghe.bhe.b.H)
    tr['h'] = fixs(h, 6)
    text = ' '.join(str(i.message).lower() for i in w
                    if issubclass(i.category, UserWarning))
    tr['warned'] = [k for k, s in (('min', 'minimum height'),
                                   ('max', 'maximum height')) if s in text]
    if not real:
        tr['prof'] = [{'h': fixs(a, 6), 'e': big(e, 6)}
                      for a, e in case['prof_h']]
        tr['left'] = ghe.HPEFT[1:2] == [h] and count[-1][0] == h and \
            {m for _, m in count} == {case['method'] or 'hybrid'}
    else:
        def fresh(a):
            f = field(case, p, x, case['H0'])
            f.bhe.b.H = a
            ext = f.simulate(case['method'] or 'hybrid')
            return f, f.cost(*ext)
        for a in sorted({lo, max(lo, h - .001), h, min(hi, h + .001), hi}):
            f, e = fresh(a)
            tr['prof'].append({'h': fixs(a, 6), 'e': big(e, 9)})
            if a == h:
                tr['left'] = len(f.HPEFT) == len(ghe.HPEFT) and all(
                    abs(u - v) < 1e-7 for u, v in zip(f.HPEFT, ghe.HPEFT))
    return tr


# ------------------------------------------------------------------ cases
def base(cid, *key):
    r = rng(*key)
    B = r.choice([3., 4.5, 5., 6.1])
    H = round(r.uniform(60, 250), r.choice([0, 1, 3]))
    hs = sorted(r.sample(range(24, 400, 8), r.choice([2, 3, 4, 5])))
    e = r.uniform(.6, 1.4)
    s0 = r.uniform(.3, 1.2)
    curves = [(h, s0 + h / 400., round(e, 2)) for h in hs]
    curves[-1] = (384,) + curves[-1][1:]
    curves[0] = (24,) + curves[0][1:]
    return r, dict(
        id=cid, key=key, kind=r.choice(['single', 'single', 'double',
                                        'coaxial']),
        vary=r.random() < .7, B=B, H=H, nx=r.randint(1, 5), ny=r.randint(1, 4),
        H0=r.choice([H, 96., 150.]), curves=curves, flow=round(
            r.uniform(.15, .6), 3), rb_ref=r.choice([.075, .06, .08]))


def sparse(r, top):
    """Breakpoints of a year: few changes of load, near month borders too."""
    def load():
        t = r.choice([top, top, top // 100, top // 1000, 5])
        return r.randint(-t - 1, t + 1)
    pts = {0: r.choice([0, 0, load()])}
    for _ in range(r.randint(1, 12)):
        h = r.choice([r.randrange(1, 8760), r.choice(H365[1:12]),
                      r.choice(H365[1:12]) - 1, r.choice(H365[1:12]) + 1,
                      8759, 1])
        pts[h] = r.choice([0, load(), load()])
        if r.random() < .6 and h + 1 < 8760:
            pts[min(8759, h + r.choice([1, 1, 2, 30]))] = 0
    return sorted(pts.items())


def cases(prop, tier, seed):
    n = {'C17': 48, 'C18': 24, 'C19': 60}[prop]
    if tier == 'thorough':
        n *= 12
    out = []
    for k in range(n):
        r, c = base('%s-%d' % (prop, k), seed, prop, k)
        c['prop'] = prop
        top = r.choice([500, 20000, 150000])
        if prop == 'C17':
            first = r.choice([1, 1, r.randint(1, 12), r.randint(2, 25)])
            span = r.choice([1, 12, 24, r.randint(2, 40), 60, 120,
                             240, 360])
            c.update(months=(first, first + span - 1), top=top, rows=8,
                     EFT=(r.choice([35., 30., 20.]), r.choice([5., 0., 8.])),
                     before=[r.choice([96., 150., 80.])
                             for _ in range(r.choice([0, 0, 1]))],
                     named=r.random() < .5)
        elif prop == 'C18':
            first = r.choice([1, 2, r.randint(1, 12), r.randint(1, 30)])
            span = r.choice([1, 1, 2, 3, 4, 6] if k % 6 else [12, 13, 14])
            if tier == 'thorough':
                span = r.choice([span, r.randint(1, 24)])
            c.update(months=(first, first + span - 1), prof=sparse(r, top),
                     dec=r.choice([0, 0, 1, 3]), rows=20, list=r.random() < .5)
        else:
            real = k % 10 == 9
            lo = round(r.uniform(20, 60), r.choice([0, 2]))
            hi = round(r.uniform(90, 384), r.choice([0, 2]))
            c.update(months=(1, 12), heights=(hi, lo), H0=r.choice([lo, 100.]),
                     times=r.choice([1, 1, 2]), side=r.choice(['hot', 'cold']),
                     method=r.choice(['hybrid', 'hourly', None]),
                     EFT=(35., 5.), prof=[(0, 0), (5000, -2000), (5010, 0)])
            if real:
                c.update(mode='real', method=r.choice(['hybrid', None]),
                         nx=r.choice([1, 2]), ny=1, vary=False,
                         EFT=(r.choice([35., 22., 100.]), r.choice([5., -30.])))
                del c['prof']
                c['top'] = r.choice([2000, 9000, 15000, 40000])
            else:
                m = r.choice(['root', 'root', 'root', 'kink', 'short', 'long',
                              'at min', 'at max', 'tiny', 'integer'])
                c['mode'] = m
                mid = round(r.uniform(lo + 5, hi - 5), r.choice([0, 3]))
                a, b = r.randint(1, 60), r.randint(1, 60)
                e0, em, e1 = {
                    'root': (a, 0, -b), 'kink': (a, r.randint(-b, a), -b - 1),
                    'short': (a + b + 5, b + 2, r.choice([1, b])),
                    'long': (-r.choice([1, a]), -a - b, -a - b - 9),
                    'at min': (0, -a, -a - b), 'at max': (a + b, a, 0),
                    'tiny': (a, 0, -1), 'integer': (1, 0, -b)}[m]
                if not e0 > em > e1:
                    em = (e0 + e1) / 2
                if m == 'integer':
                    mid = float(int(mid))
                c['prof_h'] = [(lo, e0), (mid, em), (hi, e1)]
        out.append(c)
    return out


def run(case):
    return {'C17': run17, 'C18': run18, 'C19': run19}[case['prop']](case)
