"""Field selection (C01-C05): the real searches over fields whose excess
temperatures are given, recorded for SearchTrace.tla."""
import inspect
import itertools

from . import lib
from .lib import big, fixs, small, rng

# Celsius per unit of excess, so that sums are exact
UNITS = [0.125, 0.125, 2. ** -10, 2. ** -13, 2. ** -20, 8.]


class World:
    """Answers for the physics of the fields of one problem."""

    def __init__(self, case, params):
        self.case = case
        self.maxH, self.minH = params.heights
        self.at = {}            # coordinates -> (dom, idx)
        self.sims = {}          # id of GFunction -> call
        self.evals = []
        self.unit = case['unit']
        self.methods = []
        self.sized = []
        self.doms = []
        for d, dom in enumerate(case['doms']):
            out = []
            for i, f in enumerate(dom):
                xy = [list(p) for p in f['xy']]
                self.at.setdefault(key(xy), (d + 1, i + 1))
                out.append(xy)
            self.doms.append(out)

    def field(self, coords):
        return self.at.get(key(coords), (0, 0))

    def excess(self, coords, H):
        d, i = self.field(coords)
        if d == 0:
            raise RuntimeError('unknown field simulated')
        f = self.case['doms'][d - 1][i - 1]
        e, e0 = f['e'] * self.unit, f['e0'] * self.unit
        w = (self.maxH - H) / (self.maxH - self.minH)
        return e + (e0 - e) * w


def key(coords):
    return tuple((float(x), float(y)) for x, y in coords)


def install(world):
    import ghedt
    p = lib.plat()
    real_g = ghedt.gfunction.compute_live_g_function
    sig_g = inspect.signature(real_g)
    RealGHE = ghedt.ground_heat_exchangers.GHE
    GFunction = ghedt.gfunction.GFunction
    RealRN = p.radial_numerical_borehole.RadialNumericalBH
    RealHL = p.ground_loads.HybridLoad

    def live(*args, **kwargs):
        b = sig_g.bind(*args, **kwargs)
        a = b.arguments
        Hs = [float(h) for h in a['H_values']]
        lt = list(a['log_time'])
        g = GFunction(B=float(a['B']),
                      r_b_values=dict(zip(Hs, map(float, a['r_b_values']))),
                      D_values=dict(zip(Hs, map(float, a['D_values']))),
                      g_lts={h: [1.0] * len(lt) for h in Hs}, log_time=lt,
                      bore_locations=a['coordinates'])
        g.verif_call = {'m': float(a['m_flow_borehole']), 'B': float(a['B']),
                        'Hs': Hs, 'rbs': [float(v) for v in a['r_b_values']],
                        'Ds': [float(v) for v in a['D_values']],
                        'xy': key(a['coordinates'])}
        return g

    class RN(RealRN):
        def calc_sts_g_functions(self, *a, **k):
            return None

    class HL(RealHL):
        def __init__(self, *a, **k):
            pass

    class FakeGHE(RealGHE):
        def __init__(self, *args, **kwargs):
            RealGHE.__init__(self, *args, **kwargs)
            world.evals.append(snapshot(self, world))

        def simulate(self, method='hybrid'):
            if method not in world.methods:
                world.methods.append(method)
            x = world.excess(self.GFunction.bore_locations, self.bhe.b.H)
            lo, hi = self.sim_params.min_EFT_allowable, \
                self.sim_params.max_EFT_allowable
            d, i = world.field(self.GFunction.bore_locations)
            f = world.case['doms'][d - 1][i - 1]
            other = x - f['gap'] * world.unit
            if f['side'] == 'hot':
                mx, mn = hi + x, lo - other
            else:
                mx, mn = hi + other, lo - x
            self.HPEFT = [mx, mn]
            self.dTb = [0., 0.]
            return mx, mn

        def size(self, method='hybrid'):
            d, i = world.field(self.GFunction.bore_locations)
            if d == 0:
                raise RuntimeError('unknown field sized')
            world.sized.append([d, i])
            self.bhe.b.H = float(world.case['doms'][d - 1][i - 1]['h'])
            kept = list(world.methods)
            self.simulate()
            world.methods[:] = kept

    return [(real_g, live), (RealGHE, FakeGHE), (RealRN, RN), (RealHL, HL)]


def snapshot(ghe, world):
    """What a heat exchanger and its g-function were made from."""
    c = getattr(ghe.GFunction, 'verif_call', None)
    xy = key(ghe.GFunction.bore_locations)
    d, i = world.field(ghe.GFunction.bore_locations)
    P = 9
    out = {'dom': d, 'idx': i, 'n': len(xy),
           'V': big(ghe.V_flow_system, P), 'B': big(ghe.B_spacing, P),
           'm': big(ghe.bhe.m_flow_borehole, 12),
           'H': fixs(ghe.bhe.b.H, 3), 'rb': fixs(ghe.bhe.b.r_b, 6),
           'D': fixs(ghe.bhe.b.D, 6), 'g': c is not None,
           'gm': [0], 'gB': [0], 'gH': [], 'grb': [], 'gD': [],
           'gxy': False}
    if c is not None:
        out.update(gm=big(c['m'], 12), gB=big(c['B'], P),
                   gH=[fixs(h, 3) for h in c['Hs']],
                   grb=[fixs(h, 6) for h in c['rbs']],
                   gD=[fixs(h, 6) for h in c['Ds']], gxy=c['xy'] == xy)
    return out


def run(case):
    import ghedt
    r = rng('params', case['id'])
    p = lib.Params('single', r)
    p.heights = (float(case['maxH']), float(case['minH']))
    p.EFT = (35., 5.)
    p.H = float(case['H'])
    V = case['V'] / 1000.
    world = World(case, p)
    S = ghedt.search_routines
    cls = {'1d': S.Bisection1D, '2d': S.Bisection2D,
           'zd': S.BisectionZD}[case['mode']]
    dom = world.doms[0] if case['mode'] == '1d' else world.doms
    borehole, sim = p.borehole(), p.sim()
    loads = [0.] * 8760

    def go():
        with lib.patched(*install(world)):
            return cls(dom, V, borehole, p.bhe_object(), p.fluid, p.pipe(),
                       p.grout(), p.soil(), sim, loads, method=case['method'],
                       flow=case['flow'], disp=case['disp'])
    b, err, _ = lib.observe(go)
    tr = {'id': case['id'], 'cover': [case['mode'], case['flow']], 'mode': case['mode'], 'flow': case['flow'],
          'V': big(case['V'] / 1000., 9), 'rho': big(p.fluid.rho, 9),
          'maxH': case['maxH'] * 1000, 'minH': case['minH'] * 1000,
          'H0': fixs(p.H, 3), 'rb': fixs(p.r_b, 6), 'D': fixs(p.D, 6),
          'doms': [[{'n': len(f['xy']), 'e': f['e'], 'e0': f['e0'],
                     'h': f['h'],
                     'dx': second(f['xy'])[0], 'dy': second(f['xy'])[1]}
                    for f in d] for d in case['doms']],
          'method': case['method'], 'methods': world.methods,
          'evals': world.evals, 'sized': world.sized}
    none = {'kind': 'none', 'type': '', 'dom': 0, 'idx': 0, 'key': -1}
    if err:
        tr['out'] = dict(none, kind='raised', type=err['type'],
                         text=err['text'])
        tr['final'] = []
        return tr
    sel = getattr(b, 'selected_coordinates', None)
    k = getattr(b, 'selection_key', None)
    if sel is None:
        tr['out'] = none
        tr['final'] = []
        return tr
    d, i = world.field(sel)
    tr['out'] = dict(none, kind='field', dom=d, idx=i,
                     key=k if isinstance(k, int) else int(k))
    tr['final'] = [snapshot(b.ghe, world)]
    return tr


def second(xy):
    """Offset of the second borehole from the first (micrometres)."""
    if len(xy) < 2:
        return [0, 0]
    return [fixs(xy[1][0] - xy[0][0], 6), fixs(xy[1][1] - xy[0][1], 6)]


# ------------------------------------------------------------------ cases
def fields(r, es, e0s, hs, ns, d):
    out = []
    for i, (e, e0, h, n) in enumerate(zip(es, e0s, hs, ns)):
        dx = r.choice([0., 0.05, r.randint(1, 9) * 0.5, 3.25])
        dy = r.choice([0., r.randint(1, 9) * 0.5]) if dx else 2.5
        if r.random() < 0.3:
            dy = -dy
        x0, y0 = d * 1000. + r.randint(0, 9), i * 100.
        xy = [[x0 + j * dx, y0 + j * dy] for j in range(n)]
        out.append({'e': e, 'e0': e0, 'h': h, 'xy': xy,
                    'side': r.choice(['hot', 'cold']),
                    'gap': r.choice([0, 1, 3, 7])})
    return out


def base(cid, r, mode):
    lo, hi = r.choice([(24, 384), (60, 135), (20, 100)])
    return {'id': cid, 'mode': mode, 'minH': lo, 'maxH': hi,
            'H': r.choice([lo, hi, 96]), 'V': r.choice([150, 200, 315, 1200]),
            'flow': r.choice(['borehole', 'system']),
            'unit': r.choice(UNITS),
            'method': r.choice(['hybrid', 'hybrid', 'hourly']),
            'disp': r.random() < 0.3}


def heights(r, k):
    return [r.randint(30, 99) for _ in range(k)]


def falling(r, k, cross=None, steep=3):
    """A strictly falling profile; cross is the first sufficient position."""
    if cross is None:
        cross = r.randint(0, k)
    up, x = [], r.choice([1, 1, 2, 5])
    for _ in range(cross):
        up.append(x)
        x += r.randint(1, steep)
    down, x = [], -r.choice([0, 0, 1, 4])
    for _ in range(k - cross):
        down.append(x)
        x -= r.randint(1, steep)
    return up[::-1] + down


def one(cid, r, es, x0):
    k = len(es)
    c = base(cid, r, '1d')
    e0s = [x0] + [e + r.randint(1, 6) for e in es[1:]]
    ns, n = [], 0
    for _ in range(k):
        n += r.choice([1, 1, 2, 0]) if n else 1
        ns.append(min(n, 40))
    c['doms'] = [fields(r, es, e0s, heights(r, k), ns, 0)]
    return c


def exhaustive(kmax, E):
    for k in range(1, kmax + 1):
        for es in itertools.product(range(-E, E + 1), repeat=k):
            for x0 in {es[0] + 1, 1, 0, 3}:
                if x0 > es[0]:
                    yield list(es), x0


def nested(cid, r, mode, fall=True, big_=False, deep=False):
    c = base(cid, r, mode)
    nd = r.randint(1, 12 if big_ else 9)
    lens = [r.randint(1 if d else 2, 14 if big_ else 6) for d in range(nd)]
    if deep:                    # few row domains of many fields
        nd = r.randint(1, 3)
        lens = [r.randint(8, 48) for d in range(nd)]
    doms = []
    if fall:
        first = r.choice([4, 12, 30])
        # largest fields fall from domain to domain
        cross = r.randint(0, nd) if r.random() < 0.9 else nd
        lasts = falling(r, nd, cross, 4)
        if lasts and lasts[0] >= first:
            first = lasts[0] + r.randint(1, 5)
        prev_total = None
        n0 = 1
        for d in range(nd):
            k = lens[d]
            hi = first if d == 0 else None
            es = [lasts[d]]
            for _ in range(k - 1):
                es.insert(0, es[0] + r.randint(1, 3 if r.random() < .5 else 12))
            if d == 0:
                if k > 1:
                    es[0] = max(es[0], first, es[1] + 1)
            # field n grows along the domain
            ns = [n0 + i for i in range(k)]
            e0 = []
            for i, e in enumerate(es):
                e0.append(e + r.randint(1, 8))
            m = r.random()
            if m < 0.6 and es[0] <= 0:
                e0[0] = r.randint(1, 5)
            elif m < 0.8 and es[0] < 0:
                e0[0] = r.randint(es[0] + 1, 0)
            doms.append(fields(r, es, e0, heights(r, k), ns, d))
            n0 += r.choice([0, 1, 1, 2])
        if mode == 'zd':
            trend(r, doms)
    else:
        for d in range(nd):
            k = lens[d]
            es = [r.randint(-4, 4) for _ in range(k)]
            if r.random() < 0.6:
                es[-1] = -abs(es[-1])
            if d == 0 and r.random() < .8:
                es[0] = abs(es[0]) + 1
            e0 = [e + r.randint(1, 6) for e in es]
            doms.append(fields(r, es, e0, heights(r, k),
                               [d + i + 1 for i in range(k)], d))
    c['doms'] = doms
    distinct_totals(doms)
    return c


def trend(r, doms):
    """Heights of the sized fields such that the drilling falls for a while,
    so that the successive search examines several domains."""
    turn = r.choice([1, 2, 3, 5, 7, 9, 20])
    total = r.randint(400, 900)
    firsts = [next((f for f in dom if f['e'] <= 0), None) for dom in doms]
    held = None                 # the drilling repeated in the next domain
    for d, f in enumerate(firsts):
        if f is None:
            continue
        n = len(f['xy'])
        if held:
            f['h'], f['tie'], held = held // n, True, None
            continue
        total += -r.randint(5, 40) if turn > 0 else r.randint(5, 60)
        turn -= 1
        after = firsts[d + 1] if d + 1 < len(firsts) else None
        m = n * len(after['xy']) if after else 0
        if after and 0 < m <= total and r.random() < .25:
            # exactly the same drilling in two successive domains
            held = total = total // m * m
            f['tie'] = True
        f['h'] = max(1, total // n)


def distinct_totals(doms):
    """No two fields need the same drilling by accident."""
    used = {len(f['xy']) * f['h'] for dom in doms for f in dom
            if 'tie' in f}
    for dom in doms:
        for f in dom:
            n = len(f['xy'])
            while 'tie' not in f and n * f['h'] in used:
                f['h'] += 1
            used.add(n * f['h'])


def cases(prop, tier, seed):
    deep = tier == 'thorough'
    out = []
    r = rng('search', prop, seed)

    def add(make, n, tag):
        for j in range(n):
            cid = '%s-%s-%d' % (prop, tag, j)
            out.append(make(cid, rng(seed, cid)))

    if prop in ('C01', 'C02'):
        ex = list(exhaustive(5 if deep else 4, 2))
        if not deep:
            short = [e for e in ex if len(e[0]) <= 3]
            long_ = [e for e in ex if len(e[0]) == 4]
            r.shuffle(long_)
            ex = short + long_[:400]
        if prop == 'C01':
            ex = [e for e in ex if strictly(e[0])] + \
                 [(list(es), x0) for es, x0 in falls(7 if deep else 6, 4)]
        for j, (es, x0) in enumerate(ex):
            cid = '%s-all-%d' % (prop, j)
            out.append(one(cid, rng(seed, cid), es, x0))

        def mono(cid, r):
            k = r.choice([2, 3, 5, 9, 17, 40, r.randint(2, 120)])
            es = falling(r, k)
            x0 = max(es[0] + 1, r.choice([1, es[0] + 1, es[0] + 9, 0]))
            return one(cid, r, es, x0)

        def wild(cid, r):
            k = r.randint(2, 40)
            es = [r.randint(-6, 6) for _ in range(k)]
            if r.random() < .7:
                es[0], es[-1] = abs(es[0]) + 1, -abs(es[-1])
            return one(cid, r, es, es[0] + r.randint(1, 9))
        n = 3000 if deep else 200
        add(mono, n, 'mono')
        if prop == 'C02':
            add(wild, n, 'wild')
            add(lambda c, r: nested(c, r, '2d', False), n // 4, 'wild2')
            add(lambda c, r: nested(c, r, 'zd', False), n // 4, 'wildz')
            add(lambda c, r: nested(c, r, '2d', True), n // 4, 'fall2')
            add(lambda c, r: nested(c, r, 'zd', True), n // 4, 'fallz')
    if prop == 'C03':
        add(lambda c, r: nested(c, r, '2d', True), 6000 if deep else 500,
            'fall')
        add(lambda c, r: nested(c, r, '2d', True, deep=True),
            600 if deep else 60, 'long')
    if prop == 'C04':
        add(lambda c, r: nested(c, r, 'zd', True), 6000 if deep else 500,
            'fall')
        add(lambda c, r: nested(c, r, 'zd', True, deep=True),
            600 if deep else 60, 'long')
    if prop == 'C05':
        n = 1500 if deep else 120

        def mono(cid, r):
            es = falling(r, r.choice([1, 2, 5, 17]))
            return one(cid, r, es, es[0] + 4)
        add(mono, n, '1d')
        add(lambda c, r: nested(c, r, '2d', True), n, '2d')
        add(lambda c, r: nested(c, r, 'zd', True), n, 'zd')
    return out


def strictly(es):
    return all(a > b for a, b in zip(es, es[1:]))


def falls(kmax, span):
    """Strictly falling profiles by position of the crossing and closeness."""
    for k in range(5, kmax + 1):
        for cross in range(0, k + 1):
            for zero in (0, 1):
                es = list(range(cross, 0, -1)) + \
                    [-(j + 1 - zero) for j in range(k - cross)]
                for x0 in {es[0] + 1, es[0] + span}:
                    yield es, x0
