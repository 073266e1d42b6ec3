"""Polygon filter (C11) and polygonal domains (C12)."""
import copy
from fractions import Fraction as Fr

from . import lib
from .lib import rng
from .domains import field

UNITS = {'0.1mm': 10000, 'mm': 1000, 'cm': 100, 'dm': 10}
STRAY = -2000000000


# --------------------------------------------------------------- geometry
def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sgn(x):
    return (x > 0) - (x < 0)


def on(p, a, b):
    return (orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def meet(a, b, c, d):
    return ((sgn(orient(a, b, c)) != sgn(orient(a, b, d)) and
             sgn(orient(c, d, a)) != sgn(orient(c, d, b)))
            or on(c, a, b) or on(d, a, b) or on(a, c, d) or on(b, c, d))


def simple(q):
    n = len(q)
    if n < 3 or len(set(map(tuple, q))) < n:
        return False
    for i in range(n):
        a, b, c = q[i], q[(i + 1) % n], q[(i + 2) % n]
        if on(c, a, b) or on(a, b, c):
            return False
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            if meet(a, b, q[j], q[(j + 1) % n]):
                return False
    return True


def polygon(r, m):
    """A simple polygon with integer vertices in [0, m]^2."""
    while True:
        k = r.random()
        if k < 0.15:
            x0, x1 = sorted(r.sample(range(m + 1), 2))
            y0, y1 = sorted(r.sample(range(m + 1), 2))
            q = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        elif k < 0.35:                       # L, or U shaped
            a = sorted(r.sample(range(m + 1), 4))
            b = sorted(r.sample(range(m + 1), 3))
            if r.random() < 0.5:
                q = [(a[0], b[0]), (a[2], b[0]), (a[2], b[1]), (a[1], b[1]),
                     (a[1], b[2]), (a[0], b[2])]
            else:
                q = [(a[0], b[0]), (a[3], b[0]), (a[3], b[2]), (a[2], b[2]),
                     (a[2], b[1]), (a[1], b[1]), (a[1], b[2]), (a[0], b[2])]
        elif k < 0.45:                       # comb with slanted teeth
            n = r.randint(2, 4)
            xs = sorted(r.sample(range(m + 1), 2 * n + 1)) if m > 2 * n \
                else list(range(2 * n + 1))
            lo, hi = sorted(r.sample(range(1, m + 1), 2))
            q = [(xs[0], 0), (xs[-1], 0)] + [
                (xs[i], hi if i % 2 else lo)
                for i in range(len(xs) - 1, -1, -1)]
        else:
            n = r.randint(3, 9)
            q = [(r.randint(0, m), r.randint(0, m)) for _ in range(n)]
            for _ in range(60):              # uncross
                done = True
                for i in range(n):
                    for j in range(i + 2, n):
                        if (j + 1) % n != i and meet(
                                q[i], q[i + 1], q[j], q[(j + 1) % n]):
                            q[i + 1:j + 1] = q[i + 1:j + 1][::-1]
                            done = False
                if done:
                    break
        if r.random() < 0.5:
            q = q[::-1]
        s = r.randrange(len(q))
        q = q[s:] + q[:s]
        if simple(q):
            return q


# -------------------------------------------------------------------- C11
def points(r, q, m, n):
    """Boreholes in places that matter for polygon q."""
    out = []
    V = len(q)
    for _ in range(n):
        k = r.random()
        a = r.choice(q)
        i = r.randrange(V)
        e, f = q[i], q[(i + 1) % V]
        if k < 0.15:
            p = a
        elif k < 0.35:
            t = Fr(r.randint(0, 24), r.choice([2, 3, 4, 5, 8, 10, 24]))
            t = min(t, Fr(1))
            x, y = e[0] + t * (f[0] - e[0]), e[1] + t * (f[1] - e[1])
            p = (int(x) if x.denominator == 1 else round(x),
                 int(y) if y.denominator == 1 else round(y))
        elif k < 0.5:
            p = (a[0] + r.choice([-1, 0, 1]), a[1] + r.choice([-1, 0, 1]))
        elif k < 0.65:                      # level with a vertex
            p = (r.randint(-m // 8, m + m // 8), a[1])
        elif k < 0.72:
            p = (a[0], r.randint(-m // 8, m + m // 8))
        elif k < 0.97:
            p = (r.randint(0, m), r.randint(0, m))
        else:
            p = (r.randint(-m, 2 * m), r.randint(-m, 2 * m))
        out.append(list(p))
    return out


def key(x, unit):
    v = x * unit
    n = round(v)
    return n if abs(v - n) < 1e-2 else STRAY


def filter_call(c):
    import ghedt as dt
    u = c['u']
    off = c['off']
    coords = [(a / u, b / u) for a, b in
              ([p[0] + off[0], p[1] + off[1]] for p in c['pts'])]
    poly = [[(a + off[0]) / u, (b + off[1]) / u] for a, b in c['poly']]
    if c['closed'] and poly:
        poly = poly + [list(poly[0])]
    if c['tuples']:
        coords = [list(p) for p in coords]
        poly = [tuple(p) for p in poly]
    before = copy.deepcopy((coords, poly))
    kw = {}
    if c['poly'] or c['none'] == 'empty':
        kw['boundary'] = poly
    elif c['none'] == 'None':
        kw['boundary'] = None
    if not (c['default'] and c['ri']):
        kw['remove_inside'] = c['ri']
    if not (c['default'] and c['kc']):
        kw['keep_contour'] = c['kc']
    out = dt.feature_recognition.remove_cutout(coords, **kw)
    obs = [[key(x, u) - off[0], key(y, u) - off[1]] for x, y in out]
    return obs, bool(before == (coords, poly)
                     and all(tuple(p) != () for p in coords))


def run11(case):
    calls = []
    for c in case['calls']:
        v, err, _ = lib.observe(filter_call, c)
        o = {'pts': c['pts'], 'poly': c['poly'], 'ri': c['ri'], 'kc': c['kc'],
             'out': 'ok', 'obs': [], 'intact': True}
        if err:
            o['out'] = err['type']
        else:
            o['obs'], o['intact'] = v
        calls.append(o)
    return {'id': case['id'], 'calls': calls,
            'cover': ['polygon' if c['poly'] else 'none'
                      for c in case['calls']]}


def cases11(tier, seed):
    out = []
    for k in range(2500 if tier == 'thorough' else 160):
        cid = 'C11-%d' % k
        r = rng(seed, cid)
        calls = []
        for i in range(4):
            u = r.choice([10000, 10000, 1000, 100, 10])
            m = r.choice([6, 12, 40, 300, 9000]) if u > 10 else \
                r.choice([6, 12, 40, 300])
            q = polygon(r, m) if r.random() < 0.93 else []
            # the farthest borehole is about 500 m away
            lim = 500 * u
            off = [0, 0] if r.random() < 0.5 else [
                r.randint(-lim, lim), r.randint(-lim, lim)]
            pts = points(r, q or [(0, 0), (m, 0), (0, m)], m, 24)
            if r.random() < .05:
                pts = []
            calls.append(dict(
                u=u, off=off, pts=pts, poly=[list(p) for p in q],
                ri=r.random() < 0.5, kc=r.random() < 0.5,
                closed=r.random() < 0.25, tuples=r.random() < 0.3,
                default=r.random() < 0.3,
                none=r.choice(['empty', 'None', 'left out'])))
        out.append({'id': cid, 'prop': 'C11', 'calls': calls})
    return out


# -------------------------------------------------------------------- C12
def dist2(p, a, b):
    """Squared distance of a rational point from a segment."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = Fr((p[0] - a[0]) * dx + (p[1] - a[1]) * dy, dx * dx + dy * dy)
    t = min(max(t, Fr(0)), Fr(1))
    x, y = a[0] + t * dx - p[0], a[1] + t * dy - p[1]
    return x * x + y * y


def lattice(L1, L2, Bmin, B1, B2):
    """Every coordinate pair the bi-rectangular fields can use (dm)."""
    n1 = range(-(-L1 // B1) + 1, L1 // Bmin + 2)
    n2 = range(-(-L2 // B2) + 1, L2 // Bmin + 2)
    xs = {Fr(i * L1, n - 1) for n in n1 for i in range(n)}
    ys = {Fr(i * L2, n - 1) for n in n2 for i in range(n)}
    return n1, n2, xs, ys


def clear(q, pts):
    """No point so close to a slanted edge that rounding decides."""
    n = len(q)
    for i in range(n):
        a, b = q[i], q[(i + 1) % n]
        if a[0] == b[0] or a[1] == b[1]:
            continue
        lo = (min(a[0], b[0]) - 1, min(a[1], b[1]) - 1)
        hi = (max(a[0], b[0]) + 1, max(a[1], b[1]) + 1)
        for p in pts:
            if not (lo[0] <= p[0] <= hi[0] and lo[1] <= p[1] <= hi[1]):
                continue
            o = abs(orient(a, b, p))
            l2 = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
            if o * o * 10000 < l2:          # within 0.01 dm
                exact = o == 0 and all((z * 1000).denominator == 1 for z in p)
                if not exact:
                    return False
    return True


def land(r, cap):
    while True:
        prop = polygon(r, r.choice([100, 200, 300, 400, 600, 900]))
        grid = r.choice([1, 5, 10, 25, 50])
        prop = [(x // grid * grid, y // grid * grid) for x, y in prop]
        if not simple(prop):
            continue
        Bmin = r.randint(20, 70)
        Bx = int(Bmin * r.uniform(1, 2.6))
        By = int(Bmin * r.uniform(1, 2.6))
        x, y = max(p[0] for p in prop), max(p[1] for p in prop)
        if min(x, y) < Bmin:
            continue
        a, b, ba, bb = (x, y, Bx, By) if x >= y else (y, x, By, Bx)
        n1, n2, xs, ys = lattice(a, b, Bmin, ba, bb)
        if not len(n1) or not len(n2) or max(n1[-1], n2[-1]) > 25:
            continue
        boreholes = sum(m * (sum(n1) + n1[0] * n1[0]) for m in n2)
        if boreholes > cap or boreholes < 8:
            continue
        if x < y:
            xs, ys = ys, xs
        pts = [(u, v) for u in xs for v in ys]
        hole = []
        k = r.random()
        if k < 0.3:
            # edges through boreholes
            us = sorted({int(u) for u in xs if u.denominator == 1} | {0, x})
            vs = sorted({int(v) for v in ys if v.denominator == 1} | {0, y})
            x0, x1 = sorted(r.sample(us, 2))
            y0, y1 = sorted(r.sample(vs, 2))
            hole = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        elif k < 0.65:
            hole = polygon(r, r.choice([40, 100, 200]))
            dx, dy = r.randint(0, x), r.randint(0, y)
            hole = [(p[0] + dx, p[1] + dy) for p in hole]
        if not clear(prop, pts) or (hole and not clear(hole, pts)):
            continue
        return dict(prop_=prop, hole=hole, x=x, y=y, Bmin=Bmin, Bx=Bx, By=By)


def domains_call(c):
    import ghedt as dt
    prop = [[x / 10., y / 10.] for x, y in c['land']['prop_']]
    hole = [[x / 10., y / 10.] for x, y in c['land']['hole']]
    if c['closed']:
        prop = prop + [list(prop[0])]
    kw = {}
    if hole:
        kw['building_description'] = hole
    elif c['none'] == 'empty':
        kw['building_description'] = []
    elif c['none'] == 'None':
        kw['building_description'] = None
    g = c['land']
    before = copy.deepcopy((prop, hole))
    out = dt.domains.polygonal_land_constraint(
        prop, g['Bmin'] / 10., g['Bx'] / 10., g['By'] / 10., **kw)
    return [[field(f) for f in d] for d in out], before == (prop, hole)


def run12(c):
    g = c['land']
    v, err, _ = lib.observe(domains_call, c)
    swap = g['x'] < g['y']
    a, b, ba, bb = (g['y'], g['x'], g['By'], g['Bx']) if swap else \
        (g['x'], g['y'], g['Bx'], g['By'])
    tr = {'id': c['id'], 'swap': swap, 'out': 'ok', 'obs': [], 'intact': True,
          'prop': [list(p) for p in g['prop_']],
          'hole': [list(p) for p in g['hole']],
          'req': dict(routine='birect', L1=a, L2=b, Bmin=g['Bmin'], Bm1=ba,
                      Bm2=bb, lower=0, upper=0),
          'cover': ['hole' if g['hole'] else 'no hole',
                    'swapped' if swap else 'straight',
                    '%d sides' % len(g['prop_'])]}
    if err:
        tr['out'] = err['type']
    else:
        tr['obs'], tr['intact'] = v
    return tr


def cases12(tier, seed):
    out = []
    deep = tier == 'thorough'
    for k in range(1500 if deep else 240):
        cid = 'C12-%d' % k
        r = rng(seed, cid)
        out.append(dict(id=cid, prop='C12', seed=str(seed),
                        cap=6000 if deep else 1200,
                        closed=r.random() < .3,
                        none=r.choice(['empty', 'None', 'left out'])))
    return out


def run(case):
    if case['prop'] == 'C11':
        return run11(case)
    case = dict(case, land=land(rng(case['seed'], case['id'], 'land'),
                                case['cap']))
    return run12(case)


def cases(prop, tier, seed):
    return (cases11 if prop == 'C11' else cases12)(tier, seed)
