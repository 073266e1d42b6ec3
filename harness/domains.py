"""Candidate domains (C06-C09) for DomainsTrace.tla; all lengths in mm."""
import math

from . import lib
from .lib import rng

SHIFT = 33. / 67.


def kx(x):
    """Key of a coordinate, see Layouts.tla."""
    v = float(x) * 1000. + SHIFT
    if not math.isfinite(v) or abs(v) > 1e9:
        return -999999999
    return math.floor(v)


def field(coords):
    return [[kx(x), kx(y)] for x, y in coords]


def request(**k):
    r = dict(routine='', L1=0, L2=0, Bmin=0, Bm1=0, Bm2=0, lower=0, upper=0)
    r.update(k)
    return r


def design(case):
    """The domains as the design interface builds them."""
    import ghedt as dt
    p = lib.Params('single')
    c = case
    gc = dt.media.GeometricConstraints if hasattr(
        dt.media, 'GeometricConstraints') else dt.design.GeometricConstraints
    if c['routine'] == 'near':
        g = gc(B=c['Bm1'] / 1000., length=c['x'] / 1000.)
        name = 'near-square'
    else:
        name = {'rect': 'rectangle', 'birect': 'bi-rectangle',
                'zoned': 'bi-zoned'}[c['routine']]
        g = gc(length=c['x'] / 1000., width=c['y'] / 1000.,
               B_min=c['Bmin'] / 1000., B_max_x=c['Bx'] / 1000.,
               B_max_y=c['By'] / 1000.)
    d = dt.design.Design(
        p.V_flow, p.borehole(), p.bhe_object(), p.fluid, p.pipe(), p.grout(),
        p.soil(), p.sim(), g, [0.] * 8760, routine=name)
    if c['routine'] in ('near', 'rect'):
        return [d.coordinates_domain]
    return d.coordinates_domain_nested


def build(c):
    import ghedt as dt
    D = dt.domains
    m = 1000.
    if c['via'] == 'design':
        return design(c)
    if c['routine'] == 'near':
        return [D.square_and_near_square(c['lower'], c['upper'],
                                         c['Bm1'] / m)]
    if c['routine'] == 'rect':
        return [D.rectangular(c['x'] / m, c['y'] / m, c['Bmin'] / m,
                              c['Bx'] / m, disp=c['disp'])]
    if c['routine'] == 'birect':
        return D.bi_rectangle_nested(c['x'] / m, c['y'] / m, c['Bmin'] / m,
                                     c['Bx'] / m, c['By'] / m, disp=c['disp'])
    if c['routine'] == 'zoned':
        return D.bi_rectangle_zoned_nested(
            c['x'] / m, c['y'] / m, c['Bmin'] / m, c['Bx'] / m, c['By'] / m)
    if c['routine'] == 'zoned1':
        return [D.zoned_rectangle_domain(c['x'] / m, c['y'] / m, c['lower'],
                                         c['upper'])]
    raise KeyError(c['routine'])


def run(c):
    import ghedt as dt
    import numpy as np
    out, err, _ = lib.observe(build, c)
    swap = c['routine'] not in ('near',) and c['x'] < c['y']
    if c['routine'] == 'near':
        req = request(routine='near', L1=c['x'], Bm1=c['Bm1'],
                      lower=c['lower'], upper=c['upper'])
    elif swap:
        req = request(routine=c['routine'], L1=c['y'], L2=c['x'],
                      Bmin=c['Bmin'], Bm1=c['By'], Bm2=c['Bx'],
                      lower=c['lower'], upper=c['upper'])
    else:
        req = request(routine=c['routine'], L1=c['x'], L2=c['y'],
                      Bmin=c['Bmin'], Bm1=c['Bx'], Bm2=c['By'],
                      lower=c['lower'], upper=c['upper'])
    if c['routine'] == 'rect':
        req['Bm1'] = c['Bx']
    tr = {'id': c['id'], 'prop': c['prop'], 'req': req, 'swap': swap,
          'out': 'ok', 'obs': [], 'counts': [],
          'cover': [c['routine'] + '/' + c['via'],
                    'swapped' if swap else 'straight']}
    if err:
        tr['out'] = err['type']
        return tr
    tr['obs'] = [[field(f) for f in dom] for dom in out]
    for L, B, scale, fn in c.get('counts', []):
        n, e, _ = lib.observe(dt.utilities.number_of_boreholes, L / scale,
                              B / scale,
                              func={'ceil': np.ceil, 'floor': np.floor}[fn])
        tr['counts'].append([L, B, fn, -1 if e or int(n) != n else int(n)])
    return tr


# ------------------------------------------------------------------ cases
def ceil_n(L, B):
    return -(-L // B) + 1


def land(r, routine, cap):
    """A land on which the routine builds at most about cap boreholes."""
    while True:
        unit = r.choice([1, 10, 10, 50, 100, 500])
        Bmin = unit * max(1, r.randint(2000, 6000) // unit)
        if r.random() < 0.25:
            Bmin = r.choice([700, 300, 1100, 2100, 3000, 4500, 5000])
        Bx = int(Bmin * r.choice([1, 1.5, 2, 2.5, r.uniform(1, 3)]))
        By = int(Bmin * r.choice([1, 1.5, 2, 2.5, r.uniform(1, 3)]))
        L = []
        for B in (Bx, By):
            k = r.random()
            if k < 0.45:
                L.append(r.randint(1, 10) * r.choice([B, Bmin]))
            else:
                q = r.choice([1, 10, 100, 1000])
                L.append(q * (r.randint(Bmin, 10 * B) // q + 1))
        x, y = L
        if r.random() < 0.15:
            y = x
        if max(x, y) > 250000:
            continue
        if routine == 'rect':
            By = Bx
        a, b = (Bx, By) if x >= y else (By, Bx)
        p, q = max(x, y), min(x, y)
        n1, m1 = ceil_n(p, a), p // Bmin + 1
        n2, m2 = ceil_n(q, b), q // Bmin + 1
        if m1 > 40 or m2 > 40 or n1 > m1:
            continue
        if routine == 'rect':
            if m1 * m2 * (m2 + n1) > 3 * cap:
                continue
        elif routine == 'birect':
            if n2 > m2 or m1 * m2 * (m2 - n2 + 1) * (m1 + n2) > 4 * cap:
                continue
        elif routine == 'zoned':
            if n1 < 3 or n2 < 3 or n2 > m2:
                continue
            if (m1 - n1 + m2 - n2 + 1) * (m1 + m2) * m1 * m2 > 3 * cap:
                continue
        return dict(x=x, y=y, Bmin=Bmin, Bx=Bx, By=By)


def cases(prop, tier, seed):
    deep = tier == 'thorough'
    n = 1500 if deep else 120
    cap = 30000 if deep else 9000
    out = []
    routine = {'C06': 'near', 'C07': 'rect', 'C08': 'birect',
               'C09': 'zoned'}[prop]
    for k in range(n * (1 if routine == 'zoned' else 2)):
        cid = '%s-%d' % (prop, k)
        r = rng(seed, cid)
        c = dict(id=cid, prop=prop, routine=routine, lower=0, upper=0,
                 disp=r.random() < 0.2,
                 via=r.choice(['design', 'function']), x=0, y=0, Bmin=0,
                 Bx=0, By=0, Bm1=0)
        if routine == 'near':
            c['Bm1'] = r.choice([r.randint(2000, 9000), 100 * r.randint(3, 90),
                                 700, 300, 4500])
            if c['via'] == 'design':
                m = r.randint(1, 12) if k % 40 else r.randint(33, 38)
                c['x'] = m * c['Bm1'] + r.choice(
                    [0, 0, 0, r.randint(0, c['Bm1'] - 1), c['Bm1'] - 1, 1])
            else:
                c['lower'] = r.randint(1, 9)
                c['upper'] = c['lower'] + r.randint(0, 6)
                if k % 10 == 1:
                    c['lower'] = r.randint(26, 60)
                    c['upper'] = c['lower'] + r.randint(0, 2)
            c['counts'] = []
            for _ in range(40):
                s = r.choice([1, 10, 100, 1000])
                B = r.randint(1, 30 * s)
                L = r.randint(1, 60) * B if r.random() < .7 else \
                    r.randint(1, 1000 * s)
                c['counts'].append([L, B, s, r.choice(['ceil', 'floor'])])
        else:
            if routine == 'zoned' and r.random() < 0.3:
                c['routine'], c['via'] = 'zoned1', 'function'
                y = r.randint(2000, 90000)
                c.update(x=y + r.choice([0, r.randint(0, 90000)]), y=y,
                         lower=r.randint(3, 11), upper=r.randint(3, 11))
            else:
                c.update(land(r, routine, cap))
        out.append(c)
    return out
