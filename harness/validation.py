"""Valid and invalid requests (C26)."""
import itertools

import numpy as np

from . import lib
from .lib import observe, rng, Params, plat

INPUTS = ('length', 'width', 'B', 'B_min', 'B_max_x', 'B_max_y')
ROUTINES = ('near-square', 'rectangle', 'bi-rectangle', 'bi-zoned')
OTHER = ('nearsquare', 'bi-rectangular', 'squares', '', 'zoned', 'row')


def near(*words):
    """Words that are almost those."""
    out = {''}
    for w in words:
        out |= {w.lower(), w.upper(), w.capitalize(), w[0], w[:-1], w[:4],
                w + 's', w + ' ', ' ' + w, w + '-', w[1:], w + '_' + w,
                w.replace('-', ''), w.replace('-', '_'), w[::-1],
                w[0] + w[2:], w + 'ly', w + 'al', w + '-wide', 'un' + w,
                w.replace('rectangle', 'rectangular'), w.title(),
                w[0].lower() + w[1:], w + 'ular'}
    return sorted(out - set(words))


def spell(r, tier, *words):
    """The words themselves, and some that are almost those."""
    ws = near(*words)
    if tier == 'quick' and len(ws) > 30:
        ws = r.sample(ws, 30)
    return list(words) + ws


def land(r):
    """A small land whose four routines all have candidates."""
    b = r.choice([4., 5., 6.1])
    nx, ny = r.randint(3, 4), r.randint(3, 4)
    return {'length': round(nx * b, 3), 'width': round(ny * b, 3), 'B': b,
            'B_min': b, 'B_max_x': round(b * 1.4, 3),
            'B_max_y': round(b * 1.4, 3)}


def loads(r, q, hours=8760):
    f = 1 + round(r.random(), 4) / 50.
    small = {r.randrange(8760): round(r.uniform(-.9, .9), 3)
             for _ in range(4)}
    return [small[h] if h in small and h < hours else
            round(f * q * (1 + (h % 24) / 48.), 3) if (h // 2000) % 2 else
            -round(f * q / 2, 3) for h in range(hours)]


def design(p, gc, x, **kw):
    import ghedt as dt
    return dt.design.Design(p.V_flow, p.borehole(), p.bhe_object(), p.fluid,
                            p.pipe(), p.grout(), p.soil(), p.sim(), gc, x,
                            **kw)


def constraints(L, given):
    import ghedt as dt
    return dt.media.GeometricConstraints(**{k: L[k] for k in given})


def ghe(p, x, n=1, H=100.):
    import ghedt as dt
    from . import simulate
    case = dict(B=5., nx=n, ny=1, H=H, rb_ref=.075, curves=[
        (24, .5, 1.), (100, .6, 1.), (384, .9, 1.)])
    return simulate.field(case, p, x, H)


def ask(q, c):
    """Perform one request; an exception is a refusal."""
    import ghedt as dt
    import pygfunction as gt
    t = plat()
    r = rng(*c['key'], 'values')
    p = Params(q.get('exchanger', 'single'))
    p.months = (1, 12)
    k = q['kind']
    if k == 'design':
        L = land(r)
        design(p, constraints(L, q['given']), loads(r, 900.),
               routine=q['routine'])
    elif k == 'find':
        L = land(r)
        p.heights = (100., 24.)
        p.months = (1, 1) if q['method'] == 'hourly' else (1, 12)
        d = design(p, constraints(L, INPUTS), loads(
            r, 2500. if q['method'] == 'hourly' else 1500.),
                   routine=q['routine'], flow=q['flow'], method=q['method'])
        d.find_design()
    elif k == 'flow':
        b = object.__new__(dt.search_routines.Bisection1D)
        b.flow, b.V_flow = q['flow'], .2
        b.retrieve_flow([(0., 0.), (5., 0.)], 1000.)
    elif k in ('simulate', 'size'):
        p.months = (1, 1)
        p.heights = (60., 50.)
        g = ghe(p, loads(r, 500.), H=60.)
        getattr(g, k)(method=q['method'])
    elif k == 'range':
        dt.domains.square_and_near_square(q['lower'], q['upper'], 5.)
    elif k == 'field':
        dt.utilities.borehole_spacing(
            p.borehole(), [(5. * i, 0.) for i in range(q['boreholes'])])
    elif k == 'loads':
        g = ghe(p, loads(r, 900.))
        t.ground_loads.HybridLoad(
            [abs(a) for a in loads(r, 2., q['rejection'])],
            [abs(a) for a in loads(r, 3., q['extraction'])],
            g.bhe_eq, g.radial_numerical, p.sim(), year=q['year'])
    elif k == 'exchange':
        ghe(p, loads(r, 900., q['hours']))
    elif k == 'split':
        t.ground_loads.HybridLoad.split_heat_and_cool([1., -2., 0.] * 4,
                                                      units=q['unit'])
    elif k == 'synthetic':
        t.ground_loads.create_synthetic_doubling_load_profile(units=q['unit'])
    elif k == 'config':
        cfg = None if q['config'] == 'none' else q['config']
        t.borehole_heat_exchangers.BasePipe.compute_mass_flow_rate_pipe(
            .4, cfg)
    elif k == 'tubes':
        p = Params('double')
        t.borehole_heat_exchangers.MultipleUTube(
            .4, p.fluid, p.borehole(), p.pipe(), p.grout(), p.soil(),
            config=None if q['config'] == 'none' else q['config'])
    elif k == 'gfunction':
        v = dt.gfunction.calculate_g_function(
            .2, p.bhe_object(), np.array([1e7, 1e8]), [(0., 0.), (5., 0.)],
            p.borehole(), p.fluid, p.pipe(), p.grout(), p.soil(),
            nSegments=4, segments=q['segments'], boundary=q['boundary'])
        len(v.gFunc)
    elif k == 'equivalent':
        cls = {'SingleUTube': 'single', 'MultipleUTube': 'double',
               'CoaxialPipe': 'coaxial'}
        if q['type'] in cls:
            p = Params(cls[q['type']])
            b = p.bhe_object()(.2, p.fluid, p.borehole(), p.pipe(), p.grout(),
                               p.soil())
        elif c['k'] % 2:
            b = gt.pipes.SingleUTube([(-.03, 0.), (.03, 0.)], .0108, .0133,
                                     p.borehole(), 2., 1., .1)
        else:
            b = p.pipe()
        t.equivalance.compute_equivalent(b)
    elif k == 'interior':
        dt.coordinates.zoned_rectangle(q['nx'], q['ny'], 5., 5., q['ix'],
                                       q['iy'])
    elif k == 'curve':
        hs = [100., 150., 200., 260.][:q['curves']]
        g = dt.gfunction.GFunction(
            5., {h: .075 for h in hs}, {h: 2. for h in hs},
            {h: [h / 100, h / 50, h / 25] for h in hs}, [-8., -4., 0.],
            [(0., 0.)])
        at = 100. if q['same'] else q['at']
        kw = {} if q['way'] == 'default' else {'kind': q['way']}
        g.g_function_interpolation(5. / at, **kw)
    else:
        raise KeyError(k)


def run(c):
    tr = {'id': c['id'], 'asked': [], 'cover': []}
    for q in c['qs']:
        _, err, _ = observe(ask, q, c, seconds=200)
        if err and err['type'] in ('KeyError', 'Timeout', 'ImportError'):
            got = err['type']
        else:
            got = 'refused' if err else 'answered'
        tr['asked'].append({'q': q, 'got': got})
        tr['cover'].append(q['kind'] + ' ' + got)
    return tr


def requests(seed, tier):
    out = []
    for rt in ROUTINES + OTHER[:2]:
        for n in range(len(INPUTS) + 1):
            for s in itertools.combinations(INPUTS, n):
                out.append({'kind': 'design', 'routine': rt,
                            'given': list(s)})
    r = rng(seed, 'C26')
    bad = lambda *a: r.choice(a)                              # noqa: E731
    for rt in spell(r, 'all', *ROUTINES):
        if rt not in ROUTINES:
            out.append({'kind': 'design', 'routine': rt,
                        'given': list(INPUTS)})
    for rt in ROUTINES:
        for fl in ['boreholes', 'per-borehole', ''] + r.sample(
                near('borehole', 'system'), 4):
            out.append({'kind': 'find', 'routine': rt, 'flow': fl,
                        'method': 'hybrid'})
        for m in [bad('monthly', 'hybird', 'detailed')] + r.sample(
                near('hybrid', 'hourly'), 3):
            out.append({'kind': 'find', 'routine': rt, 'flow': 'borehole',
                        'method': m})
    finds = list(itertools.product(ROUTINES, ('borehole', 'system'),
                                   ('hybrid', 'hourly')))
    if tier == 'quick':
        r.shuffle(finds)
        finds = finds[:8]
    for rt, fl, me in finds:
        out.append({'kind': 'find', 'routine': rt, 'flow': fl, 'method': me,
                    'exchanger': bad('single', 'double', 'coaxial')})
    for fl in ['borehole', 'system', 'none', 'fieldwise'] + \
            near('borehole', 'system'):
        out.append({'kind': 'flow', 'flow': fl})
    for k in ('simulate', 'size'):
        for m in ['hybrid', 'hourly', 'monthly', 'simple', 'hour', 'detailed'
                  ] + near('hybrid', 'hourly'):
            out.append({'kind': k, 'method': m})
    for a in range(-2, 4):
        for b in range(-2, 5):
            out.append({'kind': 'range', 'lower': a, 'upper': b})
    for n in range(4):
        out.append({'kind': 'field', 'boreholes': n})
    hs = (0, 744, 8759, 8760, 8761, 8784, 17520)
    for y in (2019, 2020, 2023, 2024, 1900, 2000):
        ok = 8784 if y in (2020, 2024, 2000) else 8760
        for a, b in [(ok, ok), (ok, bad(*hs)), (bad(*hs), ok),
                     (8760, 8784), (8784, 8760), (8784, 8784), (8760, 8760),
                     (bad(*hs), bad(*hs))]:
            out.append({'kind': 'loads', 'year': y, 'rejection': a,
                        'extraction': b})
    for h in hs:
        out.append({'kind': 'exchange', 'hours': h})
    for u in sorted({'W', 'kW', 'MW', 'w', 'KW', 'kw', 'Kw', '', 'Btu/h',
                     'watt', 'J', 'k', 'Wh', 'kWh', 'mW', 'W ', ' kW'}):
        out.append({'kind': 'split', 'unit': u})
        out.append({'kind': 'synthetic', 'unit': u})
    for g in ['series', 'parallel', 'none', 'mixed', 'serial'] + \
            near('series', 'parallel'):
        out.append({'kind': 'config', 'config': g})
        out.append({'kind': 'tubes', 'config': g})
    kinds = [(s, b) for s in ('equal', 'unequal', 'uneven', '', 'even')
             for b in ('UHTR', 'UBWT', 'MIFT', 'UIFT', '', 'MIXED')]
    kinds += [('unequal', b) for b in near('UHTR', 'UBWT', 'MIFT')]
    kinds += [(s, 'UBWT') for s in near('equal', 'unequal')
              if s not in ('equal', 'unequal')]
    for s, b in kinds:
            out.append({'kind': 'gfunction', 'segments': s, 'boundary': b})
    for t in ('SingleUTube', 'MultipleUTube', 'CoaxialPipe', 'pipe', 'gt'):
        out.append({'kind': 'equivalent', 'type': t})
    for nx, ny in itertools.product(range(2, 6), repeat=2):
        for ix, iy in [(nx - 2, ny - 2), (nx - 1, ny - 2), (nx - 2, ny - 1),
                       (nx, ny), (max(0, nx - 3), max(0, ny - 3))]:
            out.append({'kind': 'interior', 'nx': nx, 'ny': ny, 'ix': ix,
                        'iy': iy})
    for n in range(5):
        for at in (100., 170., 103., 99., 101., 110., 95., 80., 150., 125.):
            if n > 1 and not 100 <= at <= 150:
                continue
            for way in ('default', 'linear', 'quadratic', 'cubic',
                        'lagrange') if n != 1 or at in (100., 170.) else \
                    ('default', 'linear'):
                out.append({'kind': 'curve', 'curves': n, 'at': at,
                            'same': at == 100., 'way': way})
    return out


def cases(prop, tier, seed):
    rs = requests(seed, tier)
    n = 1 if tier == 'quick' else 4
    out = []
    for k in range(n):
        r = rng(seed, 'C26', k)
        r.shuffle(rs)
        # histories: refused and answered requests in one session
        slow = [q for q in rs if q['kind'] in ('find', 'size')]
        fast = [q for q in rs if q['kind'] not in ('find', 'size')]
        qs, step = [], max(1, len(fast) // max(1, len(slow)))
        size = 12
        groups = [[] for _ in range((len(rs) + size - 1) // size)]
        for i, q in enumerate(slow + fast):
            groups[i % len(groups)].append(q)
        for i, g in enumerate(groups):
            r.shuffle(g)
            out.append({'id': 'C26-%d-%d' % (k, i), 'k': i,
                        'key': (seed, 'C26', k, i), 'qs': g})
    return out
