"""g-functions: interpolation C20, combination C21, databases C28."""
import math

from . import lib, simulate
from .lib import big, fix, fixs, observe, rng, Params

LT = simulate.LT


# ------------------------------------------------------------------ C20
def columns(r, H, n):
    """n columns of values in millionths over the heights H (mm)."""
    def poly(d):
        c = [r.randint(-3, 3) for _ in range(d + 1)]
        # integer values: polynomial in tens of metres
        v = [sum(a * (h / 1e4) ** i for i, a in enumerate(c)) for h in H]
        s = max(1., max(abs(a) for a in v) / 30.)
        return [round(a / s * 1e6) for a in v]

    def exact(d, s):
        c = [r.randint(-s, s) for _ in range(d + 1)]
        v = [sum(a * (h // 1000) ** i for i, a in enumerate(c)) for h in H]
        return v if max(abs(a) for a in v) < 10 ** 8 else exact(d - 1, s)
    out = []
    for _ in range(n):
        k = r.random()
        if k < .55:
            out.append(exact(r.choice([0, 1, 2, 2, 3, 3]), r.choice([3, 40])))
        elif k < .7:
            out.append(poly(r.choice([2, 3])))
        else:
            out.append([r.randint(0, 4 * 10 ** 7) for _ in H])
    return out


def run20(case):
    import ghedt as dt
    from scipy.interpolate import interp1d
    H, y = case['H'], case['y']
    n = len(y) - 2
    tr = {'id': case['id'], 'H': H, 'y': y, 'q': [], 'heq': [],
          'cover': ['%d curves' % len(H)]}
    hs = [h / 1000. for h in H]
    val = [[v / 1e6 for v in col] for col in y]

    def build():
        order = case['order']
        return dt.gfunction.GFunction(
            case['B'], {hs[i]: val[n][i] for i in order},
            {hs[i]: val[n + 1][i] for i in order},
            {hs[i]: [val[j][i] for j in range(n)] for i in order},
            [float(j) for j in range(n)], [(0., 0.)])
    gf = build()
    kinds = {2: 'linear', 3: 'quadratic', 4: 'cubic'}

    def used(k):
        m = len(H)
        k = {'default': 'cubic' if m >= 5 else 'quadratic' if m >= 3
             else 'linear'}.get(k, k)
        need = {'linear': 2, 'quadratic': 3, 'cubic': 4, 'lagrange': 2}[k]
        return kinds[m] if need > m else k
    for x, kind in case['q']:
        ratio = case['B'] / (x / 1000.)
        q = {'x': x, 'kind': kind, 'out': 'ok', 'warned': False, 'v': [],
             'ref': [], 'kept': False}
        kw = {} if kind == 'default' and case['plain'] else {'kind': kind}
        v, err, w = observe(gf.g_function_interpolation, ratio, **kw)
        heq = 0
        if err:
            q['out'] = err['type']
        else:
            g, rb, D, h = v
            q['v'] = [big(float(a), 12) for a in list(g) + [rb, D]]
            heq = fixs(float(h), 3)
            q['warned'] = any('xtrapol' in str(i.message) for i in w)
            if len(H) > 1 and used(kind) != 'lagrange':
                q['ref'] = [big(float(interp1d(
                    hs, c, kind=used(kind), fill_value='extrapolate')(
                        x / 1000.)), 12) for c in val]
        q['kept'] = gf.g_lts == build().g_lts and \
            gf.r_b_values == build().r_b_values and \
            gf.D_values == build().D_values
        tr['q'].append(q)
        tr['heq'].append(heq)
        tr['cover'] += [kind, 'outside' if x < H[0] or x > H[-1] else 'inside']
    return tr


def case20(cid, r):
    n = r.choice([1, 2, 3, 4, 5, 5, 6, 8])
    H = [1000 * h for h in sorted(r.sample(range(12, 400, 4), n))]
    y = columns(r, H, r.randint(1, 4))
    y.append([75000] * n if r.random() < .4 else
             [r.randint(50, 120) * 1000 for _ in H])
    y.append([2000000] * n if r.random() < .4 else
             [r.randint(1, 8) * 500000 for _ in H])
    kinds = ['default', 'default', 'linear', 'quadratic', 'cubic', 'lagrange']
    qs = []
    for _ in range(r.randint(2, 7)):
        if n == 1:
            qs.append([r.choice([H[0], H[0], H[0] + 1000, H[0] - 3000]),
                       'default'])
            continue
        if qs and r.random() < .3:
            qs.append(r.choice(qs))
            continue
        # at, close to, between and beyond the stored heights
        x = r.choice([r.choice(H), r.choice(H) + r.choice([-1, 1]) *
                      r.choice([1, 3, 20, 45, 400]),
                      r.randint(H[0], H[-1]),
                      r.randint(H[0], H[-1]), H[0] - r.randint(10, 9000),
                      H[-1] + r.randint(10, 90000)])
        qs.append([x, r.choice(kinds)])
    order = list(range(n))
    return dict(id=cid, H=H, y=y, B=r.choice([5., 4.5, 6.096]), q=qs,
                order=order, plain=r.random() < .5)


# ------------------------------------------------------------------ C21
def points(xs, ys):
    return [{'x': big(a, 12), 'y': big(b, 12)} for a, b in zip(xs, ys)]


def run21(case):
    import ghedt as dt
    tr = {'id': case['id'], 'out': 'ok', 'sts': [], 'lts': [], 'ln': [0],
          'g': [], 'tol': big(1e-8, 12), 'cover': [case['how']]}
    if case['how'] == 'lists':
        (a, b), (c, d) = case['sts'], case['lts']
        tr['sts'], tr['lts'] = points(a, b), points(c, d)
        ln = case['ln']
        tr['ln'] = big(ln, 12)

        def call():
            low = dt.gfunction.GFunction.borehole_radius_correction(
                list(d), .075, .075 * math.exp(ln)) if ln else list(d)
            return dt.ground_heat_exchangers.BaseGHE.combine_sts_lts(
                list(c), low, list(a), list(b))
        g, err, _ = observe(call)
    else:
        p = simulate.params(case)
        ln = case['ln']
        case = dict(case, rb_ref=p.r_b * math.exp(-ln))
        H = float(case['H'])
        x = [1000.] * 8760
        ghe = simulate.field(case, p, x, H)
        for h in case['before']:
            ghe.bhe.b.H = h
            ghe.simulate()
        ghe.bhe.b.H = H
        ghe.radial_numerical.calc_sts_g_functions(ghe.bhe_eq)
        tr['ln'] = big(ln, 12)
        tr['sts'] = points(ghe.radial_numerical.lntts, ghe.radial_numerical.g)
        tr['lts'] = points(LT, ghe.GFunction.g_lts[H])
        g, err, _ = observe(ghe.grab_g_function, case['B'] / H)
    if err:
        tr['out'] = err['type']
        return tr
    tr['g'] = points(g.x.tolist(), g.y.tolist())
    return tr


def case21(cid, r, k, seed):
    if k % 8 == 7:
        _, c = simulate.base(cid, seed, 'C21', k)
        c.update(how='field', H=r.choice(c['curves'])[0], months=(1, 12),
                 ln=r.choice([0., .05, -.07, .2, .004, -.0007]),
                 # the reference radius of the other heights
                 rb_slope=r.choice([0., 5e-5, 1e-4]),
                 before=r.choice([[], [100.]]))
        return c

    def grid(a, n):
        x, out = a, []
        for _ in range(n):
            out.append(round(x, 4))
            x += r.choice([.0001, .05, .3, 1., 2.])
        return out
    a = grid(r.uniform(-40, -9), r.randint(1, 20))
    b = grid(r.choice([-8.5, a[-1], a[0], r.choice(a), a[-1] + 1, a[0] - .5,
                       r.uniform(a[0], a[-1])]), r.randint(1, 27))
    return dict(id=cid, how='lists', ln=r.choice([0., .1, -.3, .02, .0066, -.004, .0002]),
                sts=[a, [round(r.uniform(-3, 3), 6) for _ in a]],
                lts=[b, [round(r.uniform(2, 60), 6) for _ in b]])


# ------------------------------------------------------------------ C28
def run28(case):
    import ghedt as dt
    GF = dt.gfunction.GFunction
    tr = {'id': case['id'], 'out': 'ok', 'src': [], 'h': [], 'r': [], 'd': [],
          'g': [], 'b': 0, 'xy': [], 'xy0': [], 'xy2': [], 'tol': 2,
          'B': fixs(case['B'], 3), 'B2': fixs(case['B2'], 3),
          'cover': [case['how'], '%d curves' % len(case['src'])]}
    tr['xy0'] = [[fixs(a, 6), fixs(b, 6)] for a, b in case['xy']]
    src = case['src']
    if case['how'] == 'database':
        data = {'bore_locations': [tuple(c) for c in case['xy']],
                'logtime': [float(j) for j in range(len(src[0]['g']))],
                'g': {}}
        for e in src:
            key = '_'.join(case['fmt'] % v for v in
                           [case['B'], e['h'], e['r']] +
                           ([e['d']] if e['d'] >= 0 else []))
            data['g'][key] = list(e['g'])

        def call():
            return GF(**GF.configure_database_file_for_usage(data))
    else:
        tr['tol'] = 2000
        p = Params(case['kind'], rng(*case['key']))
        m = p.V_flow / 1000. * p.fluid.rho
        kw = dict(nSegments=4, segments=case['segments'],
                  boundary=case['boundary'])

        def call():
            return dt.gfunction.compute_live_g_function(
                case['B'], [e['h'] for e in src], [e['r'] for e in src],
                [e['d'] for e in src], m, p.bhe_object(), LT,
                [tuple(c) for c in case['xy']], p.fluid, p.pipe(), p.grout(),
                p.soil(), **kw)
        for e in src:
            e['g'] = own(case, p, e, m)
    for e in src:
        tr['src'].append({'b': fixs(case['B'], 6), 'h': fixs(e['h'], 6),
                          'r': fixs(e['r'], 6), 'd': fixs(e['d'], 6),
                          'g': [big(v, 9) for v in e['g']]})
    gf, err, _ = observe(call)
    if err:
        tr['out'] = err['type']
        return tr
    tr['h'] = [fixs(h, 6) for h in gf.g_lts]
    tr['g'] = [[big(v, 9) for v in c] for c in gf.g_lts.values()]
    tr['r'] = [fixs(gf.r_b_values[h], 6) for h in gf.g_lts]
    tr['d'] = [fixs(gf.D_values[h], 6) for h in gf.g_lts]
    tr['b'] = fixs(gf.B, 6)
    tr['xy2'] = [[fixs(a, 6), fixs(b, 6)]
                 for a, b in gf.correct_coordinates(case['B2'])]
    tr['xy'] = [[fixs(a, 6), fixs(b, 6)] for a, b in gf.bore_locations]
    return tr


def own(case, p, e, m):
    """The curve for one height, by pygfunction itself."""
    import numpy as np
    import pygfunction as gt
    field = [gt.boreholes.Borehole(e['h'], e['d'], e['r'], x, y)
             for x, y in case['xy']]
    ts = e['h'] ** 2 / (9. * p.k_s / p.rc_s)
    opt = {'nSegments': 4, 'disp': False}
    if case['segments'] == 'unequal':
        opt['segment_ratios'] = gt.utilities.segment_ratios(
            4, end_length_ratio=0.02)
    if case['boundary'] == 'MIFT':
        bhes = [p.bhe_object()(m, p.fluid, b, p.pipe(), p.grout(), p.soil())
                for b in field]
        field = gt.networks.Network(field, bhes, m_flow_network=m * len(field),
                                    cp_f=p.fluid.cp)
    g = gt.gfunction.gFunction(
        field, p.k_s / p.rc_s, time=np.exp(LT) * ts,
        boundary_condition=case['boundary'], options=opt, method='equivalent')
    return [float(v) for v in g.gFunc]


def case28(cid, r, k, seed):
    live = k % 4 == 3
    n = r.randint(1, 4 if live else 6)
    hs = r.sample(range(24, 385, 6), n)
    hs = [h + r.choice([0, .5, .25, .123456, .000004]) for h in hs]
    if n > 1 and r.random() < .4:
        hs[-1] = hs[0] + r.choice([.05, .2, 1., -.3])
    has = live or r.random() < .6
    zero = 2. if live else 0.
    B = r.choice([5., 4.5, 6., 6.096])
    nx, ny = (r.randint(1, 2), r.randint(1, 2)) if live else \
        (r.randint(1, 5), r.randint(1, 5))
    ox, oy = r.choice([(0, 0), (0, 0), (B, 0), (0, 2 * B), (-B, -B)])
    xy = [[round(B * i + ox, 4), round(B * j + oy, 4)]
          for i in range(nx) for j in range(ny)]
    if r.random() < .4:
        # staggered, or not a grid at all
        xy = [[round(x + r.choice([0., B / 2., -B / 3., .01]), 4),
               round(y + r.choice([0., B / 2., .3]), 4)] for x, y in xy]
    r.shuffle(xy)
    return dict(id=cid, key=(seed, 'C28', k), how='live' if live else 'database',
                kind=r.choice(['single', 'double', 'coaxial']),
                boundary=r.choice(['UHTR', 'UBWT', 'MIFT']),
                segments=r.choice(['equal', 'unequal']), B=B,
                B2=r.choice([B, 2 * B, 3., 7.5]), xy=xy,
                fmt=r.choice(['%s', '%s', '%.6f']),
                src=[dict(h=h, r=r.choice([.075, .06, .0875, .1, .076201]),
                          d=r.choice([1., 2., 3.5, 4., .3048, zero])
                          if has else -1,
                          g=[round(r.uniform(0, 60), 6) for _ in range(
                              r.choice([1, 4]) if not live else 27)])
                     for h in hs])


# ------------------------------------------------------------------ cases
def cases(prop, tier, seed):
    n = {'C20': 120, 'C21': 96, 'C28': 80}[prop]
    if tier == 'thorough':
        n *= 12
    out = []
    for k in range(n):
        cid = '%s-%d' % (prop, k)
        r = rng(seed, prop, k, 'g')
        c = case20(cid, r) if prop == 'C20' else \
            {'C21': case21, 'C28': case28}[prop](cid, r, k, seed)
        c['prop'] = prop
        if prop == 'C28' and c['how'] == 'database':
            m = len(c['src'][0]['g'])
            for e in c['src']:
                e['g'] = (e['g'] * m)[:m]
        out.append(c)
    return out


def run(case):
    return {'C20': run20, 'C21': run21, 'C28': run28}[case['prop']](case)
