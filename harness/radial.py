"""The short time step response of a borehole, C30."""
import math

from . import bhe, lib
from .lib import big, observe, rng, plat

K = 535


def rings(b):
    """Radii (inner, middle, outer) of the rings, conductivities and heat
    capacities: the network of the specification in floating point."""
    t = b['rout'] - b['rin']
    tube = math.sqrt(2) * b['rout']
    tin = tube - t
    fin, core = tin - t / 4, tin - t
    rc = 2 * b['rin'] ** 2 * b['rcf'] / (fin ** 2 - core ** 2)
    wide = math.log(b['rb'] / tin)
    out = []
    for i in range(3):
        m = core + i * t / 4
        out.append((m if i == 0 else m - t / 8, m, m + t / 8,
                    rc * b['rho'] / b['rcf'], rc))

    def add(n, start, d, k, rc):
        for i in range(n):
            a = start + i * d
            out.append((a, a + d / 2, a + d, k, rc))
    add(1, fin, t / 4, math.log(tin / fin) / (2 * math.pi * b['rf']), 1.)
    add(4, tin, t, wide / (2 * math.pi * b['rp']), b['rcp'])
    add(27, tube, (b['rb'] - tube) / 27,
        wide / (2 * math.pi * (b['res'] - b['rf'])), b['rcg'])
    add(500, b['rb'], (10 - 2 * b['rb']) / 500, b['ks'], b['rcs'])
    return out


def solve(b, steps, keep):
    """The response to a unit of heat, with a Cholesky-like elimination of
    the symmetric balances (the code has another form of them)."""
    import numpy as np
    from scipy.linalg import cholesky_banded, cho_solve_banded
    r = rings(b)
    lo = [math.log(c[2] / c[1]) for c in r]
    li = [math.log(c[1] / c[0]) for c in r]
    ro = [x / (2 * math.pi * c[3]) for x, c in zip(lo, r)]
    ri = [x / (2 * math.pi * c[3]) for x, c in zip(li, r)]
    g = np.array([1 / (ro[i] + ri[i + 1]) for i in range(K - 1)])
    c = np.array([x[4] * math.pi * (x[2] ** 2 - x[0] ** 2) / 120
                  for x in r[:K - 1]])
    d = c + g
    d[1:] += g[:-1]
    ab = np.zeros((2, K - 1))
    ab[1], ab[0, 1:] = d, -g[:-1]
    ch = cholesky_banded(ab)
    T = np.zeros(K - 1)
    w, states, gone = [], [], 0.
    for k in range(1, steps + 1):
        rhs = c * T
        rhs[0] += 1
        new = cho_solve_banded((ch, False), rhs)
        gone += g[-1] * new[-1]
        if k in keep:
            states.append((k, T.copy(), new.copy(), gone))
        T = new
        w.append(float(T[0]))
    return dict(lo=lo, li=li, ro=ro, ri=ri, g=g, c=c, w=w, states=states)


def describe(eq, film, res):
    p = eq.pipe
    return dict(rb=eq.b.r_b, rin=p.r_in, rout=p.r_out, ks=eq.soil.k,
                rcs=eq.soil.rhoCp, rcg=eq.grout.rhoCp, rcp=p.rhoCp,
                rho=eq.fluid.rho, rcf=eq.fluid.rho * eq.fluid.cp,
                rf=film / 2, rp=eq.R_p / 2, res=res, tube=0.)


def equivalent(case, v):
    b = bhe.build(case['g'], v)
    if case['g']['kind'] == 'single':
        return b
    return plat().equivalance.compute_equivalent(b)


def run(case):
    rnb = plat().radial_numerical_borehole
    tr = {'id': case['id'], 'out': 'ok', 'cover': [case['g']['kind']],
          'x': [], 'g': [], 'w': [], 's': [], 'log': [], 'res': [],
          'net': {'c': [], 'g': []}, 'b': {}, 'H': [0], 'ts': [0],
          'final': [-1], 'mid': [], 'same': False}
    bhe.forget()
    vs = case['values']
    objs = []
    for v in vs:
        o, err, _ = observe(equivalent, case, v)
        if err:
            tr['out'] = err['type']
            return tr
        objs.append(o)
    # one solver for all the boreholes, or the same borehole changed
    first = objs[0]
    if first.pipe.r_out * math.sqrt(2) > .97 * first.b.r_b:
        # no grout between the rings: outside what the model describes
        for o in objs:
            o.b.r_b = first.pipe.r_out * 1.7
    num, err, _ = observe(rnb.RadialNumericalBH, first)
    if err:
        tr['out'] = err['type']
        return tr
    for j, o in enumerate(objs):
        kw = {}
        if case['final'][j]:
            kw['final_time'] = case['final'][j]
        if case['changed'] and j:
            # the same object with another height and flow
            first.b.H = o.b.H
            first.update_thermal_resistance(
                m_flow_borehole=o.m_flow_borehole)
            o = first
        got, err, _ = observe(num.calc_sts_g_functions, o, seconds=120, **kw)
        if err:
            tr['out'] = err['type']
            return tr
    x, y = [list(map(float, a)) for a in got]
    tr['same'] = x == list(map(float, num.lntts)) and \
        y == list(map(float, num.g))
    bhe.forget()
    b = describe(o, o.R_f, o.compute_effective_borehole_resistance())
    b['tube'] = math.sqrt(2) * b['rout']
    n = len(y)
    r = rng(case['id'], 'k')
    keep = sorted({1, 2, n // 2, n} - {0})
    sol = solve(b, n, keep)
    ts = o.b.H ** 2 * b['rcs'] / (9 * b['ks'])
    tr['x'] = [big(math.exp(a) * ts, 6) for a in x]
    tr['g'] = [big(a, 9) for a in y]
    tr['w'] = [big(a, 15) for a in sol['w']]
    tr['s'] = [{'n': k, 'old': [big(float(a), 15) for a in p],
                'new': [big(float(a), 15) for a in q],
                'gone': big(float(e), 24)} for k, p, q, e in sol['states']]
    tr['net'] = {'c': [big(float(a), 9) for a in sol['c']],
                 'g': [big(float(a), 9) for a in sol['g']]}
    tr['log'] = [{'o': big(a, 12), 'i': big(e, 12)}
                 for a, e in zip(sol['lo'], sol['li'])]
    tr['res'] = [{'o': big(a, 15), 'i': big(e, 15)}
                 for a, e in zip(sol['ro'], sol['ri'])]
    dec = dict(rb=12, rin=12, rout=12, tube=12, rf=15, rp=15, res=15, ks=6,
               rho=6, rcs=0, rcg=0, rcp=0, rcf=0)
    tr['b'] = {k: big(float(e), dec[k]) for k, e in b.items()}
    tr['H'], tr['ts'] = big(float(o.b.H), 6), big(ts, 6)
    if case['final'][-1]:
        tr['final'] = big(case['final'][-1], 6)
    if n > 1:
        for j in [0] + [r.randrange(n - 1) for _ in range(12)]:
            # the first interval is a jump in logarithmic time
            tr['mid'].append({'j': j + 1, 'v': big(float(
                num.g_sts((x[j] + x[j + 1]) / 2)), 9)})
    tr['cover'] += ['%d calls' % len(objs), 'final' if case['final'][-1]
                    else 'long' if n > 1471 else '49 h']
    return tr


def case(cid, r):
    while True:
        c = bhe.case23(cid, r)
        g, v = c['g'], c['v']
        if g['kind'] != 'single' or g['rout'] * 1.5 < g['rb']:
            break
    v.update(rc_s=round(r.uniform(.8e6, 4e6)), rc_g=round(r.uniform(2.5e6, 4e6)), rc_p=round(
        r.uniform(1.3e6, 2e6)))
    vs, fin = [], []
    for j in range(r.choice([1, 1, 2, 3])):
        h = r.choice([r.randint(25, 80), r.randint(80, 105),
                      r.randint(100, 150)])
        if vs:
            # almost the same as before, or not
            h = r.choice([h, vs[-1]['height'] + r.choice([0, 1, -.5, .01])])
        vs.append(dict(v, height=float(h), flow=round(
            v['flow'] * r.choice([1., r.uniform(.7, 1.5)]), 4)))
        fin.append(r.choice([0, 0, 0, 3600., 10000., 120., 7325.5]))
    return dict(id=cid, g=g, values=vs, final=fin,
                changed=g['kind'] == 'single' and r.random() < .6)


def cases(prop, tier, seed):
    n = 32 if tier == 'quick' else 600
    return [case('C30-%d' % k, rng(seed, 'C30', k)) for k in range(n)]
