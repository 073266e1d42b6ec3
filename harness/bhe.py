"""Borehole heat exchangers: updates C22, the equivalent single U-tube C23."""
import math
import re

from . import lib
from .lib import big, observe, rng, plat

QTY = ('flow', 're', 'film', 'wall', 'grout', 'fp', 'rb')


# ------------------------------------------------------------- heat exchangers
def geometry(r, kind):
    """Radii in micrometres, that fit a borehole."""
    if kind == 'coaxial':
        a = r.randint(12000, 24000)
        b = a + r.randint(1500, 4000)
        c = b + r.randint(4000, 25000)
        d = c + r.randint(2000, 7000)
        return dict(kind=kind, rin=[a, b], rout=[c, d], n=1, s=0,
                    rb=d + r.randint(1000, 20000), config='')
    n = 1 if kind == 'single' else r.choice([2, 2, 2, 3])
    while True:
        ro = r.randint(8000, 22000)
        ri = ro - r.randint(1200, 3500)
        s = r.randint(15000, 60000)
        D = s / 2 + ro
        # neighbouring pipes are apart and all lie inside the borehole
        if 2 * D * math.sin(math.pi / (2 * n)) > 2.02 * ro:
            break
    return dict(kind=kind, rin=ri, rout=ro, n=n, s=s,
                rb=math.ceil(D + ro) + r.choice([100, 2000, 20000]),
                config='' if n == 1 else r.choice(['parallel', 'series']))


def pipe(g, k, rc=1542.e3, eps=1e-6):
    m = plat().media
    if g['kind'] == 'coaxial':
        return m.Pipe((0, 0), [v / 1e6 for v in g['rin']],
                      [v / 1e6 for v in g['rout']], 0, eps, list(k), rc)
    ro, s = g['rout'] / 1e6, g['s'] / 1e6
    return m.Pipe(m.Pipe.place_pipes(s, ro, g['n']), g['rin'] / 1e6, ro, s,
                  eps, k[0], rc)


def build(g, v):
    """v: flow (kg/s), fluid arguments, pipe and grout k, height, ground."""
    import pygfunction as gt
    b, m = plat().borehole_heat_exchangers, plat().media
    cls = {'single': b.SingleUTube, 'double': b.MultipleUTube,
           'coaxial': b.CoaxialPipe}[g['kind']]
    kw = {'config': g['config']} if g['config'] else {}
    return cls(v['flow'], gt.media.Fluid(*v['fluid']),
               gt.boreholes.Borehole(v['height'], v['D'], g['rb'] / 1e6, 0.,
                                     0.),
               pipe(g, v['pipe'], v['rc_p'], v['eps']),
               m.Grout(v['grout'], v['rc_g']),
               m.Soil(v['k_s'], v['rc_s'], v['ugt']), **kw)


def reynolds(b, g):
    """2 m / (pi r mu), or that of the annulus and the inner pipe."""
    m, mu = b.m_flow_pipe, b.fluid.mu
    if g['kind'] == 'coaxial':
        return [2 * m / (math.pi * (g['rin'][1] + g['rout'][0]) / 1e6 * mu),
                2 * m / (math.pi * g['rin'][0] / 1e6 * mu)]
    return [2 * m / (math.pi * g['rin'] / 1e6 * mu)]


def quantities(b, g):
    if g['kind'] == 'coaxial':
        q = dict(film=[b.h_fluid_a_in, b.h_fluid_a_out, b.R_f_a_in,
                       b.R_f_a_out, b.h_fluid_in, b.R_f_in],
                 wall=[b.R_p_in, b.R_p_out], grout=[b.R_grout],
                 fp=[b.R_fp, b.R_ff])
    else:
        q = dict(film=[b.h_f, b.R_f], wall=[b.R_p], grout=[], fp=[b.R_fp])
    q.update(flow=[b.m_flow_borehole, b.m_flow_pipe], re=reynolds(b, g),
             rb=[b.effective_borehole_thermal_resistance(
                 b.m_flow_borehole, b.fluid.cp)])
    return {k: [big(float(a), 10) for a in v] for k, v in q.items()}


def forget():
    """pygfunction keeps the resistances of the last call and takes them for
    slightly different ones, too."""
    import pygfunction as gt
    gt.pipes.thermal_resistances([(-.03, 0.), (.03, 0.)], .01, .08, 2.2, 1.3,
                                 .123, J=2)


LABELS = {
    'U': [('Mass flow borehole', 'flow', 1), ('Mass flow pipe', 'flow', 2),
          ('Reynolds number', 're', 1), ('Convection coefficient', 'film', 1),
          ('Fluid resistance', 'film', 2), ('Pipe resistance', 'wall', 1),
          ('Effective borehole resistance', 'rb', 1)],
    'C': [('Mass flow borehole', 'flow', 1), ('Mass flow pipe', 'flow', 2),
          ('Reynolds annulus', 're', 1), ('Reynolds inner', 're', 2),
          ('Inner annulus convection coef', 'film', 1),
          ('Outer annulus convection coef', 'film', 2),
          ('Inner annulus resistance', 'film', 3),
          ('Outer annulus resistance', 'film', 4),
          ('Inner Convection coefficient', 'film', 5),
          ('Inner pipe resistance', 'wall', 1),
          ('Outer pipe resistance', 'wall', 2),
          ('Grout resistance', 'grout', 1),
          ('Fluid-to-pipe resistance', 'fp', 1),
          ('Fluid-to-fluid resistance', 'fp', 2),
          ('Effective borehole resistance', 'rb', 1)]}


def shown(b, g):
    lines = {}
    for line in repr(b).split('\n'):
        m = re.match(r'(.*?)\s*= (-?[\d.]+(?:e-?\d+)?)', line)
        if m:
            lines[m.group(1)] = float(m.group(2))
    return [{'g': q, 'i': i, 'v': big(lines[name], 10)} for name, q, i in
            LABELS['C' if g['kind'] == 'coaxial' else 'U']]


# ------------------------------------------------------------------ C22
FIELDS = ('flow', 'fluid', 'pipe', 'grout', 'height')


def run22(case):
    import pygfunction as gt
    g, val = case['g'], case['values']
    base = case['base']

    def params(p):
        return dict(base, **{f: val[f][p[f] - 1] for f in FIELDS})
    cur = dict(case['start'])
    b = build(g, params(cur))
    tr = {'id': case['id'], 'start': dict(cur), 'ops': [], 'fresh': [],
          'tol': [100], 'tolrb': [0], 'tol4': big(5.1e-5, 10),
          'div': g['n'] if g['config'] == 'parallel' else 1,
          'cover': [g['kind'] + ' ' + g['config']]}
    seen = []

    def fresh():
        if cur not in seen:
            seen.append(dict(cur))
            forget()
            tr['fresh'].append({'p': dict(cur), 'q': quantities(
                build(g, params(cur)), g)})
    fresh()
    for op in case['ops']:
        o = dict(op, out='ok', rb=[], q={}, shown=[])
        tr['cover'].append(op['op'] + ' ' + (op['f'] if op['op'] == 'set' else
                                             '%d%d' % (op['m'] > 0,
                                                       op['fl'] > 0)))
        if op['op'] == 'set':
            f, v = op['f'], val[op['f']][op['v'] - 1]
            cur[f] = op['v']
            if f == 'flow':
                b.m_flow_borehole = v
                b.update_thermal_resistance(v)
            elif f == 'pipe':
                b.pipe.k = list(v) if g['kind'] == 'coaxial' else v[0]
            elif f == 'grout':
                b.k_g = v
                b.grout.k = v
            elif f == 'height':
                b.b.H = v
            tr['ops'].append(o)
            continue
        m = val['flow'][op['m'] - 1] if op['m'] else None
        fl = gt.media.Fluid(*val['fluid'][op['fl'] - 1]) if op['fl'] else None
        if op['m']:
            cur['flow'] = op['m']
        if op['fl']:
            cur['fluid'] = op['fl']
        call = b.update_thermal_resistance if op['op'] == 'update' else \
            b.compute_effective_borehole_resistance
        kw = {}
        if op['m'] or op['named']:
            kw['m_flow_borehole'] = m
        if op['fl'] or op['named']:
            kw['fluid'] = fl
        v, err, _ = observe(call, **kw)
        fresh()
        if err:
            o['out'] = err['type']
            tr['ops'].append(o)
            break
        o['rb'] = [] if v is None else [big(float(v), 10)]
        o['q'] = quantities(b, g)
        o['shown'] = shown(b, g)
        tr['ops'].append(o)
    tr['tolrb'] = big(2e-5 * max(float(
        sum(a * 10 ** (4 * i) for i, a in enumerate(f['q']['rb'][0]))) / 1e10
        for f in tr['fresh']), 10)
    return tr


def case22(cid, r):
    kind = r.choice(['single', 'double', 'double', 'coaxial', 'coaxial'])
    g = geometry(r, kind)
    fluids = [('MEA', 0.), ('MPG', 20.), ('Water', 0.), ('MEA', 25.),
              ('MMA', 10.)]
    q = r.choice([.05, .2, .4])
    values = dict(
        flow=[round(q * r.uniform(.3, 3), 5) for _ in range(3)],
        fluid=r.sample(fluids, 3),
        pipe=[[round(r.uniform(.2, .8), 4), round(r.uniform(.2, .8), 4)]
              for _ in range(3)],
        grout=[round(r.uniform(.5, 2.5), 4) for _ in range(3)],
        height=[float(r.randint(30, 300)) for _ in range(3)])
    # a change that is small is a change
    values['flow'][1] = round(values['flow'][0] * r.choice([1.0001, 1.3]), 8)
    base = dict(D=2., k_s=round(r.uniform(1., 3.5), 3), rc_s=2.3e6,
                rc_g=3.9e6, rc_p=1542.e3, ugt=15., eps=r.choice([1e-6, 5e-5]))
    ops = []
    for _ in range(r.randint(2, 9)):
        k = r.random()
        if k < .4:
            f = r.choice(['pipe', 'grout', 'height'])
            ops.append(dict(op='set', f=f, v=r.randint(1, 3)))
        else:
            ops.append(dict(op='update' if k < .75 else 'ask',
                            m=r.choice([0, 0, 1, 2, 3]),
                            fl=r.choice([0, 0, 1, 2, 3]),
                            named=r.random() < .3))
    return dict(id=cid, g=g, values=values, base=base, ops=ops,
                start={f: r.randint(1, 3) for f in FIELDS})


# ------------------------------------------------------------------ C23
def figures(b):
    """Everything that describes a heat exchanger, as 12 decimals."""
    out = [b.m_flow_borehole, b.m_flow_pipe, b.b.H, b.b.D, b.b.r_b, b.soil.k,
           b.soil.rhoCp, b.soil.ugt, b.grout.k, b.grout.rhoCp, b.pipe.rhoCp,
           b.pipe.eps, b.fluid.cp, b.fluid.rho, b.fluid.mu, b.fluid.k,
           b.k_g, b.k_s, b.pipe.s]
    for v in (b.pipe.r_in, b.pipe.r_out, b.pipe.k, b.pipe.pos, b.R_fp,
              b.effective_borehole_thermal_resistance(b.m_flow_borehole,
                                                      b.fluid.cp)):
        out += flat(v)
    return [big(float(v), 12) for v in out]


def flat(v):
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        return [x for a in v for x in flat(a)]
    return [v]


def run23(case):
    from copy import deepcopy
    import pygfunction as gt
    P = plat()
    g, v = case['g'], case['v']
    b = build(g, v)
    tr = {'id': case['id'], 'kind': g['kind'], 'out': 'ok', 'n': g['n'],
          'rin': [], 'rout': [], 'rb': big(b.b.r_b, 12), 'keep0': [],
          'keep': [], 'eq0': [], 'eq1': [], 'src': figures(b), 'src2': [],
          'e': {}, 'pipe': {}, 'grout': {}, 'tol': [100], 'again': [],
          'first': [], 'cover': [g['kind'] + ' ' + g['config']]}
    tr['rin'] = [big(a / 1e6, 12) for a in flat(g['rin'])]
    tr['rout'] = [big(a / 1e6, 12) for a in flat(g['rout'])]
    e, err, _ = observe(P.equivalance.compute_equivalent, b)
    if err:
        tr['out'] = err['type']
        return tr
    tr['src2'] = figures(b)
    keep = [lambda x: x.m_flow_borehole, lambda x: x.b.H, lambda x: x.b.D,
            lambda x: x.soil.k, lambda x: x.soil.rhoCp, lambda x: x.soil.ugt,
            lambda x: x.k_s, lambda x: x.grout.rhoCp, lambda x: x.pipe.rhoCp,
            lambda x: x.pipe.eps, lambda x: x.fluid.cp, lambda x: x.fluid.rho,
            lambda x: x.fluid.mu, lambda x: x.fluid.k]
    # from a new original, as this one might have been changed
    o = build(g, v)
    tr['keep0'] = [big(float(f(o)), 12) for f in keep]
    tr['keep'] = [big(float(f(e)), 12) for f in keep]
    tr['first'] = figures(e)
    again, err, _ = observe(P.equivalance.compute_equivalent, b)
    if err:
        tr['out'] = err['type']
        return tr
    tr['again'] = figures(again)
    if g['kind'] == 'single':
        return tr
    pos = flat(e.pipe.pos)
    tr['e'] = {'rin': big(e.pipe.r_in, 12), 'rout': big(e.pipe.r_out, 12),
               'rb': big(e.b.r_b, 12), 'pos': [big(a, 12) for a in pos],
               'pipes': len(pos) // 2, 'kg': big(e.grout.k - e.k_g, 12)}

    def single(kp, kg):
        """The equivalent, built new with these conductivities."""
        forget()
        return P.borehole_heat_exchangers.SingleUTube(
            e.m_flow_borehole, gt.media.Fluid(*v['fluid']), deepcopy(e.b),
            P.media.Pipe(deepcopy(e.pipe.pos), e.pipe.r_in, e.pipe.r_out,
                         e.pipe.s, e.pipe.eps, kp, e.pipe.rhoCp),
            P.media.Grout(kg, e.grout.rhoCp), o.soil)

    def match(k, lo, hi, at, target, now, tiny):
        d = 2.2e-6 * (1. + k)
        k1, k2 = max(lo, k - d), min(hi, k + d)
        return {'k': big(k, 12), 'lo': big(lo, 12), 'hi': big(hi, 12),
                'd': big(d, 12), 'tiny': big(tiny, 12), 'below': big(at(k1), 12),
                'above': big(at(k2), 12), 'atlo': big(at(lo), 12),
                'athi': big(at(hi), 12), 'target': big(target, 12),
                'now': big(now, 12), 'fresh': big(at(k), 12)}
    # The convection and pipe resistance by the definitions of the repository
    # (fixed by its tests): the film acts on n pi d^2 of a U-tube and has the
    # coefficient of the inner wall in an annulus
    h = o.h_fluid_a_in if g['kind'] == 'coaxial' else o.h_f
    if g['kind'] == 'coaxial':
        a, c, kp = g['rout'][0] / 1e6, g['rout'][1] / 1e6, v['pipe'][1]
        conv = 1. / (h * 2. * math.pi * a)
        wall = math.log(c / a) / (2. * math.pi * kp)
    else:
        a, c, kp = g['rin'] / 1e6, g['rout'] / 1e6, v['pipe'][0]
        n = 2 * g['n']
        conv = 1. / (h * n * math.pi * 4. * a * a)
        wall = math.log(c / a) / (2. * math.pi * kp * n)
    k0 = math.log(e.pipe.r_out / e.pipe.r_in) / (4. * math.pi * wall)
    tr['pipe'] = match(e.pipe.k, k0 / 100., k0 * 10.,
                       lambda k: single(k, 1.).R_fp, conv + wall, e.R_fp, 1e-9)

    def rb(x):
        return x.effective_borehole_thermal_resistance(x.m_flow_borehole,
                                                       x.fluid.cp)
    tr['grout'] = match(e.grout.k, .01, 7.,
                        lambda k: rb(single(e.pipe.k, k)), rb(o), rb(e),
                        3e-5 * rb(o))
    tr['cover'] += ['%s %s' % (
        n, 'matched' if lo < k < hi else 'at a bound')
        for n, k, lo, hi in (('pipe', e.pipe.k, k0 / 99.9,
                              k0 * 9.99),
                             ('grout', e.grout.k, .0101, 6.99))]
    tr['cover'].append('borehole enlarged' if e.b.r_b > b.b.r_b
                       else 'borehole kept')
    return tr


def case23(cid, r):
    kind = r.choice(['single', 'double', 'double', 'coaxial', 'coaxial'])
    return dict(id=cid, g=geometry(r, kind), v=dict(
        flow=round(r.choice([.02, .1, .2, .4, 1.]) * r.uniform(.7, 1.4), 4),
        fluid=r.choice([('MEA', 0.), ('MPG', 20.), ('Water', 0.),
                        ('MEA', 25.)]),
        height=float(r.randint(25, 380)), D=r.choice([1., 2., 4.5]),
        k_s=round(r.uniform(.8, 4.), 3), rc_s=round(r.uniform(1.5e6, 3e6)),
        rc_g=3.9e6, rc_p=1542.e3, ugt=round(r.uniform(5, 22), 2),
        eps=r.choice([1e-6, 5e-5]), grout=round(r.uniform(.5, 2.5), 3),
        pipe=[round(r.uniform(.2, .8), 4), round(r.uniform(.2, .8), 4)]))


# ------------------------------------------------------------------ cases
def cases(prop, tier, seed):
    n = {'C22': 160, 'C23': 120}[prop]
    if tier == 'thorough':
        n *= 15
    out = []
    for k in range(n):
        c = {'C22': case22, 'C23': case23}[prop](
            '%s-%d' % (prop, k), rng(seed, prop, k, 'b'))
        c['prop'] = prop
        out.append(c)
    return out


def run(case):
    return {'C22': run22, 'C23': run23}[case['prop']](case)
