"""Descriptions of heat exchangers and simulation parameters, placed pipes:
C33."""
import math
import re

from . import bhe
from .bhe import build, geometry
from .lib import big, observe, rng, plat

P = 12


def nums(*v):
    return [big(float(a), P) for a in v]


# ----------------------------------------------------------------- reading
NUMBER = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
CONFIG = {'parallel': '1', 'series': '2'}


def lines_of(text):
    """The lines of a description: label, unit and numbers."""
    out = []
    for line in text.splitlines():
        m = re.match(r"^<class '(?:\w+\.)*(\w+)'>$", line)
        if m:
            out.append({'label': m.group(1), 'unit': '', 'shown': []})
            continue
        m = re.match(r'^Borehole\(H=(%s), D=(%s), r_b=(%s),'
                     % (NUMBER, NUMBER, NUMBER), line)
        if m:
            out.append({'label': 'Borehole', 'unit': '',
                        'shown': nums(*m.groups())})
            continue
        m = re.match(r'^(.{40})= (.*)$', line) or \
            re.match(r'^(cp|k|mu|rho) = (.*)$', line)
        if not m:
            continue
        label, value = m.group(1).strip(), m.group(2)
        value = CONFIG.get(value, value)
        u = re.match(r'^(.*?)\s*\(([A-Za-z][^()]*)\)$', value)
        unit = ''
        if u:
            value, unit = u.groups()
        out.append({'label': label, 'unit': unit,
                    'shown': nums(*re.findall(NUMBER, value))})
    return out


# ------------------------------------------------------------------- known
def known(b, g, v):
    """The figures of a heat exchanger: its parameters as they were given,
    and its results."""
    import pygfunction as gt
    f = gt.media.Fluid(*v['fluid'])
    n = g['n']
    coax = g['kind'] == 'coaxial'
    pipe_flow = v['flow'] / n if g['config'] == 'parallel' else v['flow']
    d = dict(
        m_borehole=nums(v['flow']), m_pipe=nums(pipe_flow),
        borehole=nums(v['height'], v['D'], g['rb'] / 1e6),
        k_s=nums(v['k_s']), rc_s=nums(v['rc_s']), ugt=nums(v['ugt']),
        k_g=nums(v['grout']), rc_g=nums(v['rc_g']), rc_p=nums(v['rc_p']),
        eps=nums(v['eps']), s=nums(g['s'] / 1e6), n_pipes=nums(n),
        cp=nums(f.cp), k_f=nums(f.k), mu=nums(f.mu), rho=nums(f.rho))
    R_b = b.effective_borehole_thermal_resistance(b.m_flow_borehole,
                                                  b.fluid.cp)
    d['R_b'] = nums(R_b)
    if coax:
        d.update(k_p=nums(*v['pipe']), pos=nums(0, 0),
                 r_in=nums(*[a / 1e6 for a in g['rin']]),
                 r_out=nums(*[a / 1e6 for a in g['rout']]),
                 R_p_in=nums(b.R_p_in), R_p_out=nums(b.R_p_out),
                 R_grout=nums(b.R_grout), h_a_in=nums(b.h_fluid_a_in),
                 h_a_out=nums(b.h_fluid_a_out), R_a_in=nums(b.R_f_a_in),
                 R_a_out=nums(b.R_f_a_out), h=nums(b.h_fluid_in),
                 R_ff=nums(b.R_ff), R_fp=nums(b.R_fp))
        ri, ro = g['rin'][1] / 1e6, g['rout'][0] / 1e6
        d['Re'] = nums(2. * v['flow'] / (f.mu * math.pi * g['rin'][0] / 1e6))
        # hydraulic diameter over the area of the annulus
        d['Re_annulus'] = nums(f.rho * (v['flow'] / f.rho / (
            math.pi * (ro ** 2 - ri ** 2))) * 2. * (ro - ri) / f.mu)
    else:
        d.update(k_p=nums(v['pipe'][0]), r_in=nums(g['rin'] / 1e6),
                 r_out=nums(g['rout'] / 1e6),
                 pos=nums(*[a for q in bhe.pipe(g, v['pipe']).pos for a in q]),
                 Re=nums(2. * pipe_flow / (f.mu * math.pi * g['rin'] / 1e6)),
                 h=nums(b.h_f), R_p=nums(b.R_p), R_f=nums(b.R_f))
    if g['kind'] == 'double':
        d['config'] = nums(CONFIG[g['config']])
    return d


def values(r):
    return dict(
        flow=round(r.choice([.05, .1, .2, .4, 1.]) * r.uniform(.7, 1.4), 6),
        fluid=r.choice([('MEA', 0.), ('MPG', 20.), ('Water', 0.),
                        ('MEA', 25.)]),
        height=r.choice([96., round(r.uniform(25, 380), r.choice([0, 2, 6]))]),
        D=r.choice([1., 2., 4.5]), k_s=round(r.uniform(.8, 4.), 6),
        rc_s=round(r.uniform(1.5e6, 3e6), r.choice([0, 5])), rc_g=3.9e6,
        rc_p=1542.e3, ugt=round(r.uniform(-3, 22), r.choice([2, 6])),
        eps=r.choice([1e-6, 5e-5, 0.00123456]),
        grout=round(r.uniform(.5, 2.5), r.choice([1, 6])),
        pipe=[round(r.uniform(.2, .8), 6), round(r.uniform(.2, .8), 6)])


def run_bhe(case):
    g, v = case['g'], dict(case['v'])
    tr = {'kind': g['kind'], 'obs': [], 'par': {},
          'cover': [g['kind'], g['config'] or 'one U-tube or coaxial']}
    b = build(g, v)
    tr['par'] = known(b, g, v)
    for o in case['ops']:
        e = {'op': 'tell' if o == 'tell' else 'set', 'out': 'ok',
             'par': {}, 'lines': []}

        def step():
            if o == 'tell':
                return repr(b)
            if o[0] == 'flow':
                v['flow'] = o[1]
                b.update_thermal_resistance(m_flow_borehole=o[1])
            elif o[0] == 'fluid':
                import pygfunction as gt
                v['fluid'] = o[1]
                b.update_thermal_resistance(fluid=gt.media.Fluid(*o[1]))
            elif o[0] == 'height':
                v['height'] = o[1]
                b.b.H = o[1]
                b.update_thermal_resistance()
            else:
                # what concerns the description only
                v['ugt'] = o[1]
                b.soil.ugt = o[1]
        got, err, _ = observe(step)
        if err:
            e['out'] = err['type']
        elif o == 'tell':
            e['lines'] = lines_of(got)
        else:
            e['par'] = known(b, g, v)
        tr['obs'].append(e)
    return tr


def run_sim(case):
    m = plat().media
    names = ('start', 'end', 'max_EFT', 'min_EFT', 'max_H', 'min_H')
    tr = {'kind': 'simulation', 'cover': ['simulation parameters'],
          'par': dict(zip(names, [nums(a) for a in case['v']])), 'obs': []}
    s = m.SimulationParameters(*case['v'])
    at = dict(zip(names, ('start_month', 'end_month', 'max_EFT_allowable',
                          'min_EFT_allowable', 'max_Height', 'min_Height')))
    for o in case['ops']:
        if o != 'tell':
            setattr(s, at[o[0]], o[1])
            tr['obs'].append({'op': 'set', 'out': 'ok', 'lines': [],
                              'par': {o[0]: nums(o[1])}})
            continue
        got, err, _ = observe(repr, s)
        tr['obs'].append({'op': 'tell', 'out': err['type'] if err else 'ok',
                          'par': {}, 'lines': [] if err else lines_of(got)})
    return tr


def run_place(case):
    s, ro, n = case['s'] / 1e6, case['ro'] / 1e6, case['n']
    tr = {'kind': 'place', 'par': {}, 'obs': [], 'n': n, 'pos': [],
          'd': big((case['s'] + 2 * case['ro']) / 2e6, P),
          'cover': ['%d U-tubes placed' % n]}
    got, err, _ = observe(plat().media.Pipe.place_pipes, s, ro, n)
    tr['out'] = err['type'] if err else 'ok'
    if not err:
        tr['pos'] = [nums(*q) for q in got]
    return tr


def cases(prop, tier, seed):
    n = 15 if tier == 'thorough' else 1
    out = []
    for k in range(60 * n):
        r = rng(seed, 'C33', k)
        g = geometry(r, r.choice(['single', 'double', 'double', 'coaxial',
                                  'coaxial']))
        v = values(r)
        if g['kind'] == 'double':
            g['config'] = r.choice(['parallel', 'series'])
        ops = ['tell']
        for _ in range(r.randint(0, 4)):
            w = values(r)
            f = r.choice(['flow', 'fluid', 'height', 'ugt'])
            ops += [(f, w[f])] + ['tell'] * r.choice([0, 1, 1, 2])
        out.append(dict(id='bhe-%d' % k, what='bhe', g=g, v=v,
                        ops=ops + ['tell']))
    for k in range(12 * n):
        r = rng(seed, 'C33', 'sim', k)
        num = lambda a, b: r.choice([r.randint(a, b),
                                     round(r.uniform(a, b), 6)])
        v = [r.randint(1, 12), r.randint(13, 480), num(25, 45), num(-9, 12),
             num(100, 400), num(10, 99)]
        ops = ['tell', (r.choice(['max_H', 'min_H', 'max_EFT', 'min_EFT']),
                        num(10, 99)), 'tell']
        out.append(dict(id='sim-%d' % k, what='sim', v=v, ops=ops))
    for k in range(24 * n):
        r = rng(seed, 'C33', 'place', k)
        out.append(dict(id='place-%d' % k, what='place', n=1 + k % 3,
                        s=r.choice([32300, r.randint(0, 90000)]),
                        ro=r.choice([13335, r.randint(4000, 40000)])))
    return out


def run(case):
    tr = {'bhe': run_bhe, 'sim': run_sim, 'place': run_place}[case['what']](
        case)
    tr.setdefault('out', 'ok')
    tr['id'] = case['id']
    return tr
