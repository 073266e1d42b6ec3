"""Load analyses: C13 - C16 and C27."""
import math
import types

from . import lib
from .lib import fix, fixs, observe, rng

D365 = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
D366 = [31, 29] + D365[2:]
H365 = [24 * sum(D365[:m]) for m in range(13)]


# --------------------------------------------------------------- profiles
def spread(r, top):
    return r.choice([r.randint(1, top), top, r.randint(1, max(1, top // 50))])


def profile(r, top, cal=D365):
    """A signed integer load for every hour of the year."""
    n = 24 * sum(cal)
    kind = r.choice(['sine', 'months', 'months', 'months', 'spikes', 'days',
                     'one-sided', 'flat', 'edges', 'edges'])
    x = [0] * n
    if kind == 'sine':
        a, b = r.randint(top // 3, top // 2), r.randint(0, top // 2)
        ph = r.uniform(0, 6.3)
        for h in range(n):
            x[h] = int(a * math.cos(2 * math.pi * h / n + ph) +
                       b * math.cos(2 * math.pi * h / 24) * r.random())
    elif kind == 'flat':
        v = r.choice([-1, 1]) * spread(r, top)
        for h in range(n):
            x[h] = v
        for _ in range(r.randint(0, 3)):
            x[r.randrange(n)] = r.randint(-top, top)
    elif kind == 'spikes':
        for _ in range(r.choice([1, 5, 40, 400])):
            x[r.randrange(n)] = r.choice([-1, 1]) * spread(r, top)
    else:
        h = 0
        for m, d in enumerate(cal):
            k = kind if kind != 'months' else r.choice(
                ['days', 'one-sided', 'edges', 'zero', 'flat', 'noise',
                 'block', 'close', 'late'])
            hours = range(h, h + 24 * d)
            if k == 'flat':
                v = r.choice([-1, 1]) * spread(r, top)
                for q in hours:
                    x[q] = v
            elif k == 'noise':
                lo, hi = sorted([r.randint(-top, top), r.randint(-top, top)])
                for q in hours:
                    x[q] = r.randint(lo, hi)
            elif k == 'one-sided':
                s = r.choice([-1, 1])
                for q in hours:
                    x[q] = s * r.randint(0, top) if r.random() < .5 else 0
            elif k == 'days':
                for q in hours:
                    u = math.cos(2 * math.pi * (q % 24 - 15) / 24)
                    x[q] = -int(max(0, u) * r.randint(0, top)) if u > 0 else \
                        int(-u * r.randint(0, top))
            elif k == 'block':
                for _ in range(r.randint(1, 3)):
                    s = r.choice([-1, 1]) * spread(r, top)
                    a = r.randrange(24 * d)
                    for q in range(a, min(24 * d, a + r.randint(1, 60))):
                        x[h + q] = s
            elif k == 'late':
                # hours below the average before a peak hardly above it:
                # its duration is a fraction of an hour
                s = r.choice([-1, 1])
                u = int(top * r.uniform(.5, .8))
                v = int(u * r.uniform(0, 1))
                for q in hours:
                    x[q] = s * u
                a, b = 24 * r.randrange(d), r.randint(3, 23)
                for q in range(a, a + b):
                    x[h + q] = s * v
                x[h + a + b] = s * int(u * r.uniform(1.02, 1.25))
                if r.random() < .5:
                    x[h + r.choice([0, 24 * d - 1])] = -s * v
            elif k == 'close':
                # long peaks of both directions on days next to each other,
                # or on the first or last days of the month
                a = r.choice([0, 24 * (d - 2), 24 * r.randrange(d - 1),
                              24 * (d - 3), 24])
                s = r.choice([-1, 1])
                u, v = spread(r, top), spread(r, top)
                for q in range(a, a + 24):
                    x[h + q] = s * u
                for q in range(a + 24, min(24 * d, a + 48)):
                    x[h + q] = -s * v
                for q in range(24 * d):
                    if x[h + q] == 0:
                        x[h + q] = r.choice([-1, 1]) * r.randint(
                            0, max(1, min(u, v) // 3))
                if r.random() < .3:
                    x[h + 24 * d - 1] = -s * v
            elif k == 'edges':
                for e, s in zip(r.sample([0, 1, 23, 24, 25, 24 * d - 1,
                                          24 * d - 24, 24 * d - 25, 47,
                                          24 * r.randrange(d),
                                          24 * r.randrange(d) + 23], 3),
                                r.choice([(1, -1, 1), (1, 1, -1), (-1, -1, 1),
                                          (1, 1, 1)])):
                    v = spread(r, top)
                    for q in range(e, min(24 * d, e + r.choice([1, 1, 4, 30]))):
                        x[h + q] = s * v
                if r.random() < .5:
                    for q in hours:
                        if x[q] == 0 and r.random() < .6:
                            x[q] = r.randint(-top // 10, top // 10)
            h += 24 * d
    if r.random() < 0.25:            # several hours share the peak
        for m in range(12):
            h = 24 * sum(cal[:m])
            w = x[h:h + 24 * cal[m]]
            for v in (max(w), min(w)):
                for _ in range(2):
                    x[h + r.randrange(24 * cal[m])] = v
    return x


def response(r, n=64):
    """Increasing integers: short time step response after 0, 1, ... h."""
    k = r.random()
    if k < 0.4:
        g = [0]
        for _ in range(n):
            g.append(g[-1] + r.randint(1, 9))
    elif k < 0.7:
        g = [0] + [round(60 * math.log(1 + 3 * h)) + h for h in range(1, n + 1)]
    elif k < 0.85:
        g = [0] + [300 - 200 // h + h for h in range(1, n + 1)]
    else:
        g = [2 * h for h in range(n + 1)]
    return g


class Radial:
    """Stands for the short time step model: a table of hours."""

    def __init__(self, table, scale, t_s):
        import numpy as np
        ts = t_s

        def g_sts(x):
            h = np.exp(np.asarray(x, dtype=float)) * ts / 3600.
            return np.interp(h, np.arange(len(table)),
                             np.asarray(table) / scale)
        self.g_sts, self.t_s = g_sts, t_s


def fixture(case):
    """bhe and radial model of the case: G and R in units of 1/gs."""
    k = case['k']
    two_pi_k = 2 * math.pi * k
    rb = case['R'] / case['gs'] / two_pi_k
    bhe = types.SimpleNamespace(
        soil=types.SimpleNamespace(k=k),
        compute_effective_borehole_resistance=lambda *a, **b: rb)
    return bhe, Radial(case['G'], case['gs'], case['t_s'])


def signed(case):
    """The hourly loads in W or kW, as the caller gives them."""
    if case['units'] == 'kW':
        return [v / 10. ** case['dec'] for v in case['x']]
    s = 10. ** case['dec'] / 1000.
    if s == 1:
        return [float(v) for v in case['x']] if case['float'] else case['x']
    return [v / s for v in case['x']]


def analysis(case):
    import ghedt.peak_load_analysis_tool as plat
    HL = plat.ground_loads.HybridLoad
    loads = signed(case)
    kw = {} if case['units'] == 'W' and case['default'] else \
        {'units': case['units']}
    rej, ext = HL.split_heat_and_cool(loads, **kw)
    bhe, radial = fixture(case)
    sim = types.SimpleNamespace(start_month=case['first'],
                                end_month=case['last'])
    year = {} if case['cal'] == D365 else {'year': 2020}
    return rej, ext, HL(rej, ext, bhe, radial, sim, **year)


# -------------------------------------------------------------------- C13
def run13(case):
    dec = case['dec']
    tr = {'id': case['id'], 'x': case['x'], 'cal': case['cal'], 'out': 'ok',
          'split': [[], []], 'obs': [[], []],
          'cover': ['%d hours' % len(case['x']), case['units']]}
    v, err, _ = observe(analysis, case)
    if err:
        tr['out'] = err['type']
        return tr
    rej, ext, hl = v
    tr['split'] = [[fixs(a, dec) for a in rej], [fixs(a, dec) for a in ext]]
    table = hl.create_dataframe_of_peak_analysis()
    for k, L in enumerate((hl.rejection, hl.extraction)):
        name = ('rejection', 'extraction')[k]
        for m in range(1, 13):
            row = table.iloc[m - 1]
            avg = fix(L.monthly_average[m], dec + 3)
            tavg = fix(float(row[('Average', name)]), dec + 3)
            tr['obs'][k].append({
                'total': fixs(L.monthly_total[m], dec),
                'average': lib.limbs(avg),
                'peak': fixs(L.monthly_peak[m], dec),
                'day': int(L.monthly_peak_day[m]),
                'two': [fixs(a, dec)
                        for a in L.monthly_two_day_hourly_peak[m]],
                'table': [fixs(float(row[('Total', name)]), dec),
                          lib.limbs(tavg),
                          fixs(float(row[('Peak', name)]), dec),
                          fixs(float(row[('Peak Day', name)]), 0)]})
    return tr


# -------------------------------------------------------------------- C14
def run14(case):
    tr = {'id': case['id'], 'x': case['x'], 'cal': case['cal'], 'out': 'ok',
          'G': case['G'][1:49], 'R': case['R'], 'd': [[], []],
          'cover': ['months without load'] if case['id'].endswith('0') else []}
    v, err, _ = observe(analysis, case)
    if err:
        tr['out'] = err['type']
        return tr
    hl = v[2]
    tr['d'] = durations(hl)
    tr['cover'] = ['negligible' if d < 1000 else 'whole window'
                   if d == 48000000 else 'under a day' if d < 24000000
                   else 'over a day' for k in tr['d'] for d in k]
    return tr


def durations(hl):
    return [[fixs(L.monthly_peak_duration[m], 6) for m in range(1, 13)]
            for L in (hl.rejection, hl.extraction)]


# --------------------------------------------------------------- C15, C16
def run16(case):
    dec = case['dec']
    tr = {'id': case['id'], 'x': case['x'], 'cal': case['cal'], 'out': 'ok',
          'first': case['first'], 'last': case['last'], 'dur': [], 'load': [],
          'hours': [], 'sf': [], 'up': [],
          'cover': ['%d years' % ((case['last'] - case['first'] + 12) // 12),
                    'starts in month %d' % ((case['first'] - 1) % 12 + 1)]}
    v, err, _ = observe(analysis, case)
    if err:
        tr['out'] = err['type']
        return tr
    hl = v[2]
    tr['dur'] = durations(hl)
    tr['load'] = [fixs(float(a), dec + 3) for a in hl.load]
    tr['sf'] = [fixs(float(a), dec + 3) for a in hl.sfload]
    tr['hours'] = [list(divmod(fix(float(a), 9), 10 ** 9)) for a in hl.hour]
    tr['up'] = [True] + [bool(hl.hour[i] > hl.hour[i - 1])
                         for i in range(1, len(hl.hour))]
    return tr


# -------------------------------------------------------------------- C27
def run27(case):
    import ghedt.peak_load_analysis_tool as plat
    dec = case['dec']
    tr = {'id': case['id'], 'kind': case['kind'], 'x': case['x'],
          'cal': case['cal'], 'out': 'ok', 'unit': 0, 'dur': [],
          'obs': [[], []], 'cover': [case['kind']]}

    def call():
        if case['kind'] == 'doubling':
            kw = {'units': case['units']} if case['units'] else {}
            if case['cal'] != D365:
                kw['year'] = 2024
            return plat.ground_loads.create_synthetic_doubling_load_profile(
                **kw)
        hl = analysis(case)[2]
        # the durations are inputs here: use them as they are found, or any
        if case['force']:
            for k, L in enumerate((hl.rejection, hl.extraction)):
                for m in range(1, 13):
                    if L.monthly_peak[m] > 0:
                        L.monthly_peak_duration[m] = case['force'][k][m - 1]
        tr['dur'] = durations(hl)
        return hl.hourly_load_representation(
            **({} if case['cal'] == D365 else {'year': 2020}))
    v, err, _ = observe(call)
    if err:
        tr['out'] = err['type']
        return tr
    if case['kind'] == 'doubling':
        tr['unit'] = 1 if case['units'] == 'kW' else 1000
    tr['obs'] = [[fixs(float(a), dec + 3) for a in part] for part in v]
    return tr


# ------------------------------------------------------------------ cases
def base(cid, r, leap=0.0):
    cal = D366 if r.random() < leap else D365
    units = r.choice(['W', 'W', 'W', 'kW'])
    dec = r.choice([3, 3, 3, 5])
    top = {3: r.choice([100, 2000, 30000, 150000]), 5: 100000}[dec]
    first = r.choice([1, 1, r.randint(1, 12), r.randint(2, 30)])
    years = r.choice([0, 0, 1, 2, 3, 4])
    last = first + max(0, 12 * years + r.choice([-1, -1, 0, r.randint(-11, 11)]))
    return dict(id=cid, x=profile(r, top, cal), cal=cal, units=units, dec=dec,
                default=r.random() < .5, float=r.random() < .5,
                G=response(r), gs=r.choice([10., 100.]), R=r.randint(0, 60),
                k=round(r.uniform(1, 3), 2), t_s=r.choice([3600., 1e6, 2.5e8]),
                first=first, last=last)


def cases(prop, tier, seed):
    n = {'C13': 70, 'C14': 40, 'C15': 120, 'C16': 120, 'C27': 60}[prop]
    if tier == 'thorough':
        n *= 12
    out = []
    for k in range(n):
        p = 'C16' if prop == 'C15' else prop
        r = rng(seed, p, k)
        c = base('%s-%d' % (prop, k), r,
                 0.1 if prop in ('C13', 'C14', 'C27') else 0.0)
        c['prop'] = prop
        if prop == 'C27':
            c['kind'] = 'doubling' if k % 6 == 5 else 'hybrid'
            c['force'] = None
            if c['kind'] == 'doubling':
                c.update(units=r.choice(['W', 'kW', None]),
                         x=[0] * len(c['x']), dec=0)
            elif r.random() < .6:
                c['force'] = [[r.choice([r.uniform(0, 48), 48., .5, 1.5, 2.5,
                                         r.randint(0, 48) + .5, 1e-6])
                               for _ in range(12)] for _ in range(2)]
        out.append(c)
    return out


def run(case):
    return {'C13': run13, 'C14': run14, 'C15': run16, 'C16': run16,
            'C27': run27}[case['prop']](case)
