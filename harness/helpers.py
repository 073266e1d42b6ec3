"""Calendar, geometry and statistics helpers, C32."""
import copy
import math
import os
import tempfile

from .lib import big, fix, fixs, observe, rng, limbs

MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
          'August', 'September', 'October', 'November', 'December']
UNITS = [1, 2, 4, 5, 8, 10, 20, 25, 40, 50, 100, 200]    # divide 200


def shape(r):
    """Corners of a simple polygon, quarter metres."""
    k = r.random()
    ox, oy = r.randint(-4000, 4000), r.randint(-4000, 4000)
    if k < .3:
        pts = [(r.randint(-900, 900), r.randint(-900, 900))
               for _ in range(3)]
    elif k < .5:
        a, b = r.randint(1, 900), r.randint(1, 900)
        pts = [(0, 0), (a, 0), (a, b), (0, b)]
    elif k < .65:                                  # an L
        a, b = r.randint(2, 900), r.randint(2, 900)
        c, d = r.randint(1, a - 1), r.randint(1, b - 1)
        pts = [(0, 0), (a, 0), (a, d), (c, d), (c, b), (0, b)]
    else:                                          # star shaped
        n = r.randint(4, 12)
        pts = [(round(q * math.cos(2 * math.pi * i / n)),
                round(q * math.sin(2 * math.pi * i / n)))
               for i in range(n) for q in [r.randint(20, 900)]]
    pts = [[x + ox, y + oy] for x, y in pts]
    j = r.randrange(len(pts))
    pts = pts[j:] + pts[:j]
    return pts[::-1] if r.random() < .5 else pts


def run_months(c):
    import ghedt.peak_load_analysis_tool as plat
    gl = plat.ground_loads
    import ghedt as dt
    tr = dict(obs=[], names=[], index=[], times=[],
              cover=['%d months' % c['n']])

    def f():
        for m in range(1, c['n'] + 1):
            tr['obs'].append([fixs(gl.firstmonthhour(m), 0),
                              fixs(gl.lastmonthhour(m), 0),
                              fixs(gl.monthdays(m), 0)])
        tr['times'] = [fixs(float(a), 4) for a in
                       dt.utilities.Eskilson_log_times()]
        for m in range(1, 13):
            tr['names'].append(str(gl.number_to_month(m)))
            tr['index'].append(fixs(gl.monthindex(MONTHS[m - 1]), 0))
    return tr, f


def run_area(c):
    import ghedt as dt
    p = [[x / 4., y / 4.] for x, y in c['poly']]
    q = [tuple(a) for a in p] if c['tuples'] else copy.deepcopy(p)
    tr = dict(poly=c['poly'], area=[0], kept=False,
              cover=['polygon of %d corners' % len(p)])

    def f():
        tr['area'] = big(float(dt.utilities.polygonal_area(q)), 6)
        tr['kept'] = [list(a) for a in q] == p
    return tr, f


def run_row(c):
    import ghedt as dt
    import numpy as np
    u = dt.utilities
    tr = dict(rows=[], sides=[], cover=['rows'])

    def f():
        for l, b, how in c['rows']:
            L, B = l / 1000., b / 1000.
            up, down = {'np': (np.ceil, np.floor),
                        'math': (math.ceil, math.floor)}[how]
            tr['rows'].append([l, b] + [fixs(n, 0) for n in (
                u.number_of_boreholes(L, B), u.number_of_boreholes(L, B, up),
                u.number_of_boreholes(L, B, func=down))])
        for n, b in c['sides']:
            side = u.length_of_side(n, b / 1000.)
            back = u.spacing_along_length(side, n)
            tr['sides'].append([n, b, fixs(float(side), 6) % 1000,
                                fix(float(side), 6) // 1000,
                                fixs(float(back), 6)])
    return tr, f


def run_order(c):
    import ghedt as dt
    # the first coordinates name the candidates, in no order
    names = c['names']
    dom = [[(float(names[k]), float(j)) for j in range(n)]
           for k, n in enumerate(c['sizes'])]
    was = copy.deepcopy(dom)
    tr = dict(sizes=c['sizes'], got=[], kept=False,
              cover=['domain of %d' % len(dom)])

    def f():
        res = dt.domains.reorder_domain(dom)
        tr['got'] = [[len(q), names.index(int(q[0][0])) + 1] for q in res]
        tr['kept'] = dom == was and all(
            q == was[names.index(int(q[0][0]))] for q in res)
    return tr, f


def run_excess(c):
    import ghedt as dt
    v = [a / 1000. for a in c['v']]
    tr = dict(v=c['v'], steps=[], unimodal=False, cover=['excess'])

    def f():
        d, u = dt.domains.verify_excess(v)
        tr['steps'] = [fixs(float(a), 6) for a in d]
        tr['unimodal'] = bool(u)
        assert v == [a / 1000. for a in c['v']]
    return tr, f


def run_mpe(c):
    import ghedt as dt
    a, p = [float(x) for x in c['a']], [float(x) for x in c['p']]
    tr = dict(a=c['a'], p=c['p'], mpe=[0], cover=['mean percentage error'])

    def f():
        tr['mpe'] = big(float(dt.utilities.compute_mpe(a, p)), 9)
    return tr, f


def run_rect(c):
    import ghedt as dt
    tr = dict(o=c['o'], lx=c['lx'], ly=c['ly'], got=[], cover=['rectangle'])

    def f():
        o = [a / 4. for a in c['o']]
        kw = {} if c['o'] == [0, 0] and c['default'] else {'origin': o}
        got = dt.utilities.make_rectangle_perimeter(
            c['lx'] / 4., c['ly'] / 4., **kw)
        tr['got'] = [[fixs(4 * float(a), 3) for a in q] for q in got]
        got[0][0] += 1
        again = dt.utilities.make_rectangle_perimeter(1., 1.)
        assert again[0][0] == 0, 'a perimeter is tied to another'
    return tr, f


def run_sign(c):
    import ghedt as dt
    import numpy as np
    tr = dict(v=c['v'], signs=[], pairs=[], cover=['signs'])

    def f():
        for k, e in c['v']:
            x = k * 10. ** e
            tr['signs'].append(fixs(dt.utilities.sign(
                np.float64(x) if c['np'] else x), 0))
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                kw = {'disp': True} if c['disp'] else {}
                tr['pairs'].append([a, b, bool(
                    dt.utilities.check_bracket(a, b, **kw))])
    return tr, f


def run_spacing(c):
    import ghedt as dt
    import pygfunction as gt
    tr = dict(pts=c['pts'], rb=c['rb'], got=[0], cover=[
        'spacing of %s' % ('none' if not c['pts'] else 'one'
                           if len(c['pts']) == 1 else 'more')])

    def f():
        b = gt.boreholes.Borehole(100., 2., c['rb'] / 1000., 0., 0.)
        pts = [(x / 1000., y / 1000.) for x, y in c['pts']]
        tr['got'] = big(float(dt.utilities.borehole_spacing(b, pts)), 9)
    return tr, f


def tree(r, depth):
    k = r.random()
    if depth == 0 or k < .4:
        return r.choice([1, -3, 2.5, 1e-9, 'a', 'é"', None, True, '',
                         0.1 + 0.2, 1e22])
    if k < .7:
        return [tree(r, depth - 1) for _ in range(r.randint(0, 4))]
    return {r.choice('zyxab') + str(9 - i): tree(r, depth - 1)
            for i in range(r.randint(0, 4))}


def run_json(c):
    import ghedt as dt
    u = dt.utilities
    tr = dict(same=False, made=False, cover=['json'])

    def f():
        with tempfile.TemporaryDirectory() as d:
            name = os.path.join(d, 'x', 'y') if c['deep'] else d
            u.create_if_not(name)
            with open(os.path.join(name, 'keep'), 'w') as g:
                g.write('1')
            u.create_if_not(name)
            tr['made'] = os.listdir(name) == ['keep']
            was = copy.deepcopy(c['tree'])
            for _ in range(2):
                if c['indent']:
                    u.js_dump(os.path.join(name, 'f'), c['tree'], indent=2)
                else:
                    u.js_dump(os.path.join(name, 'f'), c['tree'])
            got = u.js_load(os.path.join(name, 'f.json'))
            tr['same'] = repr(got) == repr(was) == repr(c['tree'])
    return tr, f


KINDS = {'months': (run_months, 3), 'area': (run_area, 60),
         'row': (run_row, 12), 'order': (run_order, 24),
         'excess': (run_excess, 16), 'mpe': (run_mpe, 24),
         'rect': (run_rect, 12), 'sign': (run_sign, 6),
         'spacing': (run_spacing, 40), 'json': (run_json, 8)}


def cases(prop, tier, seed):
    out = []
    for kind, (_, n) in KINDS.items():
        for k in range(n * (10 if tier == 'thorough' else 1)):
            r = rng(seed, 'C32', kind, k)
            c = {'id': '%s-%d' % (kind, k), 'kind': kind}
            if kind == 'months':
                c['n'] = [12, 120, 400][k % 3]
            elif kind == 'area':
                c.update(poly=shape(r), tuples=r.random() < .5)
            elif kind == 'row':
                rows = []
                for _ in range(40):
                    b = r.choice([r.randint(500, 20000), 4500, 3048, 5000,
                                  r.randint(1, 40) * 100])
                    n = r.randint(0, 60)
                    l = b * n + r.choice([0, 0, 0, 1, -1, r.randrange(b)])
                    rows.append([max(0, l), b, r.choice(['np', 'math'])])
                c['rows'] = rows
                c['sides'] = [[r.randint(2, 60), r.randint(1, 20000)]
                              for _ in range(20)]
            elif kind == 'order':
                c['sizes'] = [r.randint(1, 12)
                              for _ in range(r.choice([0, 1, 2, 5, 20]))]
                c['names'] = r.sample(range(100), len(c['sizes']))
            elif kind == 'excess':
                n = r.choice([0, 1, 2, 6, 20])
                v = [r.randint(-9000, 40000) for _ in range(n)]
                if r.random() < .6:
                    v.sort(reverse=True)
                if n > 1 and r.random() < .4:
                    v[-1] = v[-2] + r.choice([0, 0, 1, -1])
                c['v'] = v
            elif kind == 'mpe':
                n = r.choice([1, 2, 3, 10, 27])
                c['a'] = [r.choice([-1, 1, 1]) * r.choice(UNITS)
                          for _ in range(n)]
                c['p'] = [a + r.randint(-30, 30) for a in c['a']]
            elif kind == 'rect':
                c.update(lx=r.randint(0, 2000), ly=r.randint(0, 2000),
                         o=r.choice([[0, 0], [r.randint(-900, 900),
                                              r.randint(-900, 900)]]),
                         default=r.random() < .5)
            elif kind == 'sign':
                c.update(v=[[r.choice([-1, 0, 1]) * r.randint(1, 9),
                             r.choice([-300, -9, -1, 0, 1, 8, 300])]
                            for _ in range(30)],
                         np=k % 2 == 0, disp=k % 3 == 0)
            elif kind == 'spacing':
                n = r.choice([0, 1, 2, 2, 3, 9])
                c['pts'] = [[r.randint(-9000, 9000), r.randint(-9000, 9000)]
                            for _ in range(n)]
                if n > 1 and r.random() < .6:
                    x, y = c['pts'][0]
                    c['pts'][1] = r.choice([
                        [x + r.randint(1, 9000), y], [x, y - 5000],
                        [x, y], [x + 60, y + 10], [x - 75, y]])
                c['rb'] = r.choice([75, 60, 100])
            else:
                c.update(tree={'b': tree(r, 4), 'a': tree(r, 3)},
                         deep=r.random() < .5, indent=r.random() < .5)
            out.append(c)
    return out


def run(case):
    tr, f = KINDS[case['kind']][0](case)
    _, err, _ = observe(f)
    tr.update(id=case['id'], kind=case['kind'],
              out=err['type'] if err else 'ok')
    return tr
