"""Layout functions (C10) for LayoutTrace.tla."""
from . import lib
from .domains import field
from .lib import rng


def call(c):
    import ghedt.coordinates as C
    f = c['field']
    bx, by = c['Bx'] / 1000., c['By'] / 1000.
    n1, n2, a, b = f['n1'], f['n2'], f['a'], f['b']
    s = f['shape']
    if s == 'rect':
        if f['o1'] or f['o2']:
            return C.rectangle(n1, n2, bx, by,
                               origin=(f['o1'] / 1000., f['o2'] / 1000.))
        return C.rectangle(n1, n2, bx, by)
    if s == 'open':
        return C.open_rectangle(n1, n2, bx, by)
    if s == 'U':
        return C.U_shape(n1, n2, bx, by)
    if s == 'lopU':
        return C.lop_U(n1, a, bx, by, b)
    if s == 'L':
        return C.L_shape(n1, n2, bx, by)
    if s == 'C':
        return C.C_shape(n1, n2, bx, by, a)
    if s == 'zoned':
        return C.zoned_rectangle(n1, n2, bx, by, a, b)
    raise KeyError(s)


def run(case):
    import ghedt.coordinates as C
    calls = []
    for c in case['calls']:
        out, err, _ = lib.observe(call, c)
        o = {'field': c['field'], 'out': 'ok', 'obs': [], 'obsT': []}
        if err:
            o['out'] = err['type']
        else:
            o['obs'] = field(out)
            tr, err, _ = lib.observe(C.transpose_coordinates, out)
            o['obsT'] = field(tr) if not err else []
        calls.append(o)
    return {'id': case['id'], 'calls': calls,
            'cover': [c['field']['shape'] for c in case['calls']]}


def one(shape, n1, n2, a, b, r):
    Bx, By = (r.choice([r.randint(500, 9000), 100 * r.randint(3, 90)])
              for _ in range(2))
    o1 = o2 = 0
    if shape == 'rect' and r.random() < .5:
        o1, o2 = r.randint(-50000, 50000), r.randint(0, 50000)
    return {'Bx': Bx, 'By': By, 'field': dict(
        shape=shape, n1=n1, n2=n2, a=a, b=b, s1=[Bx, 1], s2=[By, 1],
        o1=o1, o2=o2)}


def every(m):
    """All calls with sizes up to m."""
    for n1 in range(1, m + 1):
        for n2 in range(1, m + 1):
            for s in ('rect', 'open', 'U', 'L'):
                yield s, n1, n2, 0, 0
            if n1 >= 2:
                for b in range(1, m + 1):
                    yield 'lopU', n1, max(n2, b), n2, b
            if n1 >= 3 and n2 >= 2:
                for a in range(0, n1 - 1):
                    yield 'C', n1, n2, a, 0
            for a in range(0, n1 + 1):
                for b in range(0, n2 + 1):
                    yield 'zoned', n1, n2, a, b


def cases(prop, tier, seed):
    m = 9 if tier == 'thorough' else 6
    r = rng(seed, 'layouts')
    calls = [one(*x, r) for x in every(m)]
    for _ in range(3000 if tier == 'thorough' else 300):
        n1, n2 = r.randint(3, 30), r.randint(3, 30)
        s = r.choice(['rect', 'open', 'U', 'L', 'lopU', 'C', 'zoned'])
        a, b = {'lopU': (r.randint(1, n2), r.randint(1, n2)),
                'C': (r.randint(0, n1 - 2), 0),
                'zoned': (r.randint(0, n1 - 1), r.randint(0, n2 - 1))
                }.get(s, (0, 0))
        calls.append(one(s, n1, n2, a, b, r))
    return [{'id': 'C10-%d' % i, 'calls': calls[i:i + 25]}
            for i in range(0, len(calls), 25)]
