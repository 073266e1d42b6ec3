"""Shared by all suites: exact numbers for TLC, parameters and parallel runs."""
import math
import os
import random
import signal
import sys
import traceback
import warnings
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

BASE = 10000
SMALL = 2 ** 31 - 1


# ---------------------------------------------------------------- numbers
def limbs(i):
    """A big integer as TLC reads it: signed limbs, little endian."""
    s = -1 if i < 0 else 1
    i = abs(int(i))
    out = []
    while True:
        out.append(s * (i % BASE))
        i //= BASE
        if i == 0:
            return out


class NotFinite(Exception):
    pass


def fix(x, decimals):
    """x * 10^decimals rounded to the nearest integer, exactly."""
    if isinstance(x, Fraction):
        return round(x * 10 ** decimals)
    if hasattr(x, 'item'):          # numpy scalars and 0-d arrays
        x = x.item()
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise NotFinite('not a number: %r' % (x,))
    if isinstance(x, float) and not math.isfinite(x):
        raise NotFinite(repr(x))
    return round(Fraction(x) * 10 ** decimals)


def big(x, decimals):
    return limbs(fix(x, decimals))


def small(i):
    i = int(i)
    if abs(i) > SMALL:
        raise NotFinite('too large for TLC: %d' % i)
    return i


def fixs(x, decimals):
    return small(fix(x, decimals))


# ---------------------------------------------------------------- running
class Timeout(Exception):
    pass


class Alarm:
    """Bound the time of a call into the code under test."""

    def __init__(self, seconds):
        self.seconds = int(seconds)

    def __enter__(self):
        def on(*_):
            raise Timeout()
        self.old = signal.signal(signal.SIGALRM, on)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)


def raised(e):
    """An exception as an observation, whatever it was."""
    return {'kind': 'raised', 'type': type(e).__name__,
            'text': str(e)[:200]}


def observe(f, *args, seconds=60, **kwargs):
    """(value, None) or (None, observation of the exception)."""
    try:
        with Alarm(seconds), quiet() as w:
            v = f(*args, **kwargs)
        return v, None, w
    except Exception as e:                        # noqa: every one is judged
        if os.environ.get('VERIF_TRACEBACK'):
            traceback.print_exc()
        return None, raised(e), []


class quiet:
    """Silence prints and collect warnings."""

    def __enter__(self):
        self.cw = warnings.catch_warnings(record=True)
        w = self.cw.__enter__()
        warnings.simplefilter('always')
        self.out, self.err = sys.stdout, sys.stderr
        self.null = open(os.devnull, 'w')
        sys.stdout = self.null
        sys.stderr = self.null
        return w

    def __exit__(self, *exc):
        sys.stdout, sys.stderr = self.out, self.err
        self.null.close()
        self.cw.__exit__(*exc)


def rng(*key):
    return random.Random('/'.join(str(k) for k in key))


# ------------------------------------------------------- physical fixtures
def plat():
    import ghedt.peak_load_analysis_tool as p
    return p


class Params:
    """Physical parameters of a field; pieces are made fresh on each call."""

    def __init__(self, kind='single', r=None):
        import pygfunction as gt
        p = plat()
        self.kind = kind
        self.H, self.D, self.r_b = 96., 2., 0.075
        self.r_out, self.r_in, self.s = 26.67e-3 / 2, 21.6e-3 / 2, 32.3e-3
        self.eps = 1.0e-6
        self.k_p, self.k_s, self.k_g = 0.4, 2.0, 1.0
        self.rc_p, self.rc_s, self.rc_g = 1542.e3, 2343.493e3, 3901.e3
        self.ugt = 18.3
        self.V_flow = 0.2
        self.fluid_args = ('MEA', 0.)
        self.months = (1, 24)
        self.EFT = (35., 5.)
        self.heights = (384., 24.)
        self.coax = (44.2e-3 / 2, 50.e-3 / 2, 97.4e-3 / 2, 110.e-3 / 2)
        if r is not None:
            self.D = round(r.uniform(1, 5), 3)
            self.r_b = round(r.uniform(0.07, 0.09), 4)
            self.k_s = round(r.uniform(1.2, 3.2), 3)
            self.k_g = round(r.uniform(0.7, 1.8), 3)
            self.rc_s = round(r.uniform(1.8e6, 2.8e6), 0)
            self.ugt = round(r.uniform(9, 21), 2)
            self.V_flow = round(r.uniform(0.15, 0.6), 3)
            self.fluid_args = r.choice([('MEA', 0.), ('MPG', 20.),
                                        ('Water', 0.)])
        self.fluid = gt.media.Fluid(*self.fluid_args)

    def bhe_object(self):
        b = plat().borehole_heat_exchangers
        return {'single': b.SingleUTube, 'double': b.MultipleUTube,
                'coaxial': b.CoaxialPipe}[self.kind]

    def pipe(self):
        m = plat().media
        if self.kind == 'coaxial':
            a, b, c, d = self.coax
            return m.Pipe((0, 0), [a, b], [c, d], 0, self.eps,
                          [self.k_p, self.k_p], self.rc_p)
        n = 1 if self.kind == 'single' else 2
        pos = m.Pipe.place_pipes(self.s, self.r_out, n)
        return m.Pipe(pos, self.r_in, self.r_out, self.s, self.eps, self.k_p,
                      self.rc_p)

    def grout(self):
        return plat().media.Grout(self.k_g, self.rc_g)

    def soil(self):
        return plat().media.Soil(self.k_s, self.rc_s, self.ugt)

    def borehole(self, H=None, r_b=None, D=None):
        import pygfunction as gt
        return gt.boreholes.Borehole(self.H if H is None else H,
                                     self.D if D is None else D,
                                     self.r_b if r_b is None else r_b,
                                     x=0., y=0.)

    def sim(self):
        s, e = self.months
        return plat().media.SimulationParameters(
            s, e, self.EFT[0], self.EFT[1], self.heights[0], self.heights[1])


def patch_everywhere(old, new):
    """Replace an object in every ghedt module that names it; undo list."""
    undo = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == 'ghedt' or name.startswith('ghedt.')):
            continue
        for k, v in list(vars(mod).items()):
            if v is old:
                undo.append((mod, k, v))
                setattr(mod, k, new)
    return undo


class patched:
    """with patched((old, new), ...): every ghedt name of old means new."""

    def __init__(self, *pairs):
        self.pairs = pairs

    def __enter__(self):
        self.undo = []
        for old, new in self.pairs:
            self.undo += patch_everywhere(old, new)
        return self

    def __exit__(self, *exc):
        for mod, k, v in self.undo:
            setattr(mod, k, v)


def isolated(f, *args, seconds=300):
    """f(*args) in a process of its own, so that nothing it leaves behind
    reaches another call; the value must be JSON."""
    import json
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(int(seconds))
            try:
                out = {'value': f(*args)}
            except Exception as e:                    # noqa: passed on
                out = {'error': raised(e), 'trace': traceback.format_exc()}
            with os.fdopen(w, 'w') as h:
                json.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as h:
        text = h.read()
    os.waitpid(pid, 0)
    if not text:
        raise Timeout('isolated call gave nothing')
    out = json.loads(text)
    if 'error' in out:
        raise RuntimeError(out['trace'])
    return out['value']


def behaviours():
    """What the specification generated for this check."""
    import json
    with open(os.environ['VERIF_BEHAVIOURS']) as f:
        return json.load(f)
