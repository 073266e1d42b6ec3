"""check.py PROPERTY [--replay FILE]

Decides one property: model checks the specification module that states it,
runs the real code of /repo on generated cases, and lets TLC judge every
recorded trace against that same specification.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the machinery failed.
"""
import concurrent.futures as cf
import collections
import glob
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
PY = '/opt/venv/bin/python'
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
REPO = os.environ.get('VERIF_REPO', '/repo')
CORES = min(8, os.cpu_count() or 1)
DEADLINE = 840 if TIER == 'quick' else 6 * 3600

sys.path.insert(0, HERE)
from checks import CHECKS                                    # noqa: E402


class Machinery(Exception):
    pass


def env(scratch, **more):
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
         'HOME': scratch, 'TMPDIR': scratch, 'LANG': 'C.UTF-8',
         'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
         'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
         'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
         'VERIF_REPO': REPO, 'VERIF_SEED': str(SEED), 'VERIF_TIER': TIER}
    for k in ('VERIF_CASE', 'VERIF_TRACEBACK', 'JAVA_HOME'):
        if k in os.environ:
            e[k] = os.environ[k]
    e.update(more)
    return e


def tlc(module, config, scratch, workers, trace=None, simulate=None):
    meta = tempfile.mkdtemp(dir=scratch)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx5g', '-Xss32m',
           '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', config]
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', '60',
                '-seed', str(SEED)]
    cmd += [module]
    e = env(scratch)
    if trace:
        e['TRACE_FILE'] = trace
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True,
                       timeout=DEADLINE)
    shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in re.finditer(r'([\d,]+) states generated.*?([\d,]+) distinct',
                         p.stdout):
        pass
    gen, dist = ((int(m.group(1).replace(',', '')),
                  int(m.group(2).replace(',', ''))) if m else (0, 0))
    return p.returncode, p.stdout, gen, dist


def model_check(mc, scratch, workers):
    """The specification itself satisfies its properties."""
    t0 = time.time()
    module, config = mc[0], mc[1]
    rc, out, gen, dist = tlc(module + '.tla', config + '.cfg', scratch,
                             workers)
    if rc != 0 or 'No error has been found' not in out:
        raise Machinery('model checking %s/%s failed:\n%s'
                        % (module, config, out[-6000:]))
    return {'config': config, 'generated': gen, 'distinct': dist,
            'seconds': round(time.time() - t0, 1)}


def behaviours(gen, scratch):
    """Random behaviours of the specification, for replay on the code."""
    module, config, quick, thorough = gen
    n = quick if TIER == 'quick' else thorough
    rc, out, _, _ = tlc(module + '.tla', config + '.cfg', scratch, 1,
                        simulate=8 * n)
    kinds = collections.OrderedDict()
    last = None
    for line in out.splitlines():
        if line.startswith('"BEHAVIOUR '):
            b = json.loads(json.loads(line.strip()).split(' ', 1)[1])
            if b != last:
                kinds.setdefault(b[0].get('aim'), []).append(b)
            last = b
    # as many of each kind of beginning
    got = [b for bs in itertools.zip_longest(*kinds.values())
           for b in bs if b is not None]
    if rc != 0 or len(got) < n / 2:
        raise Machinery('generating behaviours with %s failed:\n%s'
                        % (module, out[-4000:]))
    with open(os.path.join(scratch, 'behaviours.json'), 'w') as f:
        json.dump(got[:n], f)
    return len(got[:n])


def harness(suite, prop, scratch):
    """Run the real code; 8 processes share the cases."""
    procs = []
    for w in range(CORES):
        out = os.path.join(scratch, 'traces.%d.json' % w)
        log = open(os.path.join(scratch, 'log.%d' % w), 'w')
        procs.append((out, log, subprocess.Popen(
            [PY, '-W', 'ignore', '-m', 'harness.run', suite, prop, str(SEED),
             TIER, str(w), str(CORES), out], cwd=HERE, env=env(
                 scratch, VERIF_BEHAVIOURS=os.path.join(
                     scratch, 'behaviours.json')),
            stdout=log, stderr=log)))
    traces = []
    end = time.time() + DEADLINE
    for w, (out, log, p) in enumerate(procs):
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        log.close()
        if rc != 0:
            for q in procs:
                q[2].kill()
            raise Machinery('harness worker %d: %s\n%s' % (
                w, rc, open(log.name).read()[-4000:]))
        with open(out) as f:
            traces += json.load(f)
    return traces


VERDICT = re.compile(r'VERDICT (\d+) \{(.*)\}"?\s*$')


def judge(module, traces, scratch, prop):
    """Clauses rejected by the trace specification, per trace."""
    verdicts = {}
    gen = dist = 0
    todo = list(range(len(traces)))
    broken = []
    for _ in range(25):
        if not todo:
            break
        path = os.path.join(scratch, 'traces.json')
        with open(path, 'w') as f:
            json.dump([traces[i] for i in todo], f)
        rc, out, g, d = tlc(module + '.tla', 'Trace.cfg', scratch, CORES,
                            trace=path)
        gen, dist = gen + g, dist + d
        got = {}
        for line in out.splitlines():
            m = VERDICT.search(line)
            if m:
                got[todo[int(m.group(1)) - 1]] = re.findall(
                    r'[A-Z]\d\d\.[\w.:\-]+', m.group(2))
        if os.environ.get('VERIF_TLCOUT'):
            print(out[-3000:])
        verdicts.update(got)
        missing = [i for i in todo if i not in got]
        if rc == 0 and not missing:
            todo = []
            break
        if rc == 0:
            raise Machinery('traces without a verdict: %s\n%s' % (
                [traces[i].get('id') for i in missing][:5], out[-3000:]))
        # TLC could not evaluate the specification on some trace
        ts = re.findall(r'^(?:/\\ )?t = (\d+)', out, re.M)
        if not ts or todo[int(ts[-1]) - 1] in got:
            raise Machinery('trace validation failed:\n' + out[-6000:])
        i = todo[int(ts[-1]) - 1]
        if os.environ.get('VERIF_TRACEBACK'):
            print(out[-6000:])
        broken.append((i, out[-3000:]))
        verdicts[i] = [prop + '.malformed']
        todo = [j for j in missing if j != i]
    if todo:
        raise Machinery('too many traces TLC cannot evaluate:\n'
                        + broken[-1][1])
    return verdicts, gen, dist


def known_findings():
    found = []
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) clause=(\S+) case=(\S+) '
                         r'(.*)', line)
            if m:
                found.append(m.groups())
    return found


def main():
    prop = sys.argv[1]
    t0 = time.time()
    spec = CHECKS[prop]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            rep = json.load(open(sys.argv[3]))
            os.environ['VERIF_CASE'] = str(rep['case'])
            globals().update(TIER=rep['tier'], SEED=rep['seed'])
        rc = decide(prop, spec, scratch, t0)
    except Machinery as e:
        print('MACHINERY FAILURE (no verdict): %s' % e)
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(prop, spec, scratch, t0):
    mcs = [m for m in spec['mc'] if len(m) < 3 or m[2] == TIER or
           (m[2] == 'quick' and TIER == 'quick')]
    with cf.ThreadPoolExecutor(3) as ex:
        mfut = [ex.submit(model_check, m, scratch, 2 if TIER == 'quick'
                          else CORES) for m in mcs]
        generated = behaviours(spec['gen'], scratch) if 'gen' in spec else 0
        traces = harness(spec['suite'], prop, scratch)
        if not traces:
            raise Machinery('no case was run')
        # An observation outside the types of the specification
        untyped = [i for i, t in enumerate(traces) if 'untyped' in t]
        typed = [i for i, t in enumerate(traces) if 'untyped' not in t]
        verdicts, tgen, tdist = judge(
            spec['trace'], [traces[i] for i in typed], scratch, prop) \
            if typed else ({}, 0, 0)
        verdicts = {typed[i]: v for i, v in verdicts.items()}
        verdicts.update({i: [prop + '.untyped'] for i in untyped})
        models = [f.result() for f in mfut]
    mine = lambda c: c.startswith(prop + '.')                # noqa: E731
    rejected = {i: sorted(set(filter(mine, v))) for i, v in verdicts.items()}
    rejected = {i: v for i, v in rejected.items() if v}
    known = known_findings()
    violations, findings = [], collections.OrderedDict()
    for i in sorted(rejected):
        sig = str(traces[i].get('sig', traces[i].get('id')))
        for c in rejected[i]:
            hit = [k for k in known if k[0] == prop and k[1] == c
                   and k[2] == sig]
            if hit:
                findings[hit[0]] = True
            else:
                violations.append((i, c))
    for k in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    shown = set()
    rdir = os.path.join(HERE, 'replays')
    for f in glob.glob(os.path.join(rdir, prop + '-*.json')):
        os.remove(f)
    for i, c in violations:
        if c in shown or len(shown) >= 8:
            continue
        shown.add(c)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, len(shown)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'clause': c, 'seed': SEED,
                       'tier': TIER, 'case': traces[i].get('id'),
                       'suite': spec['suite'], 'trace': traces[i]}, f)
        print('rejected: case %s clause %s' % (traces[i].get('id'), c))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    cover = collections.Counter()
    for t in traces:
        cover.update(t.get('cover', []))
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED,
        'level': 'model_checking',
        'coverage': {
            'states': sum(m['distinct'] for m in models) + tdist,
            'transitions': sum(m['generated'] for m in models) + tgen,
            'traces_validated_against_impl': len(verdicts),
            'traces_rejected': len(rejected),
            'exhaustive_models': models,
            'trace_specification': spec['trace'],
            'behaviours_generated_from_the_specification': generated,
            'trace_states': tdist,
            'cases_by_kind': dict(sorted(cover.items())),
            'samples': [clip(t) for t in traces[:2] + traces[-1:]],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d traces of the real code, %d rejected; %d model states; '
          '%.1f s' % (prop, len(verdicts), len(rejected),
                      ev['coverage']['states'], time.time() - t0))
    return 1 if violations else 0


def clip(x, depth=0):
    if isinstance(x, dict):
        return {k: clip(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, list):
        return [clip(v, depth + 1) for v in x[:6]] + (
            ['... %d in all' % len(x)] if len(x) > 6 else [])
    return x


if __name__ == '__main__':
    main()
