"""Make and confirm a planted bug:  mkseed.py FILE...  where each FILE defines
SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
Works in a scratch copy of /repo; writes /verif/seeded/<id>/."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1',
           PYTHONHASHSEED='0', MPLBACKEND='Agg',
           MPLCONFIGDIR='/opt/mplconfig', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def tests(copy):
    out = os.path.join(copy, 'junit.out')
    e = dict(ENV, PYTHONPATH=copy)
    p = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6',
            '--timeout=600', 'tests'], copy, env=e)
    m = re.search(r'(\d+) passed', p.stdout)
    return (m and int(m.group(1)) == 10 and 'failed' not in p.stdout), p.stdout[-600:]


def demo(d, copy):
    tmp = tempfile.mkdtemp()
    shutil.copytree(d, tmp + '/x')
    p = sh(['sh', tmp + '/x/demo.sh'], copy,
           env=dict(ENV, PYTHONPATH=copy), timeout=300)
    shutil.rmtree(tmp)
    return p.returncode, p.stdout[-1500:]


def make(s, skip_tests=False):
    d = os.path.join(H, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(s['demo'].lstrip('\n'))
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/sh\n# exit 0: the property holds; otherwise broken\n'
                'export MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'],
               'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'),
              indent=1)
    tmp = tempfile.mkdtemp(prefix='seed-')
    copy = tmp + '/repo'
    ok = True
    try:
        shutil.copytree('/repo', copy, symlinks=True)
        sh(['git', 'checkout', '-q', '--', '.'], copy)
        rc, out = demo(d, copy)
        if rc != 0:
            print(s['id'], 'DEMO FAILS ON CLEAN', rc, out)
            ok = False
        for f, old, new in s['edits']:
            p = os.path.join(copy, f)
            src = open(p).read()
            if src.count(old) != 1:
                print(s['id'], 'EDIT MATCHES', src.count(old), repr(old[:60]))
                return False
            blame = sh(['git', 'blame', '-s', f], copy).stdout.splitlines()
            a = src[:src.index(old)].count('\n')
            b = a + old.count('\n')
            newer = [l for l in blame[a:b + 1] if not l.startswith('^')]
            if newer:
                print(s['id'], 'touches my lines:', newer[:3])
            open(p, 'w').write(src.replace(old, new))
        diff = sh(['git', 'diff'], copy).stdout
        open(d + '/patch.diff', 'w').write(diff)
        rc, out = demo(d, copy)
        if rc == 0:
            print(s['id'], 'DEMO PASSES WITH THE BUG', out)
            ok = False
        if not skip_tests:
            good, out = tests(copy)
            if not good:
                print(s['id'], 'TESTS FAIL', out)
                ok = False
        p = sh([PY, '-W', 'ignore', H + '/check.py', s['property']], H,
               env=dict(ENV, VERIF_REPO=copy))
        clauses = re.findall(r'rejected: case (\S+) clause (\S+)', p.stdout)
        print('%-28s %s ok=%s check rc=%d %s' % (
            s['id'], s['property'], ok, p.returncode,
            sorted({c for _, c in clauses})))
        if p.returncode == 2:
            print(p.stdout[-3000:])
    finally:
        shutil.rmtree(tmp)
    return ok


if __name__ == '__main__':
    want = os.environ.get('SEED')
    for f in sys.argv[1:]:
        for s in runpy.run_path(f)['SEEDS']:
            if want and s['id'] != want:
                continue
            make(s)
