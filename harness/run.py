"""python -m harness.run SUITE PROP SEED TIER WORKER WORKERS OUT
Runs every WORKERS-th case of a suite and writes the traces."""
import importlib
import json
import os
import sys
import traceback


def main():
    suite, prop, seed, tier, w, n, out = sys.argv[1:8]
    w, n = int(w), int(n)
    mod = importlib.import_module('harness.' + suite)
    cases = mod.cases(prop, tier, int(seed))
    only = os.environ.get('VERIF_CASE')
    res = []
    for i, c in enumerate(cases):
        if i % n != w:
            continue
        if only and str(c.get('id')) != only:
            continue
        try:
            res.append(mod.run(c))
        except (ImportError, MemoryError, OSError):
            sys.stderr.write('case %s\n' % json.dumps(c)[:2000])
            traceback.print_exc()
            sys.exit(3)
        except Exception as e:
            # The code under test gave something that is no value of the
            # specification: not a number, None, a list of another shape
            if os.environ.get('VERIF_TRACEBACK'):
                traceback.print_exc()
            res.append({'id': c.get('id'), 'cover': ['untyped'],
                        'untyped': traceback.format_exc()[-1500:]})
    with open(out, 'w') as f:
        json.dump(res, f)


main()
