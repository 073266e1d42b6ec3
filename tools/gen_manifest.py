"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS  # noqa: E402
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        cmd = '/opt/venv/bin/python -W ignore check.py ' + i
        checks.append({
            'property': i, 'quick_cmd': cmd, 'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd,
            'technique': 'TLA+ model checking with TLC (%s) and trace '
                         'validation of the real code against the same '
                         'specification (%s)' % (
                             ', '.join(m[1] for m in c['mc']), c['trace']),
            'level': 'model_checking',
            'level_note': c.get('note', 'The specification is checked '
                'exhaustively for small constants; the real code is bound to '
                'it by TLC validating a trace of every generated case. '
                'Inputs not generated are not covered.')})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
json.dump({'version': 1,
           'setup_cmd': 'sh setup.sh',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything is observed through the '
                    'public API. TLA+ with TLC; see DESIGN.md.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
