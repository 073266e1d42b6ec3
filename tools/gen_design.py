"""Write DESIGN.md: the head, the table of properties and planted bugs."""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(H + '/tools/design_notes.py').read(), ns)
NOTES, TAIL = ns['NOTES'], ns['TAIL']
out = [open(H + '/tools/design.head.md').read()]
seeds = {}
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append(os.path.basename(os.path.dirname(f)))
for line in open(H + '/properties.jsonl'):
    p = json.loads(line)
    n = NOTES[p['id']]
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], n.strip()))
    if p['id'] in seeds:
        out.append('Planted bugs caught: %s.\n' % ', '.join(
            '`%s`' % s for s in seeds[p['id']] if s not in ns['MISSED']))
    miss = [s for s in seeds.get(p['id'], []) if s in ns['MISSED']]
    if miss:
        out.append('Not caught: %s.\n' % ', '.join(
            '`%s` (%s)' % (s, ns['MISSED'][s]) for s in miss))
out.append(TAIL)
open(H + '/DESIGN.md', 'w').write('\n'.join(out))
