"""Writes properties.jsonl and MANIFEST.json from tools/properties/*.py-like records below."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


TRUST = (' Trusted: TLC, the harness that runs the calls and records results, and the claim that the bounded grid is'
         ' representative; inputs beyond the grid are covered by seeded random sessions validated against the same specification.')

for f in sorted(os.listdir(os.path.join(ROOT, 'tools', 'properties'))):
    if f.endswith('.txt'):
        rec = {}
        key = None
        for line in open(os.path.join(ROOT, 'tools', 'properties', f)):
            m = re.match(r'^(id|title|statement|over|text|why|files|mech|technique|note): ?(.*)$', line.rstrip('\n'))
            if m:
                key = m.group(1)
                rec[key] = m.group(2)
            elif line.strip():
                rec[key] += ' ' + line.strip()
        rec['over'] = [x.strip() for x in rec['over'].split(',')]
        rec['files'] = rec['files'].split()
        rec['mech'] = [dict(zip(('name', 'where'), [y.strip() for y in x.split('@')])) for x in rec['mech'].split(';')]
        rec['note'] = rec['note'] + TRUST
        prop(**rec)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mech']}}, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'true',
       'checks': [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in P],
       'not_applicable': [{'property': a, 'reason': b} for a, b in NA],
       'notes': 'Every check: TLC explores the TLA+ specification of the part concerned, the (state, call) pairs of the explored graph are '
                'replayed into the code of /repo, and what the code did is validated by TLC against the same specification.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
