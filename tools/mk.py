#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.py (one dict P per property)."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
ps = []
for f in sorted(glob.glob(os.path.join(V, 'tools/props/*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    ps.append(ns['P'])
main = open(os.path.join(V, 'harness/main.py')).read()
claimed = set(re.findall(r"'([A-Z]\d\d)': \(", main))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in ps:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')},
                           ensure_ascii=False) + '\n')
checks, na = [], []
for p in ps:
    if p['id'] in claimed:
        checks.append({'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']}",
                       'thorough_cmd': f"bash run.sh {p['id']} thorough",
                       'technique': p['technique'], 'level': p.get('level', 'model_checking'),
                       'level_note': p['level_note']})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; conformance drivers in harness/. No hooks in /repo are needed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
for p in ps:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 3, p['id']
print(len(ps), 'properties,', len(checks), 'claimed')
