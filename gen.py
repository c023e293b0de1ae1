#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property metadata in meta/*.py (one file per group)."""
import json, os, glob, runpy
R = os.path.dirname(os.path.abspath(__file__))
TECH = 'symbolic execution of the LLVM IR of the real library + SMT (z3) over all values within stated bounds'
P = []
for f in sorted(glob.glob(R + '/meta/*.py')): P += runpy.run_path(f)['P']
P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p.get('observe', []), hook_needed=None))) + '\n')
checks, na = [], []
for p in P:
    if p.get('na'): na.append(dict(property=p['id'], reason=p['na'])); continue
    checks.append(dict(property=p['id'], quick_cmd=f'python3 vf.py check {p["id"]} quick', thorough_cmd=f'python3 vf.py check {p["id"]} thorough', technique=p.get('tech', TECH), level=p.get('level', 'model_checking'), level_note=p['note']))
with open(R + '/MANIFEST.json', 'w') as f: json.dump(dict(version=1, setup_cmd='python3 vf.py setup', checks=checks, not_applicable=na), f, indent=1); f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
