"""Keeps a summary of the evidence of the last full run (evidence/ itself is not committed)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, 'tools/last_coverage.json')
r = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(os.path.join(root, 'evidence/C??.json'))):
    d = json.load(open(e)); c = d['coverage']
    if d['violations'] or d['tier'] != 'quick' or c['obligations'] != c['discharged']:
        print('skipped', d['property'], d['violations'], c['obligations'], c['discharged']); continue
    r[d['property']] = dict(functions=c['functions_under_contract'], discharged=c['discharged'], instances=c['discharged_instances'],
        harnesses=len(c['harnesses']), secs=d['wall_s'], bounded=[(h['name'], h['bounded']) for h in c['harnesses'] if h['bounded']])
json.dump(r, open(f, 'w'), indent=1, sort_keys=True)
