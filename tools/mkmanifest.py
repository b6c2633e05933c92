import ast, json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']; f = os.path.join(root, 'props', i + '.py')
    if os.path.exists(f):
        ns = {}
        for st in ast.parse(open(f).read()).body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and getattr(st.targets[0], 'id', '') in ('LEVEL', 'LEVEL_NOTE', 'TECHNIQUE'):
                ns[st.targets[0].id] = ast.literal_eval(st.value)
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            technique=ns.get('TECHNIQUE', 'contract-based deductive verification (own VC generator over the real source, z3)'),
            level=ns.get('LEVEL', 'proof'), level_note=ns.get('LEVEL_NOTE', '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks: the checks read the source of /repo and import it unmodified', source_commits=[]))
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'na')
