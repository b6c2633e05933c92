"""Assembles DESIGN.md."""
import ast, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(os.path.join(root, 'tools/design_head.md')).read()]
for l in open(os.path.join(root, 'known_findings.jsonl')):
    d = json.loads(l)
    out.append('* ' + (d.get('fixed') or json.dumps(d)) + '\n')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
extra = json.load(open(os.path.join(root, 'tools/design_notes.json')))
out.append('\n## 5. Per property\n')
tot = dis = 0
for p in props:
    i = p['id']; src = open(os.path.join(root, 'props', i + '.py')).read()
    t = ast.parse(src); ns = {}
    for st in t.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') in ('LEVEL', 'LEVEL_NOTE', 'TRUSTED', 'ASSUMPTIONS'):
            try:
                ns[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    out.append('\n### %s %s\n\n' % (i, p['title']))
    out.append('* level: **%s** — %s\n' % (ns.get('LEVEL', 'proof'), ns.get('LEVEL_NOTE', '')))
    try:
        e = json.load(open(os.path.join(root, 'tools/last_coverage.json')))[i]
        out.append('* functions under contract (%d): %s\n' % (len(e['functions']), ', '.join('`%s`' % f.replace('chainerrl.', '') for f in e['functions'])))
        out.append('* %d obligations discharged in %d harnesses, %d path instances, about %d s%s\n' % (
            e['discharged'], e['harnesses'], e['instances'], e['secs'],
            '; bounded: ' + '; '.join(sorted('%s (%s)' % tuple(b) for b in e['bounded'])) if e['bounded'] else ''))
    except (OSError, KeyError):
        pass
    out.append('* why tests cannot: %s\n' % p['why_tests_cant'])
    if ns.get('TRUSTED'):
        out.append('* trusted: %s\n' % '; '.join(ns['TRUSTED']))
    if ns.get('ASSUMPTIONS'):
        out.append('* assumptions: %s\n' % '; '.join(ns['ASSUMPTIONS']))
    if extra.get(i):
        out.append('* ' + extra[i] + '\n')
out.append('\n## 6. Planted bugs\n\nKept in `seeded/`; each passes the stable tests, and its demo fails with it.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n')
for d in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], extra.get('caught', {}).get(n, m['property'] + ', with a concrete input')))
out.append(open(os.path.join(root, 'tools/design_tail.md')).read())
open(os.path.join(root, 'DESIGN.md'), 'w').write(''.join(out))
