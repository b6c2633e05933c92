import sys, os, importlib
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
sys.path.insert(0, os.environ.get('PYVC_REPO','/repo'))
from pyvc import core
m = importlib.import_module('props.'+sys.argv[1])
names = sys.argv[2:] or [f.__name__ for f in m.PROOFS]
for f in m.PROOFS:
    if f.__name__ in names:
        c = core.explore(f.__name__, f, float(os.environ.get('B','150')), 8000)
        bad=[(o.label,o.status,o.detail[:600]) for o in c.obligations.values() if o.status!='unsat']
        print(f.__name__, c.status, c.reason, 'obl', len(c.obligations), 'inst', sum(c.counts.values()), 'paths', c.paths, '%.1fs'%c.secs, 'queries', c.queries, 'covers', c.covers)
        for b in bad: print('OPEN', b)
