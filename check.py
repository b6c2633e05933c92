"""Runner: decides one property. Exit 0 = held on everything explored, 1 = VIOLATION line printed."""
import logging
logging.disable(logging.CRITICAL)
import hashlib, importlib, json, os, random, resource, signal, sys, time, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

TIERS = {'quick': dict(proof=150.0, conc=20.0, timeout=8000), 'thorough': dict(proof=500.0, conc=240.0, timeout=30000)}
TOOL_ERRORS = ('TypeError', 'AttributeError', 'NotImplementedError', 'NameError', 'ImportError', 'SyntaxError',
               'RecursionError', 'Z3Exception', 'UnboundLocalError', 'ArithmeticError', 'SystemError')


def run_proof(args):
    pid, name, budget, timeout = args
    try:
        import faulthandler
        from pyvc import core
        m = importlib.import_module('props.' + pid)
        fn = dict((f.__name__, f) for f in m.PROOFS)[name]
        c = core.explore(name, fn, getattr(fn, 'budget', budget) if budget < 200 else budget, timeout)
        st = c.status
        if st == 'error':
            st = 'unsupported' if c.reason.split(':')[0] in TOOL_ERRORS else 'exception'
        obs = [(o.label, o.status, o.backend, round(o.secs, 3), o.detail, c.counts.get(l, 0))
               for l, o in c.obligations.items()]
        return dict(name=name, status=st, reason=c.reason, obligations=obs, discharged=sum(c.counts.values()),
                    backends=c.backends, solver_secs=c.solver_secs, queries=c.queries, paths=c.paths, secs=c.secs,
                    functions=sorted(c.functions), covers=dict(c.covers), trusted=sorted(c.trusted),
                    failed=len(c.failed), bounded=getattr(fn, 'bounded', None), expect=list(getattr(fn, 'expect', ())))
    except BaseException as e:
        return dict(name=name, status='unsupported', reason='%s: %s' % (type(e).__name__, e), obligations=[],
                    discharged=0, backends={}, solver_secs=0, queries=0, paths=0, secs=0, functions=[], covers={},
                    trusted=[], failed=0, bounded=None, expect=[], tb=traceback.format_exc())


def run_conc(args):
    """Seeded concrete search of the real code for one (generator, runner) pair."""
    pid, name, seed, secs, shard = args
    out = dict(name=name, evaluations=0, distinct=0, fail=None, samples=[], error=None)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))  # a runaway case fails by itself
        m = importlib.import_module('props.' + pid)
        gen, run = [(g, r) for n, g, r in m.CASES if n == name][0]
        rng = random.Random('%s/%s/%s/%s' % (pid, name, seed, shard))
        t0 = time.time()
        seen = set()
        maxn = getattr(run, 'max_cases', 200000)
        while time.time() - t0 < secs and out['evaluations'] < maxn:
            case = gen(rng)
            if case is None:
                break
            key = hashlib.md5(json.dumps(case, sort_keys=True, default=repr).encode()).hexdigest()
            out['evaluations'] += 1
            if key not in seen:
                seen.add(key)
                if len(out['samples']) < 2:
                    out['samples'].append(case)
            msg = safe_run(run, case)
            if msg:
                small, msg = shrink(run, case, msg)
                out['fail'] = dict(check=name, case=small, message=msg)
                break
            if getattr(m, 'STOP_WHEN_SAME', True) and out['evaluations'] > 3000 and len(seen) < out['evaluations'] // 50:
                break
        out['distinct'] = len(seen)
    except BaseException as e:
        out['error'] = traceback.format_exc()
    return out


class Hang(BaseException):
    pass


def _hang(signum, frame):
    raise Hang()


def safe_run(run, case):
    """Runs one case; one that gives no answer (twice, with a limit far above what a case takes) has failed."""
    limit = getattr(run, 'limit', 20)
    for k in (1, 2):
        old = signal.signal(signal.SIGALRM, _hang)
        signal.setitimer(signal.ITIMER_REAL, limit * k)
        try:
            return _safe_run(run, case)
        except Hang:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    return 'no answer: the case did not come to an end within %d s' % (limit * 2)


def _safe_run(run, case):
    try:
        return run(case)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected %s: %s at %s' % (type(e).__name__, e, [(f.filename[-40:], f.lineno) for f in tb[-3:]])


def shrink(run, case, msg):
    """Greedy shrinking of lists inside a JSON case."""
    t0 = time.time()

    def variants(c):
        if isinstance(c, dict):
            for k in c:
                for v in variants(c[k]):
                    d = dict(c)
                    d[k] = v
                    yield d
        elif isinstance(c, list) and len(c) > 1:
            h = len(c) // 2
            yield c[:h]
            yield c[h:]
            if len(c) <= 12:
                for i in range(len(c)):
                    yield c[:i] + c[i + 1:]
    if getattr(run, 'noshrink', False) or msg.startswith('no answer'):
        return case, msg
    progress = True
    kind = msg.split(':')[0]
    while progress and time.time() - t0 < 5:
        progress = False
        for v in variants(case):
            m2 = safe_run(run, v)
            if m2 and m2.split(':')[0] == kind:
                case, msg, progress = v, m2, True
                break
    return case, msg


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid:
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier == 'replay':
        return replay(pid, sys.argv[3])
    if tier not in TIERS:
        tier = 'quick'
    T = TIERS[tier]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    m = importlib.import_module('props.' + pid)
    proofs = list(getattr(m, 'PROOFS', []))
    cases = list(getattr(m, 'CASES', []))
    for ext in getattr(m, 'PRELOAD', ()):
        try:
            importlib.import_module(ext)
        except Exception:
            pass
    hard = 780.0
    jobs = []
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for f in proofs:
            jobs.append(('p', f.__name__, pool.apply_async(run_proof, ((pid, f.__name__, T['proof'], T['timeout']),))))
        shards = max(1, 8 // max(1, len(cases))) if tier == 'thorough' else max(1, min(2, 8 // max(1, len(cases))))
        per = T['conc'] if len(cases) * shards <= 8 else T['conc'] * 8.0 / (len(cases) * shards)
        per = max(per, 3.0)
        for n, g, r in cases:
            for s in range(shards):
                jobs.append(('c', n, pool.apply_async(run_conc, ((pid, n, seed, per * getattr(r, 'weight', 1.0), s),))))
        pres, cres = [], []
        for kind, n, j in jobs:
            left = max(1.0, hard - (time.time() - t0))
            try:
                r = j.get(timeout=left)
            except mp.TimeoutError:
                r = dict(name=n, status='timeout', reason='runner timeout', obligations=[], discharged=0, backends={},
                         solver_secs=0, queries=0, paths=0, secs=0, functions=[], covers={}, trusted=[], failed=0,
                         bounded=None, expect=[]) if kind == 'p' else \
                    dict(name=n, evaluations=0, distinct=0, fail=None, samples=[], error='runner timeout')
            except Exception as e:
                r = dict(name=n, status='unsupported', reason='worker died: %s' % e, obligations=[], discharged=0,
                         backends={}, solver_secs=0, queries=0, paths=0, secs=0, functions=[], covers={}, trusted=[],
                         failed=0, bounded=None, expect=[]) if kind == 'p' else \
                    dict(name=n, evaluations=0, distinct=0, fail=None, samples=[], error=str(e))
            (pres if kind == 'p' else cres).append(r)
        undecided = [r for r in pres if r['status'] != 'ok' or any(o[1] != 'unsat' for o in r['obligations'])]
        # vacuity: a harness must generate obligations and reach its covers
        for r in pres:
            if r['status'] == 'ok' and (r['discharged'] == 0 or not all(r['covers'].values())):
                r['status'], r['reason'] = 'vacuous', 'no obligations or unreachable cover %s' % (
                    [k for k, v in r['covers'].items() if not v],)
                if r not in undecided:
                    undecided.append(r)
        # the deciding step failed somewhere: widen the concrete search before reporting
        if undecided and not any(c['fail'] for c in cres) and cases and time.time() - t0 < 500:
            ex = []
            sh = max(1, 8 // len(cases))
            for n, g, r in cases:
                for s in range(sh):
                    ex.append(pool.apply_async(run_conc, ((pid, n, seed, 40.0 if len(cases) <= 8 else 20.0, 100 + s),)))
            for j in ex:
                try:
                    cres.append(j.get(timeout=max(1.0, hard - (time.time() - t0))))
                except Exception:
                    pass
        pool.terminate()

    violations = []
    known = known_findings(pid)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    seenf = set()
    for c in cres:
        if c['fail']:
            if any(k.get('check') == c['fail']['check'] and k.get('match', '\0') in c['fail']['message'] for k in known):
                continue
            if c['name'] in seenf:
                continue
            seenf.add(c['name'])
            violations.append(('concrete', c['name'], dict(property=pid, kind='concrete', check=c['fail']['check'],
                               case=c['fail']['case'], message=c['fail']['message'],
                               replay='./check.sh %s replay <this file>' % pid)))
    refuted = []
    for r in pres:
        bad = [o for o in r['obligations'] if o[1] == 'sat']
        if r['status'] == 'exception':
            bad.append(('no unexpected exception (%s)' % r['reason'], 'sat', 'symbolic execution', 0, r['reason'], 0))
        for o in bad:
            refuted.append((r, o))
    if refuted and not violations:
        r, o = refuted[0]
        violations.append(('obligation', r['name'], dict(
            property=pid, kind='obligation', harness=r['name'], obligation=o[0], status=o[1], backend=o[2],
            verifier_output=o[4], functions=r['functions'],
            others=[(x[0]['name'], x[1][0], x[1][4][:500]) for x in refuted[1:20]])))
    elif refuted:
        for v in violations:
            v[2]['failed_obligations'] = [(r['name'], o[0], o[4][:800]) for r, o in refuted[:20]]

    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    nob = sum(len(r['obligations']) for r in pres)
    disc = sum(1 for r in pres for o in r['obligations'] if o[1] == 'unsat') if pres else 0
    inst = sum(r['discharged'] for r in pres)
    backends = {}
    for r in pres:
        for b, n in r['backends'].items():
            backends[b] = backends.get(b, 0) + n
    funs = sorted(set(f for r in pres for f in r['functions']))
    und = [dict(harness=r['name'], status=r['status'], reason=r['reason'][:400],
                open=[(o[0], o[1]) for o in r['obligations'] if o[1] != 'unsat'][:10]) for r in undecided]
    level = getattr(m, 'LEVEL', 'proof')
    if level == 'proof' and (disc == 0 or nob == 0):
        level = 'other'
    from pyvc import core  # noqa
    cov = dict(
        obligations=nob, discharged=disc, discharged_instances=inst,
        checker_cmd='./check.sh %s %s' % (pid, tier),
        trusted_base=list(getattr(m, 'TRUSTED', [])) + BASE_TRUST,
        functions_under_contract=funs, harnesses=[dict(name=r['name'], status=r['status'], paths=r['paths'],
            obligations=len(r['obligations']), instances=r['discharged'], secs=round(r['secs'], 2),
            queries=r['queries'], bounded=r['bounded']) for r in pres],
        backends=backends, solver_secs=round(sum(r['solver_secs'] for r in pres), 2),
        undecided=und,
        bounded=[dict(harness=r['name'], bound=r['bounded']) for r in pres if r['bounded']],
        evaluations=sum(c['evaluations'] for c in cres), distinct_nontrivial=sum(c['distinct'] for c in cres),
        rule='bounded companion: seeded random cases run against the real code and an independent oracle; distinct by '
             'content hash (never counted as proved)',
        samples=[dict(check=c['name'], case=s) for c in cres for s in c['samples'][:1]][:6],
        companion_errors=[c['error'] for c in cres if c['error']][:3],
        explanation=getattr(m, 'EXPLANATION', 'obligations = named contract obligations; instances = path instances '
                            'discharged by the back ends'))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=json.loads(json.dumps(cov, default=repr)),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d obligations (%d instances), %d discharged, %d harnesses, %d undecided; companion %d cases; %.1fs' % (
        pid, tier, nob, inst, disc, len(pres), len(undecided), cov['evaluations'], time.time() - t0))
    for u in und:
        print('UNDECIDED', json.dumps(u)[:1500])
    for e in cov['companion_errors']:
        print('COMPANION-ERROR', e[-800:])
    rc = 0
    for i, (kind, n, rep) in enumerate(violations):
        path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1, default=repr)
        tail = '' if kind == 'concrete' else ' no-failing-input-found'
        print('%s: %s' % (n, (rep.get('message') or rep.get('obligation') or '')[:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        rc = 1
    return rc


BASE_TRUST = [
    'pyvc: the VC generator in /verif/pyvc (AST rewriting, path exploration, heap and array models, loop rule)',
    'z3 5.3.2 (cvc5 1.1.2 as second opinion on unknowns)',
    'CPython semantics of the rewritten code (executed natively)',
    'models of numpy / collections / itertools / logging in pyvc (contracts assumed, not proved)']
BASE_ASSUMPTIONS = [
    'floats are treated as mathematical reals, fixed-width integers as mathematical integers',
    'termination is not proved',
    'single-threaded execution unless the property says otherwise']


def replay(pid, path):
    rep = json.load(open(path))
    m = importlib.import_module('props.' + pid)
    if rep['kind'] == 'concrete':
        run = [r for n, g, r in m.CASES if n == rep['check']][0]
        msg = safe_run(run, rep['case'])
        print('replay:', msg or 'no failure')
        return 1 if msg else 0
    r = run_proof((pid, rep['harness'], 300.0, 30000))
    bad = [o for o in r['obligations'] if o[1] == 'sat']
    print('replay:', r['status'], [(o[0], o[4][:1000]) for o in bad])
    return 1 if bad or r['status'] == 'exception' else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 0 if False else 3
    sys.stdout.flush()
    os._exit(rc)
