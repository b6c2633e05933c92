"""C13 Evaluators run on schedule and save the agent exactly when it improves."""
from props.lib import *
from props.protocol import *
from pyvc import models
LEVEL = 'proof'
LEVEL_NOTE = ('Evaluator and AsyncEvaluator for every schedule, step sequence, score and column set: each call is proved against the schedule and '
              'best-score contract from an arbitrary reachable state, so the contract holds over every history')
TRUSTED = ['eval_performance is replaced by its contract (arbitrary statistics; episode bookkeeping is C14/C15)',
           'mp.Value with its lock gives mutual exclusion and stores the value written (double precision: exact)']
EV = 'chainerrl.experiments.evaluator'


class Lock(Obj):
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        heap.pure_guard('lock')
        check(Not(self.v.held), 'the lock is not taken twice')
        self.v.interfere()
        self.v.held = True

    def __exit__(self, *a):
        self.v.held = False
        return False


class Value(Obj):
    """mp.Value: other processes act whenever this one does not hold the lock."""

    def __init__(self, typ, v):
        self.typ, self._v, self.held = typ, v, False
        self.lock = Lock(self)
        self._pvghost_rely = None
        self.writes = 0

    def interfere(self):
        if self._pvghost_rely is not None:
            self._v = self._pvghost_rely(self._v)

    def get_lock(self):
        return self.lock

    @property
    def value(self):
        check(self.held, 'shared values are read under their lock')
        return self._v

    @value.setter
    def value(self, x):
        heap.pure_guard('shared write')
        check(self.held, 'shared values are written under their lock')
        self._v = x
        self.writes += 1


def mods():
    d = models.base_models()
    d['multiprocessing'] = models.Mod('multiprocessing', Value=Value)
    return d


W = world('evaluators', models=mods)


class Files(Obj):
    """scores.txt as a list of lines"""

    def __init__(self):
        self.text = PList()
        self.opened = 0

    def open(self, path, mode='r'):
        check(same(path, 'out/scores.txt'), 'only scores.txt of the output directory is written')
        f = self

        class F(Obj):
            def __enter__(s):
                if mode == 'w':
                    f.text.s = Seq(())
                elif mode not in ('a', 'a+'):
                    raise Unsupported('mode %r' % mode)
                return s

            def __exit__(s, *a):
                return False

            def write(s, t):
                f.text.append(t)
        return F()


NCUSTOM = 2


class Agent(Obj):
    def __init__(self):
        self.stats = PList([('average_q', fresh_real('q')), ('n', fresh_int('n'))])
        self.saved = PList()

    def get_statistics(self):
        return self.stats

    def save(self, d):
        heap.pure_guard('save')
        self.saved.append(d)


HEADER = '\t'.join(('steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev', 'max', 'min', 'average_q', 'n')) + '\n'
STATS = ('mean', 'median', 'stdev', 'max', 'min')


class Perf(Obj):
    """contract of eval_performance"""

    def __init__(self, want):
        self.calls, self.want = 0, want
        self.st = {k: fresh_real(k) for k in STATS}

    def __call__(self, env, agent, n_steps, n_episodes, max_episode_len=None, logger=None):
        heap.pure_guard('evaluation')
        self.calls += 1
        w = self.want
        check(And(env is w['env'], agent is w['agent'], same(n_steps, w['n_steps']), same(n_episodes, w['n_episodes']),
                  same(max_episode_len, w['maxlen'])), 'the evaluation uses the configured environment, agent, length and limits')
        d = PDict([(k, self.st[k]) for k in STATS])
        d['episodes'] = fresh_int('episodes', 1)
        return d


def setup(asynchronous):
    by_steps = choose(2)
    n = fresh_int('n', 1)
    ns, ne = (n, None) if by_steps else (None, n)
    interval, off = fresh_int('interval', 1), fresh_int('offset', 0)
    maxlen = fresh_int('maxlen', 1)
    best = choose(2) == 1
    agent, env = Agent(), Obj()
    files = Files()
    core.CTX.fs = files
    m = W.load(EV)
    perf = Perf(dict(env=env, agent=agent, n_steps=ns, n_episodes=ne, maxlen=maxlen))
    patch(m, 'eval_performance', perf)
    kw = dict(n_steps=ns, n_episodes=ne, eval_interval=interval, outdir='out', max_episode_len=maxlen, step_offset=off,
              save_best_so_far_agent=best)
    if asynchronous:
        e = m.AsyncEvaluator(**kw)
    else:
        e = m.Evaluator(agent=agent, env=env, **kw)
    return e, agent, env, files, perf, interval, off, best


def text_of(files):
    from pyvc.load import SFmt
    parts = files.text.s.force()
    if parts is None:
        raise Unsupported('symbolic number of writes')
    s = SFmt(list(parts))
    return s.parts[0] if len(s.parts) == 1 and isinstance(s.parts[0], str) else s


def row(t, episodes, st, agent, files, before):
    """the row written: tab-separated, one line; elapsed time arbitrary"""
    from pyvc.load import SFmt
    out = SFmt([text_of(files)]).parts
    pre = SFmt(list(before)).parts
    got = list(out)
    if pre:
        ok = bool(got) and isinstance(got[0], str) and got[0].startswith(pre[0]) and len(pre) == 1
        check(ok, 'earlier rows are kept')
        if not ok:
            return
        rest = got[0][len(pre[0]):]
        got = ([rest] if rest else []) + got[1:]
    vals = [t, episodes, None] + [st[k] for k in STATS] + [v for _, v in agent.stats.s.force()]
    want = []
    for i, v in enumerate(vals):
        if i:
            want.append('\t')
        want.append(v)
    want.append('\n')
    got = [x.v if isinstance(x, heap.SStr) else x for x in got]
    check(len(got) == len(want), 'one row of %d tab-separated columns is appended' % len(vals))
    if len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            if b is not None:
                check(same(a, b), 'column %d of the row holds its value' % (i // 2))


def p_sync_new():
    e, agent, env, files, perf, interval, off, best = setup(False)
    cover('created')
    q, r = core.intdiv(off, interval)
    check(same(e.prev_eval_t, q * interval), 'the schedule starts at the last multiple of the interval not after the offset')
    check(same(text_of(files), HEADER), 'a single header row with the agent statistics in column order')
    check(perf.calls == 0 and same(agent.saved.s.n, 0), 'nothing is evaluated or saved at creation')


def p_sync():
    e, agent, env, files, perf, interval, off, best = setup(False)
    # an arbitrary later state of the evaluator: reachable states have a multiple of the interval as schedule
    m0 = fresh_real('best')
    e.max_score = m0
    s = fresh_int('slot')
    e.prev_eval_t = s * interval
    t, ep = fresh_int('t', 0), fresh_int('ep', 0)
    before = list(files.text.s.force())
    r = e.evaluate_if_necessary(t=t, episodes=ep)
    due = t >= (s + 1) * interval
    st = perf.st
    if due:
        cover('due')
        check(perf.calls == 1, 'exactly one evaluation when due')
        check(same(r, st['mean']), 'the mean is returned')
        k = core.intdiv(t, interval)[0]
        check(same(e.prev_eval_t, k * interval), 'the schedule moves to the last multiple of the interval not after t')
        better = st['mean'] > m0
        check(same(e.max_score, ite(better, st['mean'], m0)), 'max_score is the maximum of the means so far')
        want = And(better, best)
        check(Iff(want, same(agent.saved.s.n, 1)), 'the agent is saved as best exactly when the mean exceeds the maximum')
        check(agent.saved.s.n <= 1, 'at most once')
        if same(agent.saved.s.n, 1):
            check(same(agent.saved.s.at(0), 'out/best'), 'under outdir/best')
        row(t, ep, st, agent, files, before)
    else:
        cover('not due')
        check(perf.calls == 0, 'no evaluation before it is due')
        check(r is None, 'None is returned when not due')
        check(And(same(e.prev_eval_t, s * interval), same(e.max_score, m0), same(agent.saved.s.n, 0)), 'nothing changes when not due')
        check(len(files.text.s.force()) == len(before), 'no row is written when not due')


def p_async_new():
    e, agent, env, files, perf, interval, off, best = setup(True)
    cover('created')
    q, r = core.intdiv(off, interval)
    check(same(e.prev_eval_t._v, q * interval), 'asynchronous: the schedule starts at the last multiple of the interval not after the offset')
    check(e.prev_eval_t.typ == 'l' and e._max_score.typ == 'd', 'shared state is stored without loss')
    check(Not(e.wrote_header._v), 'no header yet')
    v = e.max_score
    check(same(v, e._max_score._v), 'max_score reads the shared maximum')


def p_async():
    e, agent, env, files, perf, interval, off, best = setup(True)
    perf.want['env'], perf.want['agent'] = env, agent
    s = fresh_int('slot')
    e.prev_eval_t._v = s * interval
    # rely: other processes only take later slots, only raise the maximum, and only ever set the header flag
    seen = []

    def later(v):
        x = v + interval * fresh_int('others', 0)
        seen.append(x)
        return x
    maxima = []

    def higher(v):
        x = fresh_real('raised')
        assume(x >= v)
        maxima.append(x)
        return x
    e.prev_eval_t._pvghost_rely = later
    e._max_score._v = fresh_real('best')
    e._max_score._pvghost_rely = higher
    h0 = choose(2) == 1
    files.text.s = Seq((HEADER,)) if h0 else Seq(())
    e.wrote_header._v = h0
    t, ep = fresh_int('t', 0), fresh_int('ep', 0)
    before = [HEADER]
    r = e.evaluate_if_necessary(t=t, episodes=ep, env=env, agent=agent)
    st = perf.st
    check(len(seen) == 1, 'the schedule is inspected and advanced in one critical section')
    p0 = seen[0]
    if t >= p0 + interval:
        cover('due')
        check(perf.calls == 1, 'asynchronous: exactly one evaluation when due')
        check(same(r, st['mean']), 'asynchronous: the mean is returned')
        check(same(e.prev_eval_t._v, p0 + interval), 'asynchronous: the schedule moves by one interval, so no slot is used twice')
        check(e.wrote_header._v, 'the header is marked as written')
        row(t, ep, st, agent, files, before)
        check(len(maxima) == 1, 'the maximum is compared and raised in one critical section')
        m0 = maxima[0]
        better = st['mean'] > m0
        check(same(e._max_score._v, ite(better, st['mean'], m0)), 'asynchronous: max_score is the maximum of the means so far')
        check(Iff(And(better, best), same(agent.saved.s.n, 1)), 'asynchronous: the agent is saved as best exactly when the mean exceeds the maximum')
        if same(agent.saved.s.n, 1):
            check(same(agent.saved.s.at(0), 'out/best'), 'asynchronous: under outdir/best')
        check(agent.saved.s.n <= 1, 'asynchronous: at most once')
    else:
        cover('not due')
        check(perf.calls == 0 and r is None, 'asynchronous: no evaluation before it is due')
        check(And(same(e.prev_eval_t._v, p0), same(agent.saved.s.n, 0)), 'asynchronous: nothing changes when not due')
        check(same(e.wrote_header._v, h0), 'asynchronous: the header is not touched when not due')


PROOFS = [p_sync_new, p_sync, p_async_new, p_async]


def gen(rng):
    return dict(kind=rng.choice(['sync', 'async']), interval=rng.randrange(1, 8), off=rng.choice([0, 0, rng.randrange(0, 20)]), best=rng.random() < 0.8,
                steps=[rng.choice([1, 1, 2, 3, 9]) for _ in range(rng.randrange(1, 12))],
                scores=[[rng.choice([-2.5, -1, 0, 0, 0.1, 0.30000001, 1, 3]) for _ in range(3)] for _ in range(12)], n=rng.randrange(1, 4))


def run(c):
    import tempfile, shutil, statistics, math
    from chainerrl.experiments import evaluator as ev
    d = tempfile.mkdtemp(prefix='c13')
    try:
        st = dict(k=0, e=0)
        saved = []

        class Env(object):
            def reset(self):
                return 0

            def step(self, a):
                r = c['scores'][st['k']][st['e']]
                st['e'] += 1
                return 0, r, True, {}

        class Agent(object):
            def act(self, o):
                return 0

            def stop_episode(self):
                pass

            def get_statistics(self):
                return [('foo', st['k']), ('bar', 7)]

            def save(self, p):
                saved.append((st['k'], p))
        env, agent = Env(), Agent()
        kw = dict(n_steps=None, n_episodes=c['n'], eval_interval=c['interval'], outdir=d, step_offset=c['off'], save_best_so_far_agent=c['best'])
        if not c['off'] and c['n'] % 2:
            del kw['step_offset']  # the documented default
        if c['best'] and c['n'] % 2:
            del kw['save_best_so_far_agent']
        if c['kind'] == 'sync':
            e = ev.Evaluator(agent=agent, env=env, **kw)
        else:
            e = ev.AsyncEvaluator(**kw)
        t, ep = c['off'], 0
        slot = t - t % c['interval']
        best = -math.inf
        wsaved, rows = [], []
        for j, s in enumerate(c['steps']):
            t, ep = t + s, ep + 1
            st['e'] = 0
            r = e.evaluate_if_necessary(t, ep) if c['kind'] == 'sync' else e.evaluate_if_necessary(t, ep, env, agent)
            if t >= slot + c['interval']:
                slot = t - t % c['interval'] if c['kind'] == 'sync' else slot + c['interval']
                sc = [float(x) for x in c['scores'][st['k']][:c['n']]]
                m = statistics.mean(sc)
                if r is None or abs(r - m) > 1e-9:
                    return 'step %d: evaluation due, got %r, mean %r' % (t, r, m)
                if m > best:
                    best = m
                    if c['best']:
                        wsaved.append((st['k'], d + '/best'))
                sd = statistics.stdev(sc) if len(sc) > 1 else 0.0
                rows.append([t, ep, None, m, statistics.median(sc), sd, max(sc), min(sc), st['k'], 7])
                st['k'] += 1
                if e.max_score != best:
                    return 'max_score %r, best mean so far %r' % (e.max_score, best)
            elif r is not None:
                return 'step %d: evaluated before it is due' % t
            elif st['e']:
                return 'step %d: episodes run without an evaluation due' % t
        if saved != wsaved:
            return 'saves %r, expected %r' % (saved, wsaved)
        ls = open(d + '/scores.txt').read().split('\n')
        if not rows and c['kind'] == 'async':
            return None if ls == [''] else 'unexpected rows %r' % ls
        if ls[0] != 'steps\tepisodes\telapsed\tmean\tmedian\tstdev\tmax\tmin\tfoo\tbar' or len(ls) != len(rows) + 2 or ls[-1]:
            return 'scores.txt has header %r and %d rows, expected %d' % (ls[0], len(ls) - 2, len(rows))
        for a, b in zip(ls[1:], rows):
            a = a.split('\t')
            if len(a) != len(b) or any(y is not None and abs(float(x) - y) > 1e-9 for x, y in zip(a, b)) or not 0 <= float(a[2]) < 1000:
                return 'row %r, expected %r' % (a, b)
    finally:
        shutil.rmtree(d)


run.weight = 2
CASES = [('history', gen, run)]
