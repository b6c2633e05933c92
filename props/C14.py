"""C14 Serial evaluation and demo collection count episodes and steps exactly."""
from props.lib import *
from props.protocol import *
from pyvc import models
LEVEL = 'proof'
LEVEL_NOTE = ('run_evaluation_episodes and collect_demonstrations for every environment, agent, number of steps or episodes and episode limit; '
              'rewards are real numbers (float rounding excluded)')
TRUSTED = ['chainer.datasets.open_pickle_dataset_writer stores the written records in order', 'reward arithmetic is exact']
EV = 'chainerrl.experiments.evaluator'
CD = 'chainerrl.experiments.collect_demos'


class Writers(Obj):
    """the dataset writer of the current harness"""

    def open(self, path):
        w = core.CTX.writer
        w.open(path)
        return w


def mods():
    d = models.base_models()
    W_ = Writers()
    d['chainer'] = models.Mod('chainer', datasets=models.Mod('chainer.datasets', open_pickle_dataset_writer=W_.open))
    return d


W = world('base')
WD = world('demos', models=mods)


class Mon(Monitor):
    def __init__(self, maxlen, n_steps, n_episodes):
        Monitor.__init__(self, False)
        self.maxlen, self.n_steps, self.n_episodes = maxlen, n_steps, n_episodes
        self.t = self.len = 0
        self.ret = 0
        self.returns = PList()
        self.idle = True
        self.acted = self.must_stop = self.must_write = False
        self.over = False
        self.obs, self.action, self.prev = fresh_obj('obs'), fresh_obj('act'), fresh_obj('obs')
        self.rew, self.done = fresh_real('r'), fresh_bool('done')
        self.demo = False

    @property
    def ended(self):
        return self.returns.s.n

    def inv(self, L):
        t, over, e = L.get('R.m.t'), L.get('R.m.over'), L.get('R.m.returns.s').n
        return {'over': Iff(over, t >= self.n_steps if self.n_steps is not None else e >= self.n_episodes),
                'idle at the end of an episode': Implies(Not(L.get('R.m.idle')), Not(L.get('R.m.over'))) if self.n_steps is None else True}

    def reset(self):
        self.call()
        check(Not(Or(Not(self.idle), self.must_stop, self.must_write, self.over)), 'the environment is reset exactly before each episode')
        self.obs = self.fresh('obs')
        self.idle = False
        self.len = 0
        self.ret = 0
        return self.obs

    def act(self, obs):
        self.call()
        check(And(Not(self.idle), Not(self.acted), Not(self.must_stop), Not(self.must_write), Not(self.over)), 'acting only inside an episode')
        check(same(obs, self.obs), 'the agent acts on the latest observation')
        self.acted = True
        self.action = self.fresh('act')
        return self.action

    def step(self, a):
        self.call()
        check(And(self.acted, same(a, self.action)), 'the environment is stepped with the action just returned')
        if self.n_steps is not None:
            check(self.t < self.n_steps, 'no step beyond the requested number')
        else:
            check(self.ended < self.n_episodes, 'no episode beyond the requested number')
        self.acted = False
        self.prev = self.obs
        self.obs, self.rew, self.done = self.fresh('obs'), self.fresh_real('r'), self.fresh_bool('done')
        r, done = self.rew, self.done
        info, nr = info_dict(self)
        self.t = self.t + 1
        self.len = self.len + 1
        self.ret = self.ret + r
        end = Or(done, nr, False if self.maxlen is None else same(self.len, self.maxlen))
        if end:
            self.returns.append(self.ret)
            self.idle = True
        last = (self.t >= self.n_steps) if self.n_steps is not None else (self.ended >= self.n_episodes)
        self.over = last
        self.must_stop = Or(end, last)
        self.must_write = self.demo
        self._pvghost_info = info
        return self.obs, r, done, info

    def stop_episode(self):
        self.call()
        check(And(self.must_stop, Not(self.acted)), 'the agent is told to stop exactly once at each episode end and at the end of evaluation')
        self.must_stop = False

    def get_statistics(self):
        return PList()


def evaluate(by_steps, limited):
    n = fresh_int('n', 1)
    maxlen = fresh_int('maxlen', 1) if limited else None
    m = root('m', Mon(maxlen, n if by_steps else None, None if by_steps else n))
    m.vary_info = not limited
    ctx().invfuns.append(m.inv)
    agent, env = AgentOf(m), EnvOf(m)
    for a in ('act_and_train', 'stop_episode_and_train'):
        agent.__dict__[a] = lambda *x, **k: unreachable('evaluation never trains')
    out = W.load(EV).run_evaluation_episodes(env, agent, n if by_steps else None, None if by_steps else n, max_episode_len=maxlen)
    cover('done')
    s = to_seq(out)
    check(Not(Or(m.acted, m.must_stop)), 'the agent is told to stop at the end')
    if by_steps:
        check(same(m.t, n), 'exactly n steps are taken')
        if m.returns.s.n > 0:
            check(seq_same(s, m.returns.s), 'the returns of the finished episodes, in order')
        else:
            cover('partial')
            check(same(s.n, 1), 'one partial return if nothing finished')
            check(same(s.at(0), m.ret), 'the partial return of the unfinished episode')
    else:
        check(And(same(m.ended, n), same(m.returns.s.n, n)), 'exactly n episodes are run')
        check(m.idle, 'the last episode is completed')
        check(seq_same(s, m.returns.s), 'their n returns, in order')


def p_episodes():
    evaluate(False, False)


def p_episodes_limited():
    evaluate(False, True)


def p_steps():
    evaluate(True, False)


def p_steps_limited():
    evaluate(True, True)


def p_one_of():
    m = Mon(None, 1, None)
    both = choose(2) == 1
    r, _ = raises(AssertionError, lambda: W.load(EV).run_evaluation_episodes(EnvOf(m), AgentOf(m), 1 if both else None, 1 if both else None))
    check(r, 'exactly one of n_steps and n_episodes must be given')


class Writer(Obj):
    def __init__(self, m):
        self.m = m
        self.state = 'new'

    def open(self, path):
        check(self.state == 'new' and path == 'out/demos.pickle', 'the records go to outdir/demos.pickle')
        self.state = 'opened'

    def __enter__(self):
        self.state = 'open'
        return self

    def __exit__(self, *a):
        self.state = 'closed'
        return False

    def write(self, rec):
        heap.pure_guard('write')
        m = self.m
        check(And(m.must_write, Not(m.acted)), 'one record per step')
        check(len(rec) == 6, 'a record has six fields')
        names = ('observation acted upon', 'action', 'reward', 'next observation', 'done flag')
        for nm, a, b in zip(names, rec, (m.prev, m.action, m.rew, m.obs, m.done)):
            check(same(a, b), 'the record has the %s of that step' % nm)
        check(rec[5] is m._pvghost_info, 'the record has the info of that step')
        m.must_write = False


def demos(by_steps, limited):
    n = fresh_int('n', 1)
    maxlen = fresh_int('maxlen', 1) if limited else None
    m = root('m', Mon(maxlen, n if by_steps else None, None if by_steps else n))
    m.demo = True
    m.vary_info = False
    ctx().invfuns.append(m.inv)
    w = core.CTX.writer = Writer(m)
    WD.load(CD).collect_demonstrations(AgentOf(m), EnvOf(m), n if by_steps else None, None if by_steps else n, 'out', max_episode_len=maxlen)
    cover('done')
    check(w.state == 'closed', 'the file is closed')
    check(Not(Or(m.acted, m.must_stop, m.must_write)), 'the last step is recorded and the agent told to stop')
    check(same(m.t, n) if by_steps else same(m.ended, n), 'for exactly the requested number of steps or episodes')


def p_demo_steps():
    demos(True, False)


def p_demo_episodes():
    demos(False, False)


def p_demo_limited():
    demos(choose(2) == 1, True)


PROOFS = [p_episodes, p_episodes_limited, p_steps, p_steps_limited, p_one_of, p_demo_steps, p_demo_episodes, p_demo_limited]


def gen(rng):
    n = rng.randrange(1, 20)
    kind = rng.choice(['steps', 'episodes'])
    return dict(kind=kind, n=n if kind == 'steps' else rng.randrange(1, 6), maxlen=rng.choice([None, None, 1, 2, 3, 5]), what=rng.choice(['eval', 'eval', 'demo']),
                script=[[rng.choice([0, 1, -1, 0.5]), rng.random() < 0.25, rng.choice([None, None, None, False, True])] for _ in range(20)])


def run(c):
    import os, tempfile, shutil
    tr = []
    st = dict(i=0)

    class Env(object):
        def reset(self):
            tr.append(('reset',))
            return ('r', st['i'])

        def step(self, a):
            tr.append(('step', a))
            r, d, nr = c['script'][st['i'] % 20]
            if st['i'] % 20 == 19:
                d = True
            st['i'] += 1
            return ('o', st['i']), r, d, ({} if nr is None else {'needs_reset': nr})

    class Agent(object):
        def act(self, obs):
            tr.append(('act', obs))
            return ('a', st['i'])

        def stop_episode(self):
            tr.append(('stop',))
    # reference
    want, rets, recs = [], [], []
    i, new, part = 0, True, 0
    while True:
        if new:
            want.append(('reset',))
            obs, ln, part = ('r', i), 0, 0
        want += [('act', obs), ('step', ('a', i))]
        r, d, nr = c['script'][i % 20]
        d = d or i % 20 == 19
        recs.append((obs, ('a', i), r, ('o', i + 1), d, {} if nr is None else {'needs_reset': nr}))
        i += 1
        obs = ('o', i)
        ln += 1
        part += r
        new = bool(d or nr or ln == c['maxlen'])
        if new:
            rets.append(part)
        over = i >= c['n'] if c['kind'] == 'steps' else len(rets) >= c['n']
        if new or over:
            want.append(('stop',))
        if over:
            break
    ns, ne = (c['n'], None) if c['kind'] == 'steps' else (None, c['n'])
    if c['what'] == 'eval':
        from chainerrl.experiments.evaluator import run_evaluation_episodes
        got = run_evaluation_episodes(Env(), Agent(), ns, ne, max_episode_len=c['maxlen'])
        if got != (rets or [part]):
            return 'returns %r, expected %r' % (got, rets or [part])
    else:
        import chainer
        from chainerrl.experiments import collect_demonstrations
        d = tempfile.mkdtemp(prefix='c14')
        try:
            collect_demonstrations(Agent(), Env(), ns, ne, d, max_episode_len=c['maxlen'])
            with chainer.datasets.open_pickle_dataset(os.path.join(d, 'demos.pickle')) as ds:
                got = [ds[k] for k in range(len(ds))]
        finally:
            shutil.rmtree(d)
        if got != recs:
            k = next((k for k in range(min(len(got), len(recs))) if got[k] != recs[k]), min(len(got), len(recs)))
            return '%d records, record %d is %r, expected %r of %d' % (len(got), k, got[k:k + 1], recs[k:k + 1], len(recs))
    if tr != want:
        k = next((k for k in range(min(len(tr), len(want))) if tr[k] != want[k]), min(len(tr), len(want)))
        return 'call %d: %r, expected %r' % (k, tr[k:k + 1], want[k:k + 1])


run.weight = 1
CASES = [('history', gen, run)]
