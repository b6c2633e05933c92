"""C16 Asynchronous training loop counts every step and episode exactly once."""
from props.lib import *
from props.protocol import *
LEVEL = 'proof'
LEVEL_NOTE = ('train_loop of one worker for every environment, agent, evaluator and number of steps, under arbitrary interference of the other workers '
              'at every lock acquisition and every read of the shared flag (rely-guarantee: this worker adds one under the lock per step/episode)')
TRUSTED = ['mp.Value and its lock provide mutual exclusion and sequential consistency', 'the collaborators are arbitrary apart from their signatures']
AM = 'chainerrl.experiments.train_agent_async'
W = world('base')


class Lock(Obj):
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        check(Not(self.c.held), 'the lock is not taken twice')
        self.c.interfere()
        self.c.held = True
        return self

    def __exit__(self, *a):
        self.c.held = False
        return False


class Counter(Obj):
    """Shared counter: other workers add to it whenever this one does not hold the lock."""

    def __init__(self, m, name):
        self.m, self.name, self.held, self._v = m, name, False, fresh_int(name, 0)
        self.lock = Lock(self)
        self.done = False           # incremented for the current event
        self.got = 0

    def interfere(self):
        heap.pure_guard('shared state')
        self._v = self._v + fresh_int('others', 0)

    def get_lock(self):
        return self.lock

    @property
    def value(self):
        check(self.held, 'the %s counter is read while holding its lock' % self.name)
        return self._v

    @value.setter
    def value(self, x):
        heap.pure_guard('shared state')
        check(self.held, 'the %s counter is written while holding its lock' % self.name)
        check(same(x, self._v + 1), 'the %s counter grows by exactly one' % self.name)
        check(Not(self.done), 'the %s counter is incremented at most once per event' % self.name)
        check(self.due(), 'the %s counter is incremented only for its own event' % self.name)
        self.done = True
        self._v = x
        self.got = x

    def due(self):
        return self.m.counter_due(self.name)


class Flag(Obj):
    def __init__(self, m):
        self.m, self.held, self._v = m, False, fresh_bool('flag')
        self.lock = Lock(self)

    def interfere(self):
        heap.pure_guard('shared state')
        self._v = Or(self._v, fresh_bool('flagged'))

    def get_lock(self):
        return self.lock

    @property
    def value(self):
        if not self.held:
            self.interfere()
        return self._v

    @value.setter
    def value(self, x):
        heap.pure_guard('shared state')
        check(self.held, 'the flag is written while holding its lock')
        check(And(x, Not(self._v)), 'the flag is only ever raised, by the first to succeed')
        check(self.m.success, 'only success raises the flag')
        self._v = x
        self.m.mine = True


class Mon(Monitor):
    def __init__(self, steps, maxlen, nhooks, boom=False):
        Monitor.__init__(self, boom)
        self.steps, self.maxlen, self.nhooks = steps, maxlen, nhooks
        self.C, self.E, self.F = Counter(self, 'step'), Counter(self, 'episode'), Flag(self)
        self.len = 0
        self.started = self.acted = self.stepped = self.end = self.stopped = self.evaluated = self.success = self.mine = False
        self.flag_at_step = False
        self.hook_i = nhooks
        self.obs = self.action = None
        self.r = 0
        self.done = False
        self.has_eval = False
        self.threshold = None
        self.saves = PList()

    def counter_due(self, name):
        if name == 'step':
            return self.stepped
        return And(self.stopped, Not(self.success), (self.evaluated if self.has_eval else True))

    @property
    def gt(self):
        return self.C.got

    def counted(self, what):
        check(Not(And(self.stepped, Not(self.C.done))), what + ': the step has been counted')
        check(same(self.hook_i, self.nhooks), what + ': the hooks of the step were called')
        check(Not(Or(self.C.held, self.E.held, self.F.held)), what + ': no lock is held')

    def must_end(self):
        return Or(self.end, And(self.C.done, self.gt >= self.steps), self.flag_at_step)

    def reset(self):
        self.call()
        if self.started:
            self.counted('reset')
            check(self.stopped, 'the environment is reset only after the episode was stopped')
            check(Not(self.success), 'no new episode after success')
            check(self.E.done, 'the ended episode is counted before the next one')
            check(Not(Or(self.gt >= self.steps, self.flag_at_step)), 'no new episode after training is over')
        self.started = True
        self.obs = self.fresh('obs')
        self.r = 0
        self.len = 0
        self.stepped = self.stopped = self.evaluated = self.end = False
        return self.obs

    def act_and_train(self, obs, r):
        self.call()
        check(self.started, 'the environment is reset first')
        check(Not(Or(self.acted, self.stopped)), 'acting only inside an episode')
        self.counted('act')
        check(Not(And(self.stepped, self.must_end())), 'no further act once the episode ended, the step limit was reached or training was flagged done')
        check(And(same(obs, self.obs), same(r, self.r)), 'the agent acts on the latest observation and reward')
        self.stepped = False
        self.acted = True
        self.action = self.fresh('act')
        return self.action

    def step(self, a):
        self.call()
        check(self.acted, 'a step follows its own act')
        check(same(a, self.action), 'the environment is stepped with the action just returned')
        self.acted = False
        self.stepped = True
        self.C.done = self.E.done = False
        self.obs, self.r, self.done = self.fresh('obs'), self.fresh_real('r'), self.fresh_bool('done')
        info, nr = info_dict(self)
        self.len = self.len + 1
        self.hook_i = 0
        self.end = Or(self.done, nr, False if self.maxlen is None else same(self.len, self.maxlen))
        self.F.interfere()
        self.flag_at_step = self.F._v
        return self.obs, self.r, self.done, info

    def hook(self, i, env, agent, t):
        self.call()
        check(And(self.stepped, self.C.done), 'hooks are called after the step is counted')
        check(same(self.hook_i, i), 'step hooks are called in order, once per step')
        check(And(env is self.env, agent is self.agent, same(t, self.gt)), 'hooks receive environment, agent and the obtained global time')
        self.hook_i = self.hook_i + 1

    def stop_episode_and_train(self, obs, r, done=False):
        self.call()
        self.counted('stop')
        check(And(self.stepped, Not(self.stopped)), 'an episode is stopped once')
        check(Or(self.end, self.gt >= self.steps, self.F._v), 'it is stopped only at its end or when training is over')
        check(And(same(obs, self.obs), same(r, self.r), same(done, self.done)), 'the agent is told the latest observation, reward and done flag')
        self.stopped = True

    def get_statistics(self):
        self.call()
        return PList()

    def evaluate(self, t, episodes, env, agent):
        self.call()
        check(And(self.stopped, Not(self.evaluated), Not(self.E.done)), 'evaluation is offered once, at episode ends')
        check(And(same(t, self.gt), env is self.eval_env, agent is self.agent), 'with the obtained global time, the evaluation environment and the agent')
        self.evaluated = True
        if choose(2):
            return None
        s = self.fresh_real('score')
        if self.threshold is not None:
            self.success = s >= self.threshold
        return s

    def save(self, d):
        heap.pure_guard('save')
        self.saves.append(d)


class Evaluator(Obj):
    def __init__(self, m):
        self.m = m

    def evaluate_if_necessary(self, t, episodes, env, agent):
        return self.m.evaluate(t, episodes, env, agent)


def setup(boom, with_eval, maxlen=None, thr=False):
    steps = fresh_int('steps', 1)
    nh = 0 if boom and with_eval else fresh_int('hooks', 0)
    m = root('m', Mon(steps, maxlen, nh, boom))
    agent, env = AgentOf(m), EnvOf(m)
    m.agent, m.env, m.eval_env = agent, env, env
    m.vary_info = not with_eval and not boom
    m.two_kinds = not with_eval
    kw = {}
    if with_eval:
        m.has_eval = True
        m.threshold = fresh_real('threshold') if thr else None
        kw['evaluator'] = Evaluator(m)
        if not thr and choose(2):
            m.eval_env = kw['eval_env'] = EnvOf(m)
    hooks = PList(seq=Seq(n=nh, at=lambda i: HookAt(m, i)))
    idx = choose(2) if boom and not with_eval else 0

    def go():
        W.load(AM).train_loop(idx, env, agent, steps, 'out', m.C, m.E, m.F, max_episode_len=maxlen,
                              successful_score=m.threshold, global_step_hooks=hooks, **kw)
    return m, steps, idx, go


def normal(with_eval, maxlen=None, thr=False):
    m, steps, idx, go = setup(False, with_eval, maxlen, thr)
    go()
    cover('finished')
    m.counted('end')
    check(And(m.stopped, Not(m.acted)), 'the last episode is stopped')
    check(m.evaluated if m.has_eval else True, 'and evaluation is offered for it')
    check(Or(m.gt >= steps, m.F._v, m.success), 'the loop ends only when the step limit is reached, training is flagged done or on success')
    check(Implies(Not(m.success), m.E.done), 'the last episode is counted unless it ended on success')
    check(Implies(m.mine, m.success), 'success is flagged only on success')
    check(Implies(m.success, m.F._v), 'after success the flag is up')
    want = []
    if same(m.gt, steps):
        cover('final')
        want.append(path_of(steps, '_finish'))
    if m.mine:
        cover('success')
        want.append('out/successful')
    got = m.saves.s
    if same(got.n, len(want)):
        ok = [Or([same(w, got.at(i)) for i in range(len(want))]) for w in want]
        check(And(ok + [True]), 'the final agent is saved by the worker at exactly `steps`, the successful one by the worker that flagged')
    else:
        check(False, 'as many agents are saved as this worker has to save')


def p_plain():
    normal(False)


def p_maxlen():
    normal(False, fresh_int('maxlen', 1))


def p_eval():
    normal(True)


def p_success():
    normal(True, None, True)


def error(with_eval):
    m, steps, idx, go = setup(True, with_eval)
    try:
        go()
    except (Boom, BoomInterrupt) as e:
        cover('failed')
        check(e is m.error, 'the error itself propagates')
        if idx == 0:
            check(And(same(m.saves.s.n, 1)), 'worker 0 saves the agent once after an error')
            if same(m.saves.s.n, 1):
                check(same(m.saves.s.at(0), path_of(m.gt, '_except')), 'under its global time')
        else:
            check(same(m.saves.s.n, 0), 'the other workers save nothing after an error')
        return
    check(not m.failed, 'no error is swallowed')


def p_error():
    error(False)


def p_error_eval():
    error(True)


PROOFS = [p_plain, p_maxlen, p_eval, p_success, p_error, p_error_eval]


def gen(rng):
    n = rng.randrange(1, 25)
    return dict(idx=rng.choice([0, 0, 1, 3]), steps=rng.randrange(1, 40), maxlen=rng.choice([None, None, 1, 2, 4]),
                hooks=rng.randrange(0, 3), ev=rng.random() < 0.6, thr=rng.choice([None, None, 0, 1, 2]), own_eval=rng.random() < 0.5,
                scores=[rng.choice([None, None, 0, 0.0, 1, -1, 2.5]) for _ in range(60)],
                script=[[rng.choice([0, 1, -1, 0.5]), rng.random() < 0.2, rng.choice([None, None, None, False, True])] for _ in range(60)],
                others=[rng.choice([0, 0, 0, 1, 2]) for _ in range(120)], eothers=[rng.choice([0, 0, 1, 2]) for _ in range(120)],
                flag=rng.choice([None, None, None, n]), late=rng.choice([None, None, None, 1, 2]),
                fail=rng.choice([None, None, None, None, rng.randrange(0, 60)]), kind=rng.choice(['err', 'int']))


class SpyErr(Exception):
    pass


class SpyInt(KeyboardInterrupt):
    pass


def run(c):
    """the worker is run against shared values that other workers change at every lock acquisition"""
    from chainerrl.experiments.train_agent_async import train_loop
    bad, tr = [], []
    st = dict(i=0, phase='start', obs=0, r=0, len=0, n=0, hook=0, gt=0, counted=True, ecounted=True, stopped=False, evald=True,
              success=False, end=False, calls=0, failed=None, mine=False, act=None, done=False, ended=0, flag_at_step=False)

    def req(x, msg):
        if not x and not bad and st['failed'] is None:
            bad.append('%s (step %d, global time %r)' % (msg, st['i'], st['gt']))

    def call():
        st['calls'] += 1
        if c['fail'] is not None and st['calls'] > c['fail'] and st['failed'] is None:
            st['failed'] = (SpyErr if c['kind'] == 'err' else SpyInt)('boom')
            raise st['failed']

    class Val(object):
        def __init__(self, name, v, others):
            self.name, self.v, self.held, self.others, self.k = name, v, False, others, 0

        def get_lock(self):
            return self

        def __enter__(self):
            req(not self.held, 'lock of %s taken twice' % self.name)
            if self.others:
                self.v += self.others[self.k % len(self.others)]
                self.k += 1
            self.held = True
            return self

        def __exit__(self, *a):
            self.held = False
            return False

        @property
        def value(self):
            if self.name != 'flag':
                req(self.held, '%s counter read without its lock' % self.name)
            return self.v

        @value.setter
        def value(self, x):
            req(self.held, '%s written without its lock' % self.name)
            if self.name == 'flag':
                req(st['success'] and x and not self.v, 'flag raised without success or twice')
                st['mine'] = True
            else:
                req(x == self.v + 1, '%s counter changed from %r to %r' % (self.name, self.v, x))
                key = 'counted' if self.name == 'step' else 'ecounted'
                req(not st[key], '%s counter incremented twice for one event' % self.name)
                st[key] = True
                if self.name == 'step':
                    st['gt'] = x
                else:
                    req(st['stopped'] and not st['success'], 'episode counted that was not completed')
            self.v = x
    C, E, F = Val('step', 0, c['others']), Val('episode', 0, c['eothers']), Val('flag', False, None)

    def quiet(what):
        req(st['counted'], what + ' before the step was counted')
        req(st['hook'] == c['hooks'], what + ' after %d of %d hooks' % (st['hook'], c['hooks']))
        req(not (C.held or E.held or F.held), what + ' while holding a lock')
    st['hook'] = c['hooks']

    class Env(object):
        def reset(self):
            call()
            quiet('reset')
            if st['i']:
                req(st['stopped'] and st['evald'], 'reset in the middle of an episode')
                req(st['ecounted'], 'the ended episode was not counted')
                req(not st['success'] and st['gt'] < c['steps'] and not st['flag_at_step'], 'a new episode after training is over')
            st.update(stopped=False, obs=('o', st['i'], 'reset'), r=0, len=0, phase='ready', end=False)
            return st['obs']

        def step(self, a):
            call()
            req(st['phase'] == 'acted' and a == st['act'], 'step with %r, expected %r' % (a, st['act']))
            r, d, nr = c['script'][st['i'] % 60]
            st['i'] += 1
            if c['flag'] is not None and st['i'] >= c['flag']:
                F.v = True
            st.update(obs=('o', st['i']), r=r, done=d, len=st['len'] + 1, counted=False, ecounted=False, hook=0, phase='stepped')
            st['end'] = bool(d or nr or st['len'] == c['maxlen'])
            st['flag_at_step'] = F.v
            return st['obs'], r, d, ({} if nr is None else {'needs_reset': nr})

    class Agent(object):
        def act_and_train(self, obs, r):
            call()
            quiet('act')
            req(st['phase'] in ('ready', 'stepped'), 'act while %s' % st['phase'])
            if st['phase'] == 'stepped':
                req(not (st['end'] or st['gt'] >= c['steps'] or st['flag_at_step']), 'act although the episode or training is over')
            req((obs, r) == (st['obs'], st['r']), 'act on %r, %r instead of %r, %r' % (obs, r, st['obs'], st['r']))
            st['phase'] = 'acted'
            st['act'] = ('a', st['i'])
            return st['act']

        def stop_episode_and_train(self, state, reward, done=False):
            call()
            quiet('stop')
            req(st['phase'] == 'stepped' and not st['stopped'], 'episode stopped while %s' % st['phase'])
            req(st['end'] or st['gt'] >= c['steps'] or F.v, 'episode stopped before its end')
            req((state, reward, done) == (st['obs'], st['r'], st['done']), 'stop with %r' % ((state, reward, done),))
            st.update(stopped=True, phase='stopped', evald=not c['ev'])
            if c['late'] is not None and st['i'] > 3 * c['late']:
                F.v = True

        def get_statistics(self):
            call()
            return []

        def save(self, d):
            tr.append(d)
    agent, env = Agent(), Env()
    eenv = Env() if c['own_eval'] else env

    class Ev(object):
        def evaluate_if_necessary(self, t, episodes, env, agent):
            call()
            req(st['stopped'] and not st['evald'], 'evaluation outside an episode end')
            req(t == st['gt'] and env is eenv and agent is agent_, 'evaluation with %r' % ((t, env, agent),))
            st['evald'] = True
            s = c['scores'][st['n'] % 60]
            st['n'] += 1
            st['success'] = s is not None and c['thr'] is not None and s >= c['thr']
            return s
    agent_ = agent

    def hook(h):
        def f(e, a, t):
            call()
            req(st['counted'] and st['hook'] == h and e is env and a is agent and t == st['gt'], 'hook %d with %r' % (h, t))
            st['hook'] += 1
        return f
    got = None
    try:
        train_loop(c['idx'], env, agent, c['steps'], 'outdir', C, E, F, max_episode_len=c['maxlen'], evaluator=Ev() if c['ev'] else None,
                   eval_env=eenv if c['own_eval'] else None, successful_score=c['thr'], global_step_hooks=[hook(h) for h in range(c['hooks'])])
    except (SpyErr, SpyInt) as e:
        got = e
    if bad:
        return bad[0]
    if st['failed'] is not None:
        if got is not st['failed']:
            return 'the error did not propagate (%r)' % (got,)
        want = ['outdir/%d_except' % st['gt']] if c['idx'] == 0 else []
    else:
        quiet('end')
        req(st['stopped'] and st['evald'], 'training ended in the middle of an episode')
        req(st['gt'] >= c['steps'] or F.v or st['success'], 'training ended early')
        req(st['ecounted'] or st['success'], 'the last episode was not counted')
        want = (['outdir/%d_finish' % c['steps']] if st['gt'] == c['steps'] else []) + (['outdir/successful'] if st['mine'] else [])
        if st['success'] and not F.v:
            req(False, 'success was not flagged')
    if bad:
        return bad[0]
    if sorted(tr) != sorted(want):
        return 'saved %r, expected %r' % (tr, want)


CASES = [('worker', gen, run)]
