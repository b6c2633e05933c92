"""C11 The training loop drives agent and environment by the exact protocol."""
from props.lib import *
from props.protocol import *
LEVEL = 'proof'
LEVEL_NOTE = ('train_agent for every agent, environment, hook list, evaluator and configuration and any number of steps: the collaborators are '
              'protocol monitors whose preconditions are the property; an error may be raised by any collaborator call')
TRUSTED = ['the collaborators (agent, env, hooks, evaluator) are arbitrary apart from their signatures', 'save_agent writes to outdir/<t><suffix>']
TM = 'chainerrl.experiments.train_agent'
W = world('base')


class Mon(Monitor):
    """Ghost protocol state: what must and what may happen next."""

    def __init__(self, offset, steps, maxlen, nhooks, freq, boom=False):
        Monitor.__init__(self, boom)
        self.t = offset
        self.offset, self.steps, self.maxlen, self.nhooks, self.freq = offset, steps, maxlen, nhooks, freq
        self.len = 0
        self.episodes = 0
        self.started = False
        self.acted = self.must_stop = self.must_reset = self.must_eval = self.must_ckpt = self.over = False
        self.hook_i = nhooks
        self.done = False
        self.obs = self.action = None
        self.r = 0
        self.has_eval = False
        self.threshold = None
        self.best = fresh_real('best')
        self.saves = PList()

    def idle(self, what):
        check(And(Not(self.acted), same(self.hook_i, self.nhooks)), what + ': the previous step is completed (hooks included)')

    # environment
    def reset(self):
        self.call()
        if self.started:
            self.idle('reset')
            check(self.must_reset, 'the environment is reset exactly after a stopped episode while training goes on')
            check(Not(Or(self.must_stop, self.must_eval, self.over)), 'reset comes after stop and evaluation')
        self.started = True
        self.obs = self.fresh('obs')
        self.r = 0
        self.len = 0
        self.must_reset = False
        return self.obs

    def step(self, a):
        self.call()
        check(self.acted, 'a step follows its own act')
        check(same(a, self.action), 'the environment is stepped with the action just returned')
        check(self.t < self.steps, 'no step beyond the configured number')
        self.acted = False
        self.obs, self.r, self.done = self.fresh('obs'), self.fresh_real('r'), self.fresh_bool('done')
        info, nr = info_dict(self)
        self.t = self.t + 1
        self.len = self.len + 1
        self.hook_i = 0
        end = Or(self.done, nr, same(self.t, self.steps), False if self.maxlen is None else same(self.len, self.maxlen))
        self.must_stop = end
        self.must_ckpt = And(Not(same(self.t, self.steps)), same(core.intdiv(self.t, self.freq)[1], 0)) if self.freq is not None else False
        return self.obs, self.r, self.done, info

    # agent
    def act_and_train(self, obs, r):
        self.call()
        check(self.started, 'the environment is reset first')
        self.idle('act')
        check(Not(Or(self.must_stop, self.must_eval, self.must_reset, self.over)), 'acting only inside an episode')
        check(Not(self.must_ckpt), 'due checkpoints are saved before the next step')
        check(And(same(obs, self.obs), same(r, self.r)), 'the agent acts on the latest observation and reward')
        self.acted = True
        self.action = self.fresh('act')
        return self.action

    def stop_episode_and_train(self, obs, r, done=False):
        self.call()
        self.idle('stop')
        check(self.must_stop, 'the episode is stopped exactly once, at done, reset, time limit or the last step')
        check(And(same(obs, self.obs), same(r, self.r), same(done, self.done)), 'the agent is told the latest observation, reward and done flag')
        self.must_stop = False
        self.episodes = self.episodes + 1
        self.must_eval = self.has_eval
        self.must_reset = Not(same(self.t, self.steps))

    def get_statistics(self):
        self.call()
        return PList()

    def save(self, dirname):
        heap.pure_guard('save')
        self.saves.append(dirname)
        self.saved(dirname)

    def saved(self, dirname):
        check(same(dirname, path_of(self.t, '_checkpoint')) if self.freq is not None else False,
              'while training goes on only checkpoints of the current step are saved')
        self.idle('checkpoint')
        check(Not(Or(self.must_stop, self.must_eval, self.must_reset)), 'a checkpoint comes after the episode change')
        check(self.must_ckpt, 'checkpoints are saved exactly at multiples of checkpoint_freq')
        self.must_ckpt = False

    # evaluator
    def evaluate(self, t, episodes):
        self.call()
        check(self.must_eval, 'evaluation is offered exactly once per episode end')
        check(And(same(t, self.t), same(episodes, self.episodes)), 'with the current step and episode count')
        self.must_eval = False
        self.best = self.fresh_real('best')
        if self.threshold is not None:
            self.over = self.best >= self.threshold
            self.must_reset = And(Not(self.over), Not(same(self.t, self.steps)))

    def hook(self, i, env, agent, t):
        self.call()
        check(same(self.hook_i, i), 'step hooks are called in order, once per step')
        check(And(env is self.env, agent is self.agent, same(t, self.t)), 'hooks receive environment, agent and the new step count')
        self.hook_i = self.hook_i + 1


class Evaluator(Obj):
    def __init__(self, m):
        self.m = m

    @property
    def max_score(self):
        return self.m.best

    def evaluate_if_necessary(self, t, episodes):
        self.m.evaluate(t, episodes)
        return None if choose(2) else fresh_real('score')


def setup(boom, with_eval, freq=None, maxlen=None, thr=False):
    steps, off = fresh_int('steps', 0), fresh_int('offset', 0)
    nh = fresh_int('hooks', 0)
    m = root('m', Mon(off, steps, maxlen, nh, freq, boom))
    hast = choose(2) == 1
    agent, env = AgentOf(m, hast), EnvOf(m)
    m.agent, m.env = agent, env
    ev = None
    if with_eval:
        m.has_eval = True
        m.threshold = fresh_real('threshold') if thr else None
        ev = Evaluator(m)
    hooks = PList(seq=Seq(n=nh, at=lambda i: HookAt(m, i)))
    f = W.load(TM).train_agent
    m.finished = False

    def saved(dirname):
        if m.failed:
            check(same(dirname, path_of(m.t, '_except')) if not m.finished else False,
                  'after an error the agent is saved once as exception under the current step')
            m.finished = True
        elif Or(same(m.t, steps), m.over):
            check(same(dirname, path_of(m.t, '_finish')) if not m.finished else False, 'the final agent is saved once under the final step')
            check(Not(Or(m.acted, m.must_stop, m.must_eval, m.must_reset)), 'and only when everything is completed')
            m.finished = True
        else:
            Mon.saved(m, dirname)
    m.saved = saved
    return m, agent, env, ev, hooks, f, steps, off, hast


def normal(with_eval, freq, maxlen, thr=False):
    m, agent, env, ev, hooks, f, steps, off, hast = setup(False, with_eval, freq, maxlen, thr)
    assume(off < steps)
    f(agent, env, steps, 'out', checkpoint_freq=freq, max_episode_len=maxlen, step_offset=off, evaluator=ev,
      successful_score=m.threshold, step_hooks=hooks)
    cover('finished')
    check(m.finished, 'the final agent is saved')
    check(Or(same(m.t, steps), m.over), 'exactly steps - step_offset steps unless the successful score is reached')
    check(Not(Or(m.acted, m.must_stop, m.must_eval)), 'the last episode is stopped')
    check(same(m.hook_i, m.nhooks), 'the hooks of the last step were called')
    if hast:
        check(same(agent.t, off), 'the step count of the agent starts at the offset')


def p_plain():
    normal(False, None, None)


def p_eval():
    normal(True, None, None)


def p_success():
    normal(True, None, None, True)


def p_maxlen():
    normal(False, None, fresh_int('maxlen', 1))


def p_checkpoints():
    normal(False, fresh_int('freq', 1), None)


def p_nothing_to_do():
    m, agent, env, ev, hooks, f, steps, off, hast = setup(False, True)
    assume(off >= steps)
    log = []
    m.saved = log.append
    f(agent, env, steps, 'out', step_offset=off, evaluator=ev, step_hooks=hooks)
    check(And(same(m.t, off), not m.acted), 'no step is taken when the offset has reached the number of steps')
    check(len(log) == 1 and same(log[0], path_of(off, '_finish')), 'the agent is saved as finished')


def error(with_eval):
    m, agent, env, ev, hooks, f, steps, off, hast = setup(True, with_eval)
    assume(off < steps)
    m.armed = False             # the first reset is outside the protected region
    real_reset = m.reset

    def reset():
        r = real_reset()
        m.armed = True
        return r
    m.reset = reset
    try:
        f(agent, env, steps, 'out', step_offset=off, evaluator=ev, step_hooks=hooks)
    except (Boom, BoomInterrupt) as e:
        cover('failed')
        check(e is m.error, 'the error itself is raised again')
        check(m.finished, 'after an error the agent is saved')
        return
    check(not m.failed, 'no error is swallowed')


def p_error():
    error(False)


def p_error_eval():
    error(True)


PROOFS = [p_plain, p_eval, p_success, p_maxlen, p_checkpoints, p_nothing_to_do, p_error, p_error_eval]


def gen(rng):
    n = rng.randrange(1, 30)
    off = rng.choice([0, 0, 0, 3, 17])
    return dict(steps=off + n if rng.random() < 0.95 else off - rng.randrange(0, 3), off=off, freq=rng.choice([None, None, 1, 2, 3, 5]),
                maxlen=rng.choice([None, None, 1, 2, 4]), hooks=rng.randrange(0, 4), hast=rng.random() < 0.5,
                ev=rng.random() < 0.6, scores=[rng.choice([None, 0, 0.0, 1, -1, 2.5]) for _ in range(n)],
                thr=rng.choice([None, None, 0, 1, 2]), script=[[rng.choice([0, 1, -1, 0.5]), rng.random() < 0.2,
                rng.choice([None, None, None, False, True])] for _ in range(n)],
                fail=rng.choice([None, None, None, rng.randrange(0, 60)]), kind=rng.choice(['err', 'int']))


class SpyErr(Exception):
    pass


class SpyInt(KeyboardInterrupt):
    pass


def expected(c):
    """-> (trace of events, exception?)"""
    tr = []
    calls = [0]

    class Stop(Exception):
        pass

    def ev(armed, *a):
        tr.append(a)
        calls[0] += 1
        if armed and c['fail'] is not None and calls[0] > c['fail'] and not failed:
            failed.append(1)
            raise Stop()
    failed = []
    t = c['off']
    ei, best, o = 0, None, 0
    ev(False, 'reset')
    nobs = 1
    obs, r, ln, done = 0, 0, 0, False
    try:
        i = 0
        while t < c['steps']:
            ev(True, 'act', obs, r)
            ev(True, 'step', i)
            r, done, nr = c['script'][i]
            obs = nobs
            nobs += 1
            i += 1
            t += 1
            ln += 1
            for h in range(c['hooks']):
                ev(True, 'hook', h, t)
            if done or nr or ln == c['maxlen'] or t == c['steps']:
                ev(True, 'stop', obs, r, done)
                ei += 1
                if c['ev']:
                    s = c['scores'][ei - 1]
                    if s is not None and (best is None or s > best):
                        best = s
                    ev(True, 'eval', t, ei)
                    if c['thr'] is not None and best is not None and best >= c['thr']:
                        break
                if t == c['steps']:
                    break
                ev(True, 'reset')
                obs, r, ln = nobs, 0, 0
                nobs += 1
            if c['freq'] and t % c['freq'] == 0:
                ev(True, 'save', '%d_checkpoint' % t)
    except Stop:
        tr.append(('save', '%d_except' % t))
        return tr, True
    tr.append(('save', '%d_finish' % t))
    return tr, False


def run(c):
    from chainerrl.experiments import train_agent
    tr, calls, failed = [], [0], []

    def ev(armed, *a):
        tr.append(a)
        calls[0] += 1
        if armed and c['fail'] is not None and calls[0] > c['fail'] and not failed:
            failed.append((SpyErr if c['kind'] == 'err' else SpyInt)('boom'))
            raise failed[0]
    st = dict(i=0, nobs=0, first=True, best=-1e30, n=0)

    class Env(object):
        def reset(self):
            ev(not st['first'], 'reset')
            st['first'] = False
            st['nobs'] += 1
            return st['nobs'] - 1

        def step(self, a):
            ev(True, 'step', a)
            r, d, nr = c['script'][st['i']]
            st['i'] += 1
            st['nobs'] += 1
            return st['nobs'] - 1, r, d, ({} if nr is None else {'needs_reset': nr})

    class Agent(object):
        def act_and_train(self, obs, r):
            ev(True, 'act', obs, r)
            return st['i']

        def stop_episode_and_train(self, state, reward, done=False):
            ev(True, 'stop', state, reward, done)

        def get_statistics(self):
            return []

        def save(self, d):
            ev(not (d.endswith('_finish') or d.endswith('_except')), 'save', d[len('outdir/'):] if d.startswith('outdir/') else d)
    agent, env = Agent(), Env()
    if c['hast']:
        agent.t = -5

    class Ev(object):
        max_score = -1e30

        def evaluate_if_necessary(self, t, episodes):
            s = c['scores'][st['n']]
            st['n'] += 1
            ev(True, 'eval', t, episodes)
            if s is not None:
                self.max_score = max(self.max_score, s)
            return s

    def hook(h):
        def f(e, a, t):
            if e is not env or a is not agent:
                tr.append(('bad hook arguments', h))
            ev(True, 'hook', h, t)
        return f
    got = None
    try:
        train_agent(agent, env, c['steps'], 'outdir', checkpoint_freq=c['freq'], max_episode_len=c['maxlen'], step_offset=c['off'],
                    evaluator=Ev() if c['ev'] else None, successful_score=c['thr'], step_hooks=[hook(h) for h in range(c['hooks'])])
    except (SpyErr, SpyInt) as e:
        got = e
    want, boom = expected(c)
    for k in range(max(len(want), len(tr))):
        a = tr[k] if k < len(tr) else None
        b = want[k] if k < len(want) else None
        if a != b:
            return 'call %d: %r, expected %r (calls so far: %r)' % (k, a, b, tr[max(0, k - 6):k])
    if boom != (got is not None) or (boom and got is not failed[0]):
        return 'the error %r was answered with %r' % (failed, got)
    if c['hast'] and agent.t != c['off']:
        return 'agent.t is %r, expected %r' % (agent.t, c['off'])


CASES = [('trace', gen, run)]
