"""C12 Batch training counts, resets and reports per environment correctly."""
from props.lib import *
from props.protocol import *
from pyvc import npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('train_agent_batch for every number of environments, agent, vector environment, evaluator and configuration and any number of '
              'steps: the collaborators are protocol monitors; an error may be raised by any collaborator call. The returns shown in log lines '
              'are checked by the companion only')
TRUSTED = ['the collaborators (agent, vector environment, hooks, evaluator) are arbitrary apart from their signatures',
           'episode lengths and counts are mathematical integers (numpy int32 in the code)']
TB = 'chainerrl.experiments.train_agent_batch'
W = world('base')


class Info(Obj):
    """info of one environment: without the flag, or with an arbitrary one"""

    def __init__(self, has, nr):
        self.has, self.nr = has, nr

    def get(self, k, d=None):
        if k != 'needs_reset':
            return d
        return ite(self.has, self.nr, d)

    def __contains__(self, k):
        return self.has if k == 'needs_reset' else False

    def __getitem__(self, k):
        if k == 'needs_reset' and self.has:
            return self.nr
        raise KeyError(k)


def fun_bool(name):
    nm = ctx().name_(name)
    return heap.memo_at(lambda i: loops.fresh_of(('bool',), nm, (zint(i),)))


def fun_real(name):
    nm = ctx().name_(name)
    return heap.memo_at(lambda i: loops.fresh_of(('real',), nm, (zint(i),)))


class Mon(Monitor):
    def __init__(self, n, off, steps, maxlen, nh, freq, boom=False):
        Monitor.__init__(self, boom)
        self.n, self.steps, self.maxlen, self.nh, self.freq = n, steps, maxlen, nh, freq
        self.t = off                    # environment steps taken so far
        self.started = self.acted = self.to_observe = self.must_eval = self.must_reset = self.over = False
        self.obss, self.action = fresh_obj('obss'), fresh_obj('actions')
        self.rs, self.dones = N.zeros(n, 'f'), N.zeros(n, bool)
        self.len = N.zeros(n, 'i')
        self.cnt = N.zeros(n, 'i')
        self.end = N.zeros(n, bool)
        self.rst = N.zeros(n, bool)
        self.ht, self.hi = off, nh      # count and number of the last hook calls
        self.last = off - core.intdiv(off, freq)[1] if freq is not None else 0
        self.ck = False                 # checkpoint of the current count taken
        self.has_eval = False
        self.threshold = None
        self.best = fresh_real('best')
        self.finished = False

    def counted(self):
        """all hooks of all counts so far were called"""
        if self.nh is None:
            return True if self.freq is None else same(self.last, self.t - mod_succ(self.t, self.freq))
        return And(same(self.ht, self.t), same(self.hi, self.nh), Not(self.ck))

    def inv(self, L):
        d = {}
        if self.nh is not None:
            ht, hi = L.get('R.m.ht'), L.get('R.m.hi')
            t = L.get('L.t')
            d['hooks complete'] = And(same(ht, t), same(hi, self.nh))
            if self.freq is not None:
                ck = L.get('R.m.ck')
                r = core.intdiv(t, self.freq)[1]
                d['checkpoint done'] = Not(ck)
                d['checkpoint under way'] = ite(same(L.k, 0), Iff(ck, same(r, 0)), Not(ck))
            d['hooks under way'] = Or(And(same(L.k, 0), same(hi, self.nh), same(ht, t - 1)), And(L.k >= 1, same(hi, L.k), same(ht, t)))
        elif self.freq is not None:
            t = L.get('L.t')
            d['last checkpoint'] = same(L.get('R.m.last'), t - mod_succ(t, self.freq))
        return d

    def reset(self, mask=None):
        self.call()
        if not self.started:
            check(mask is None, 'all environments are reset first')
            self.started = True
        else:
            check(Not(Or(self.acted, self.to_observe, self.must_eval, self.over)), 'environments restart after the step is fully processed')
            check(self.must_reset, 'ended environments restart exactly once before the next action, and none after the last iteration')
            i = fresh_int('i', 0)
            if i < self.n:
                check(Iff(Not(mask.at(i)), self.end.at(i)), 'exactly the environments whose episode ended start a new episode')
            self.must_reset = False
            e = self.end.snapshot()
            old = self.len.snapshot()
            self.len = N.where(e, 0, old)
        self.obss = self.fresh('obss')
        return self.obss

    def act(self, obss):
        self.call()
        check(self.started, 'the environments are reset first')
        check(Not(Or(self.acted, self.to_observe, self.must_eval, self.must_reset, self.over)), 'acting only after the previous step is processed')
        check(same(obss, self.obss), 'the agent acts on the latest observations')
        check(self.counted(), 'hooks and checkpoints are completed for each count')
        self.acted = True
        self.action = self.fresh('actions')
        return self.action

    def step(self, a):
        self.call()
        check(And(self.acted, same(a, self.action)), 'all environments are stepped once with the actions just returned')
        self.acted = False
        n = self.n
        rs = N.Arr((n,), fun_real('r'), 'f')
        dones = N.Arr((n,), fun_bool('done'), 'b')
        has, nr = fun_bool('hasflag'), fun_bool('flag')
        infos = PList(seq=Seq(n=n, at=lambda i: Info(has(i), nr(i))))
        self.obss, self.rs, self.dones = self.fresh('obss'), rs, dones
        ln = self.len.snapshot()
        ln1 = N.Arr((n,), lambda i: ln.at(i) + 1, 'i')
        self.len = ln1
        mx = self.maxlen
        rst = N.Arr((n,), lambda i: Or(And(has(i), nr(i)), False if mx is None else same(ln1.at(i), mx)), 'b')
        end = N.Arr((n,), lambda i: Or(rst.at(i), dones.at(i)), 'b')
        self.rst, self.end = rst, end
        cnt = self.cnt.snapshot()
        self.cnt = N.Arr((n,), lambda i: cnt.at(i) + ite(end.at(i), 1, 0), 'i')
        self.t = self.t + n
        self.to_observe = True
        return self.obss, rs, dones, infos

    def observe(self, obss, rs, dones, resets):
        self.call()
        check(self.to_observe, 'the agent observes each step exactly once')
        check(And(same(obss, self.obss), rs is self.rs, dones is self.dones), 'the agent observes exactly those results')
        i = fresh_int('i', 0)
        if i < self.n:
            check(Iff(resets.at(i), self.rst.at(i)), 'a reset flag is set iff needs_reset or the episode length reached the maximum')
        self.to_observe = False
        self.must_eval = self.has_eval
        self.over = self.t >= self.steps
        self.must_reset = Not(self.over)

    def hook(self, i, env, agent, t):
        self.call()
        check(Not(self.to_observe), 'hooks come after the agent observed the step')
        check(And(env is self.env, agent is self.agent), 'hooks receive environment and agent')
        if same(i, 0):
            check(same(self.hi, self.nh), 'hooks of one count are completed before the next')
            check(And(same(t, self.ht + 1), t <= self.t), 'hooks are called for each count in turn')
            if self.freq is not None:
                check(Iff(self.ck, same(core.intdiv(t, self.freq)[1], 0)), 'a checkpoint at each multiple of checkpoint_freq and only there')
                self.ck = False
            self.ht = t
            self.hi = 1
        else:
            check(And(same(t, self.ht), same(i, self.hi)), 'hooks are called in order for each count')
            self.hi = i + 1

    def evaluate(self, t, episodes):
        self.call()
        check(And(self.must_eval, self.counted()), 'evaluation is offered once per iteration, after the hooks')
        check(same(t, self.t), 'with the current step count')
        check(same(episodes, N.np_sum(self.cnt)), 'every episode end is counted exactly once')
        self.must_eval = False
        r = None if choose(2) else fresh_real('score')
        if r is not None:
            self.best = self.fresh_real('best')
            if self.threshold is not None:
                self.over = Or(self.over, self.best >= self.threshold)
                self.must_reset = Not(self.over)
        return r

    def save(self, d):
        heap.pure_guard('save')
        if self.failed:
            check(And(self.started, Not(self.finished)), 'after an error the agent is saved once')
            check(getattr(d, 'parts', [0])[-1] == '_except', 'as exception')
            self.finished = True
            return
        p = d.parts if isinstance(d, SFmt) else [d]
        if p[-1] == '_finish':
            check(And(self.over, Not(self.finished), Not(Or(self.must_eval, self.to_observe, self.acted)), self.counted()),
                  'the agent is saved once as finished when training stops')
            check(same(d, path_of(self.t, '_finish')), 'under the final step')
            self.finished = True
            return
        check(Not(Or(self.to_observe, self.acted)), 'checkpoints come after the agent observed the step')
        if self.freq is None:
            unreachable('no checkpoint without checkpoint_freq')
            return
        if self.nh is not None:
            check(And(Not(self.ck), same(self.hi, self.nh), same(d, path_of(self.ht + 1, '_checkpoint')), self.ht + 1 <= self.t),
                  'one checkpoint per multiple, before the hooks of that count')
            self.ck = True
        else:
            for x in p:
                if core.is_sym(x):
                    mod_succ(x, self.freq)
            self.last = self.last + self.freq
            check(same(d, path_of(self.last, '_checkpoint')), 'without hooks: checkpoints at each multiple of checkpoint_freq in turn')
            check(And([x <= self.t for x in p if core.is_sym(x)]), 'without hooks: only for counts reached')


class Env(Obj):
    def __init__(self, m):
        self.m, self.num_envs = m, m.n
        self.closed = 0

    def reset(self, mask=None):
        return self.m.reset(mask)

    def step(self, a):
        return self.m.step(a)

    def close(self):
        heap.pure_guard('close')
        self.closed += 1


class Agent(Obj):
    def __init__(self, m, hast):
        self.m = m
        if hast:
            self.t = fresh_int('agent_t')

    def batch_act_and_train(self, obss):
        return self.m.act(obss)

    def batch_observe_and_train(self, *a):
        return self.m.observe(*a)

    def get_statistics(self):
        return PList()

    def save(self, d):
        self.m.save(d)


class Evaluator(Obj):
    def __init__(self, m):
        self.m = m
        self.env = Obj()
        self.env.closed = 0

        def close():
            self.env.closed += 1
        self.env.close = close

    @property
    def max_score(self):
        return self.m.best

    def evaluate_if_necessary(self, t, episodes):
        return self.m.evaluate(t, episodes)


def start(boom=False, limited=False, hooks=False, with_eval=False, thr=False, freq=False):
    n, steps, off = fresh_int('n', 1), fresh_int('steps', 0), fresh_int('offset', 0)
    maxlen = fresh_int('maxlen', 1) if limited else None
    nh = fresh_int('hooks', 1) if hooks else None
    fq = fresh_int('freq', 1) if freq else None
    m = root('m', Mon(n, off, steps, maxlen, nh, fq, boom))
    hast = not hooks and choose(2) == 1
    agent, env = Agent(m, hast), Env(m)
    m.agent, m.env = agent, env
    ev = None
    if with_eval:
        m.has_eval = True
        ev = Evaluator(m)
        m.threshold = fresh_real('threshold') if thr else None
    ctx().invfuns.append(m.inv)
    f = W.load(TB).train_agent_batch
    hs = PList(seq=Seq(n=nh, at=lambda i: HookAt(m, i))) if hooks else ()
    kw = dict(checkpoint_freq=fq, max_episode_len=maxlen, step_offset=off, evaluator=ev, successful_score=m.threshold, step_hooks=hs)
    return m, agent, env, ev, f, n, steps, off, hast, kw


def normal(**o):
    m, agent, env, ev, f, n, steps, off, hast, kw = start(False, **o)
    f(agent, env, steps, 'out', **kw)
    cover('finished')
    check(m.finished, 'the agent is saved at the end')
    check(m.over, 'training stops exactly when the count reaches steps or the evaluation the successful score')
    check(Not(Or(m.must_eval, m.to_observe, m.acted)), 'the last iteration is completed')
    check(env.closed == 0, 'the environment is closed only on failure')
    if hast:
        check(same(agent.t, off), 'the step count of the agent starts at the offset')


def p_plain():
    normal()


def p_limited():
    normal(limited=True)


def p_hooks():
    normal(hooks=True)


def p_checkpoints():
    ctx().opaque_mod = True
    normal(hooks=True, freq=True)


def p_checkpoints_alone():
    ctx().opaque_mod = True
    normal(freq=True)


def p_eval():
    normal(with_eval=True)


def p_success():
    normal(with_eval=True, thr=True)


def error(**o):
    m, agent, env, ev, f, n, steps, off, hast, kw = start(True, **o)
    m.armed = False             # the first reset is outside the protected region
    real = m.reset

    def reset(mask=None):
        r = real(mask)
        m.armed = True
        return r
    m.reset = reset
    try:
        f(agent, env, steps, 'out', **kw)
    except (Boom, BoomInterrupt) as e:
        cover('failed')
        check(e is m.error, 'the error itself is raised again')
        check(And(m.finished, env.closed == 1), 'the agent is saved as exception and the environment closed')
        if ev is not None:
            check(ev.env.closed == 1, 'the evaluation environment is closed')
        return
    check(not m.failed, 'no error is swallowed')


def p_error():
    error()


def p_error_eval():
    error(with_eval=True)


PROOFS = [p_plain, p_limited, p_hooks, p_checkpoints, p_checkpoints_alone, p_eval, p_success, p_error, p_error_eval]


def gen(rng):
    n = rng.randrange(1, 4)
    its = 14
    return dict(n=n, off=rng.choice([0, 0, 3]), steps=rng.randrange(0, 3 + n * 10), freq=rng.choice([None, 1, 2, 3, 5]), maxlen=rng.choice([None, None, 1, 2, 3]),
                hooks=rng.randrange(0, 3), ev=rng.random() < 0.6, thr=rng.choice([None, 0, 1]), hast=rng.random() < 0.5,
                scores=[rng.choice([None, None, 0.0, 1.0, -1.0]) for _ in range(its)], log=rng.random() < 0.4, win=rng.choice([1, 100]),
                script=[[[rng.choice([0, 1, -1, 0.5]), rng.random() < 0.25, rng.choice([None, None, None, False, True])] for _ in range(n)] for _ in range(its)],
                fail=rng.choice([None, None, rng.randrange(1, 40)]), kind=rng.choice(['err', 'int']))


class SpyErr(Exception):
    pass


class SpyInt(KeyboardInterrupt):
    pass


def run(c):
    import re
    import numpy as np
    from chainerrl.experiments import train_agent_batch
    n = c['n']
    tr, want, calls, failed = [], [], [0], []
    logs = []

    def ev(*a):
        tr.append(a)
        calls[0] += 1
        if calls[0] > 1 and c['fail'] is not None and calls[0] > c['fail'] and not failed:
            failed.append((SpyErr if c['kind'] == 'err' else SpyInt)('boom'))
            raise failed[0]
    st = dict(i=0, best=-1e30)

    class Env(object):
        num_envs = n
        closed = 0

        def reset(self, mask=None):
            ev('reset', None if mask is None else [bool(x) for x in mask])
            return ('obs', len(tr))

        def step(self, a):
            ev('step', a)
            rows = c['script'][st['i'] % 14]
            st['i'] += 1
            return (('o', len(tr)), np.array([r[0] for r in rows], dtype='f'), tuple(r[1] for r in rows),
                    tuple({} if r[2] is None else {'needs_reset': r[2]} for r in rows))

        def close(self):
            self.closed += 1

    class Agent(object):
        def batch_act_and_train(self, o):
            ev('act', o)
            return ('a', len(tr))

        def batch_observe_and_train(self, o, r, d, x):
            ev('observe', o, [float(y) for y in r], [bool(y) for y in d], [bool(y) for y in x])

        def get_statistics(self):
            return []

        def save(self, d):
            tr.append(('save', d))

    class Evaluator(object):
        max_score = -1e30
        env = Env()

        def evaluate_if_necessary(self, t, episodes):
            ev('eval', t, int(episodes))
            s = c['scores'][(st['i'] - 1) % 14]
            if s is not None:
                self.max_score = max(self.max_score, s)
            return s

    class Log(object):
        def info(self, f, *a):
            m = re.match(r'outdir:.* step:(\d+) episode:(\d+) last_R: (\S+) average_R:(\S+)$', f % a if a else f)
            if m:
                logs.append(tuple(round(float(x), 6) for x in m.groups()))
    agent, env, e = Agent(), Env(), Evaluator() if c['ev'] else None
    if c['hast']:
        agent.t = 99
    hooks = [lambda en, ag, t, i=i: ev('hook', i, t, en is env, ag is agent) for i in range(c['hooks'])]
    # reference
    wlogs = []
    wc = [0]

    class Stop(Exception):
        pass

    def w(*a):
        want.append(a)
        wc[0] += 1
        if wc[0] > 1 and c['fail'] is not None and wc[0] > c['fail']:
            raise Stop()
    t = c['off']
    ln, ret, epi, rets = [0] * n, [0.0] * n, 0, []
    best = -1e30
    w('reset', None)
    obs = ('obs', 1)
    err = False
    try:
        i = 0
        while True:
            w('act', obs)
            w('step', ('a', len(want)))
            obs = ('o', len(want))
            rows = c['script'][i % 14]
            i += 1
            ln = [x + 1 for x in ln]
            ret = [x + r[0] for x, r in zip(ret, rows)]
            rs = [bool(r[2]) or x == c['maxlen'] for x, r in zip(ln, rows)]
            w('observe', obs, [float(r[0]) for r in rows], [bool(r[1]) for r in rows], rs)
            end = [a or bool(r[1]) for a, r in zip(rs, rows)]
            epi += sum(end)
            rets += [x for x, y in zip(ret, end) if y]
            for _ in range(n):
                t += 1
                if c['freq'] and t % c['freq'] == 0:
                    want.append(('save', 'out/%d_checkpoint' % t))
                for h in range(c['hooks']):
                    w('hook', h, t, True, True)
            if c['log'] and t >= n:
                last = np.float64(rets[-1]) if rets else np.nan
                wlogs.append(tuple(round(float(x), 6) for x in (t, epi, last, np.mean(rets[-c['win']:]) if rets else np.nan)))
            if c['ev']:
                w('eval', t, epi)
                s = c['scores'][(i - 1) % 14]
                if s is not None:
                    best = max(best, s)
                    if c['thr'] is not None and best >= c['thr']:
                        break
            if t >= c['steps']:
                break
            ln = [0 if y else x for x, y in zip(ln, end)]
            ret = [0.0 if y else x for x, y in zip(ret, end)]
            w('reset', [not y for y in end])
            obs = ('obs', len(want))
        want.append(('save', 'out/%d_finish' % t))
    except Stop:
        want.append(('save', 'out/%d_except' % t))
        err = True
    got = None
    try:
        train_agent_batch(agent, env, c['steps'], 'out', checkpoint_freq=c['freq'], log_interval=n if c['log'] else None, max_episode_len=c['maxlen'],
                          step_offset=c['off'], evaluator=e, successful_score=c['thr'], step_hooks=hooks, return_window_size=c['win'], logger=Log())
    except (SpyErr, SpyInt) as x:
        got = x
    if tr != want:
        k = next((k for k in range(min(len(tr), len(want))) if tr[k] != want[k]), min(len(tr), len(want)))
        return 'call %d: %r, expected %r' % (k, tr[k:k + 1], want[k:k + 1])
    if (got is not None) != err or (err and got is not failed[0]):
        return 'error %r expected %r' % (got, err)
    if env.closed != int(err) or (e is not None and e.env.closed != int(err)):
        return 'environment closed %d times' % env.closed
    if c['hast'] and agent.t != c['off']:
        return 'agent.t %r' % agent.t
    if c['log'] and logs and repr(logs) != repr(wlogs):
        k = next((k for k in range(min(len(logs), len(wlogs))) if logs[k] != wlogs[k]), min(len(logs), len(wlogs)))
        return 'log line %r, expected %r' % (logs[k:k + 1], wlogs[k:k + 1])


run.weight = 2
CASES = [('history', gen, run)]
