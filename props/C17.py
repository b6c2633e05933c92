"""C17 Episode-boundary wrappers signal time limits, lives and skips exactly."""
from props.envs import *
LEVEL = 'proof'
LEVEL_NOTE = ('every operation of ContinuingTimeLimit, EpisodicLifeEnv, MaxAndSkipEnv, NoopResetEnv, make_timestep_limited and '
              'make_action_repeated, from an arbitrary state and for arbitrary inner environments; frames of rank 1 with any length')
TRUSTED = ['gym.Wrapper delegates to the inner environment (pyvc/gymmodel.py)', 'the inner environment is arbitrary']
ASSUMPTIONS = ['frames are numpy uint8 values, treated as integers; rewards are real numbers']
CT = 'chainerrl.wrappers.continuing_time_limit'
AW = 'chainerrl.wrappers.atari_wrappers'
EM = 'chainerrl.misc.env_modifiers'




def same_step(got, e, what, done=None, reward=None, obs=None):
    o, r, d, i = got
    check(same(o, e.obs if obs is None else obs), what + ': the observation')
    check(same(r, e.r if reward is None else reward), what + ': the reward')
    check(Iff(d, e.done if done is None else done), what + ': the done flag')
    return i


class Counting(Env):
    """counts the steps since the last reset"""

    def __init__(self, **k):
        Env.__init__(self, **k)
        self.since = 0

    def on_step(self):
        self.since = self.since + 1

    def on_reset(self):
        self.since = 0


def p_continuing():
    e = root('e', Counting())
    mx = fresh_int('max', 1)
    w = W.load(CT).ContinuingTimeLimit(e, mx)
    a = fresh_obj('a')
    r, _ = raises(AssertionError, lambda: w.step(a))
    check(r and same(e.n_step, 0), 'stepping before the first reset is refused')
    o = w.reset()
    check(And(same(o, e.obs), same(e.n_reset, 1)), 'reset resets the environment once and returns its observation')
    driver().play(w, PList(seq=sym_seq('ops', 'bool')), a)
    n0, m0 = e.n_step, e.n_reset
    b = fresh_obj('b')
    got = w.step(b)
    cover('stepped')
    check(And(same(e.n_step, n0 + 1), same(e.n_reset, m0), same(e.last_action, b)), 'one step of the environment with the given action')
    i = same_step(got, e, 'time limit')
    late = e.since >= mx
    check(Iff(i.get('needs_reset', False), Or(late, e.nr)), 'needs_reset is set exactly when max_episode_steps were taken since the last reset')
    check(same(i['other'], e._pvghost_info['other']), 'other info is passed through')
    o = w.reset()
    check(And(same(o, e.obs), same(e.n_reset, m0 + 1), same(e.n_step, n0 + 1)), 'reset resets the environment exactly once')


def p_limited():
    e = root('e', Counting())
    lim = fresh_int('limit', 1)
    W.load(EM).make_timestep_limited(e, lim)
    a = fresh_obj('a')
    e.reset()
    driver().play(e, PList(seq=sym_seq('ops', 'bool')), a)
    n0, m0 = e.n_step, e.n_reset
    got = e.step(a)
    cover('stepped')
    check(And(same(e.n_step, n0 + 1), same(e.n_reset, m0), same(e.last_action, a)), 'one step of the environment with the given action')
    i = same_step(got, e, 'timestep limit', done=Or(e.done, e.since >= lim))
    check(i is e._pvghost_info, 'info is passed through')
    o = e.reset()
    check(And(same(o, e.obs), same(e.n_reset, m0 + 1)), 'reset resets the environment exactly once')


def p_lives():
    e = root('e', Counting())
    w = W.load(AW).EpisodicLifeEnv(e)
    a = fresh_obj('a')
    o = w.reset()
    check(And(same(e.n_reset, 1), same(e.n_step, 0), same(o, e.obs)), 'the first reset resets the environment')
    driver().play(w, PList(seq=sym_seq('ops', 'bool')), a)
    before = e.lives_now
    n0, m0 = e.n_step, e.n_reset
    if choose(2):
        got = w.step(a)
        check(And(same(e.n_step, n0 + 1), same(e.n_reset, m0), same(e.last_action, a)), 'lives: one step of the environment with the given action')
        lost = And(e.lives_now < before, e.lives_now > 0)
        i = same_step(got, e, 'lives', done=Or(e.done, lost))
        check(i is e._pvghost_info, 'lives: info is passed through')
        cover('stepped')
        n1 = e.n_step
        over = Or(e.done, e.nr)
        o = w.reset()
        check(same(o, e.obs), 'lives: reset returns the newest observation')
        if over:
            cover('real end')
            check(And(same(e.n_reset, m0 + 1), same(e.n_step, n1)), 'lives: the environment is reset after a real end')
        else:
            cover('life lost or early reset')
            check(And(same(e.n_reset, m0), same(e.n_step, n1 + 1), same(e.last_action, 0)), 'lives: otherwise one no-op instead of a reset')
    else:
        w.reset()
        b2 = e.lives_now
        w.step(a)
        got = w.step(a)


class Frames(Env):
    """frames of any length; the last two are remembered"""

    def __init__(self, d, seen=None):
        self.d = d
        Env.__init__(self, obs=self.frame, vary_info=False)
        self.prev, self.cur = self.frame(), self.frame()
        self.total = 0
        self.over = False
        self.want = None
        self.observation_space.shape = (d,)

    def frame(self):
        nm = ctx().name_('frame')

        def at(i):
            x = loops.fresh_of(('int',), nm, (zint(i),))
            assume(And(x >= 0, x <= 255)) if not ctx().in_quant else None
            return x
        return N.Arr((self.d,), heap.memo_at(at), 'i')

    def on_step(self):
        check(Not(self.over), 'no step after the end of the episode')
        check(same(self.last_action, self.want), 'the action is repeated unchanged')
        self.prev.set_content(self.cur.snapshot().content())
        self.cur.set_content(self.obs.snapshot().content())
        self.total = self.total + self.r
        self.over = Or(self.done, self.nr)


def p_skip():
    d = fresh_int('d', 1)
    e = root('e', Frames(d))
    skip = fresh_int('skip', 2)
    w = W.load(AW).MaxAndSkipEnv(e, skip)
    # frames of earlier steps may still be in the buffer
    i = fresh_int('i', 0)
    assume(i < d)
    for nm in [k for k, v in w.__dict__.items() if isinstance(v, N.Arr)]:
        old = sym_seq('old', 'int', n=2 * d)
        w.__dict__[nm] = N.Arr((2, d), lambda r, c, s=old: s.at(r * d + c), 'i')
        break
    else:
        raise Unsupported('no frame buffer')
    a = fresh_obj('a')
    e.want = a

    def inv(L):
        B = L.get('L.self.%s.a' % nm)
        p, c = L.get('R.e.prev.a'), L.get('R.e.cur.a')
        return {'first of the last two': Implies(same(L.k, skip - 1), same(B.at(0, i), c.at(i))),
                'last two': Implies(L.k >= skip, And(same(B.at(0, i), p.at(i)), same(B.at(1, i), c.at(i))))}
    ctx().invfuns.append(inv)
    o, r, dn, info = w.step(a)
    check(And(e.n_step <= skip, e.n_step >= 1), 'at least one and at most skip steps')
    check(Or(same(e.n_step, skip), e.over), 'skipping stops early only at the end of the episode')
    check(same(r, e.total), 'the reward is the sum of the rewards of exactly the taken steps')
    check(And(Iff(dn, e.done), info is e.info), 'done and info are those of the last step')
    if same(e.n_step, skip):
        cover('full skip')
        x, y = e.prev.at(i), e.cur.at(i)
        check(same(o.at(i), ite(x >= y, x, y)), 'after a full skip the element-wise maximum of the last two observations is returned')
        check(same(o.shape[0], d) if len(o.shape) == 1 else False, 'with the shape of a frame')
    else:
        cover('early end')


def p_skip_reset():
    e = root('e', Frames(fresh_int('d', 1)))
    w = W.load(AW).MaxAndSkipEnv(e, fresh_int('skip', 1))
    o = w.reset(seed=3)
    check(And(o is e.obs, same(e.n_reset, 1), same(e.n_step, 0)), 'reset is passed through')


class NoopEnv(Env):
    def __init__(self):
        Env.__init__(self, vary_info=True)
        self.must_reset = False
        self.started = False

    def get_action_meanings(self):
        return PList(['NOOP', 'FIRE', 'UP'])

    def on_step(self):
        check(self.started, 'the environment is reset first')
        check(Not(self.must_reset), 'the environment is reset again when a no-op ended the episode')
        check(same(self.last_action, 0), 'only no-ops are taken')
        self.must_reset = Or(self.done, self.nr)

    def on_reset(self):
        if self.started:
            check(self.must_reset, 'the environment is reset again only when a no-op ended the episode')
        check(same(self._pvghost_kw['x'] if 'x' in self._pvghost_kw else None, 5), 'reset arguments are passed on')
        self.started = True
        self.must_reset = False


class Rand(Obj):
    def __init__(self, hi):
        self.hi, self.drawn, self.count = hi, None, 0

    def randint(self, lo, hi):
        heap.pure_guard('draw')
        check(And(same(lo, 1), same(hi, self.hi + 1)), 'the number of no-ops is drawn from [1, noop_max]')
        self.count = self.count + 1
        x = fresh_int('noops')
        assume(And(x >= lo, x < hi))
        self.drawn = x
        return x


def p_noop():
    e = root('e', NoopEnv())
    mx = fresh_int('max', 1)
    e.np_random = root('rand', Rand(mx))
    w = W.load(AW).NoopResetEnv(e, mx)
    n = None
    if choose(2):
        n = fresh_int('override', 1)
        w.override_num_noops = n
    o = w.reset(x=5)
    cover('reset')
    if n is None:
        check(same(e.np_random.count, 1), 'one number is drawn')
        n = e.np_random.drawn
    check(same(e.n_step, n), 'exactly that many no-ops are taken')
    check(And(same(o, e.obs), Not(e.must_reset)), 'the newest observation is returned, of a live episode')


def p_noop_step():
    e = root('e', Env())
    e.get_action_meanings = lambda: PList(['NOOP'])
    w = W.load(AW).NoopResetEnv(e)
    a = fresh_obj('a')
    i = same_step(w.step(a), e, 'no-op reset')
    check(And(i is e._pvghost_info, same(e.n_step, 1), same(e.last_action, a)), 'steps are passed through')


class Repeated(Env):
    def __init__(self):
        Env.__init__(self, vary_info=False)
        self.total, self.over, self.want = 0, False, None

    def on_step(self):
        check(Not(self.over), 'repeat: no step after done')
        check(same(self.last_action, self.want), 'repeat: the action is repeated unchanged')
        self.total = self.total + self.r
        self.over = self.done


def p_repeat():
    e = root('e', Repeated())
    n = fresh_int('n', 1)
    W.load(EM).make_action_repeated(e, n)
    a = fresh_obj('a')
    e.want = a
    got = e.step(a)
    cover('stepped')
    check(And(e.n_step >= 1, e.n_step <= n), 'repeat: at most n_times steps')
    check(Or(same(e.n_step, n), e.over), 'repeat: stops early only when done')
    i = same_step(got, e, 'repeat', reward=e.total)
    check(i is e.info, 'repeat: info of the last step')


PROOFS = [p_continuing, p_limited, p_lives, p_skip, p_skip_reset, p_noop, p_noop_step, p_repeat]


# ---- companion: the real wrappers with the real gym, scripted environments, independent oracles
import random as _random


class Scripted(object):
    """records every call; each step's result is scripted"""

    def __init__(self, script):
        import gym
        self.script, self.pos, self.log = script, 0, []
        self.n = 0
        self.lives_now = 3

    def make(self):
        import gym
        import numpy as np
        me = self

        class Ale(object):
            def lives(self):
                return me.lives_now

        class E(gym.Env):
            observation_space = gym.spaces.Box(0, 255, (3,), dtype=np.uint8)
            action_space = gym.spaces.Discrete(4)
            ale = Ale()

            def get_action_meanings(self):
                return ['NOOP', 'FIRE', 'UP']

            def step(self, a):
                s = me.script[me.pos % len(me.script)]
                me.pos += 1
                me.n += 1
                me.lives_now = s['lives']
                o = np.array(s['obs'], dtype=np.uint8)
                info = {'other': me.n}
                if s['nr'] is not None:
                    info['needs_reset'] = s['nr']
                me.log.append(('step', a, o, s['r'], s['done'], info))
                return o, s['r'], s['done'], info

            def reset(self, **kw):
                me.n += 1
                s = me.script[me.pos % len(me.script)]
                me.pos += 1
                me.lives_now = s['lives']
                o = np.array(s['obs'], dtype=np.uint8)
                me.log.append(('reset', kw, o))
                return o
        e = E()
        e.np_random = _random.Random(5)
        e.np_random.randint = lambda lo, hi, r=_random.Random(7): me.__dict__.setdefault('drawn', []).append((lo, hi)) or r.randrange(lo, hi)
        return e


def gen_script(rng, pdone=None):
    pd = rng.choice([0, 0.05, 0.3, 0.8]) if pdone is None else pdone
    pn = rng.choice([0, 0.05, 0.3, 0.8])
    return [{'obs': [rng.randrange(256) for _ in range(3)], 'r': rng.choice([0, 1, -1, 0.5, 2.25, -3]),
             'done': rng.random() < pd, 'nr': rng.choice([None, rng.random() < pn]), 'lives': rng.choice([0, 1, 2, 3, 3, 4])}
            for _ in range(rng.randrange(1, 25))]


def gen_play(rng):
    return {'script': gen_script(rng), 'n': rng.randrange(1, 8), 'which': rng.choice(['cont', 'limit', 'lives', 'noop', 'repeat', 'skip']),
            'ops': [rng.random() < 0.25 for _ in range(rng.randrange(1, 30))], 'over': rng.choice([None, 1, 2, 4])}


def run_play(c):
    import numpy as np
    from chainerrl.wrappers import atari_wrappers as aw
    from chainerrl.wrappers import continuing_time_limit as ct
    from chainerrl.misc import env_modifiers as em
    sc = Scripted(c['script'])
    e = sc.make()
    n, w, which = c['n'], None, c['which']
    if which == 'cont':
        w = ct.ContinuingTimeLimit(e, n)
        try:
            w.step(0)
            return 'step before the first reset is accepted'
        except AssertionError:
            pass
        if sc.log:
            return 'a refused step reached the environment'
    elif which == 'limit':
        em.make_timestep_limited(e, n)
        w = e
    elif which == 'lives':
        w = aw.EpisodicLifeEnv(e)
    elif which == 'noop':
        w = aw.NoopResetEnv(e, n)
        w.override_num_noops = c['over']
    elif which == 'repeat':
        em.make_action_repeated(e, n)
        w = e
    else:
        w = aw.MaxAndSkipEnv(e, max(n, 2))
        n = max(n, 2)
    since, lives, real = 0, 0, True
    buf_full = False
    for k, op in enumerate([True] + c['ops']):
        start = len(sc.log)
        if op:
            if which == 'lives' and not real:
                o = w.reset()
                new = sc.log[start:]
                if [x[0] for x in new] != ['step'] or new[0][1] != 0:
                    return 'lives: reset without a real end is %r' % ([x[:2] for x in new],)
            elif which == 'noop':
                kw = {'seed': k} if k % 2 else {}
                d0 = len(sc.__dict__.get('drawn', []))
                o = w.reset(**kw)
                new = sc.log[start:]
                if c['over'] is None:
                    dr = sc.drawn[d0:]
                    if dr != [(1, n + 1)]:
                        return 'noop: draws %r' % (dr,)
                exp, must = ['reset'], False
                cnt = 0
                for x in new[1:]:
                    if x[0] == 'step':
                        if must:
                            return 'noop: no reset after an end'
                        cnt += 1
                        must = x[4] or x[5].get('needs_reset', False)
                        if x[1] != 0:
                            return 'noop: action %r' % (x[1],)
                    else:
                        if not must:
                            return 'noop: reset of a live episode'
                        must = False
                    exp.append(x[0])
                if must:
                    return 'noop: ended episode returned'
                if new[0][0] != 'reset' or any(x[0] == 'reset' and x[1] != kw for x in new):
                    return 'noop: reset arguments'
                if c['over'] is not None and cnt != c['over']:
                    return 'noop: %d instead of %d' % (cnt, c['over'])
                if c['over'] is None and not 1 <= cnt <= n:
                    return 'noop: %d not in [1, %d]' % (cnt, n)
            else:
                o = w.reset()
                new = sc.log[start:]
                if [x[0] for x in new] != ['reset']:
                    return '%s: reset does %r' % (which, [x[0] for x in new])
            if o is not sc.log[-1][2]:
                return '%s: reset does not return the newest observation' % which
            since = 0
            lives = sc.lives_now
            continue
        a = k % 4
        got = w.step(a)
        new = sc.log[start:]
        if any(x[0] != 'step' or x[1] != a for x in new) or not new:
            return '%s: step does %r' % (which, [x[:2] for x in new])
        last = new[-1]
        o, r, d, i = got
        since += 1
        if which in ('repeat', 'skip'):
            ends = [x[4] or (which == 'skip' and x[5].get('needs_reset', False)) for x in new]
            if any(ends[:-1]) or len(new) > n or (len(new) < n and not ends[-1]):
                return '%s: %d steps of %d with ends %r' % (which, len(new), n, ends)
            if abs(r - sum(x[3] for x in new)) > 1e-9:
                return '%s: reward %r' % (which, r)
            if d != last[4] or i is not last[5]:
                return '%s: done or info' % which
            if which == 'repeat' and o is not last[2]:
                return 'repeat: observation'
            if which == 'skip' and len(new) == n and not np.array_equal(o, np.maximum(new[-1][2], new[-2][2])):
                return 'skip: not the maximum of the last two frames'
            continue
        if len(new) != 1:
            return '%s: %d steps' % (which, len(new))
        if o is not last[2] or r != last[3]:
            return '%s: observation or reward changed' % which
        want = last[4]
        if which == 'limit':
            want = want or since >= n
        if which == 'lives':
            want = want or 0 < sc.lives_now < lives
            lives = sc.lives_now
            real = last[4] or last[5].get('needs_reset', False)
        if bool(d) != bool(want):
            return '%s: done is %r, expected %r (step %d of limit %d)' % (which, d, want, since, n)
        orig = c['script'][(sc.pos - 1) % len(c['script'])]['nr']
        if which == 'cont':
            if bool(i.get('needs_reset', False)) != bool(orig or since >= n):
                return 'continuing: needs_reset is %r at step %d of %d' % (i.get('needs_reset'), since, n)
        elif i is not last[5] or i.get('needs_reset') != orig:
            return '%s: info' % which
        if i['other'] != sc.n:
            return '%s: info changed' % which
    return None


CASES = [('wrapper histories', gen_play, run_play)]
