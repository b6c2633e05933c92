"""C18 Transforming wrappers change only their own component, as specified."""
from props.envs import *
import random as _random
from fractions import Fraction
LEVEL = 'proof'
LEVEL_NOTE = ('every operation of the wrappers and modifiers for arbitrary inner environments and arbitrary state; WarpFrame needs OpenCV, '
              'which is not installed, and is not covered; arrays have rank 1 to 3 and any size')
TRUSTED = ['gym.Wrapper and its subclasses delegate as in gym 0.16 (pyvc/gymmodel.py)', 'numpy semantics (pyvc/npmodel.py)']
ASSUMPTIONS = ['numbers are mathematical: float32 rounding of observations and actions is not modelled']
WR = 'chainerrl.wrappers.'
AW = WR + 'atari_wrappers'
EM = 'chainerrl.misc.env_modifiers'
RF = 'chainerrl.misc.reward_filter'


def step_checked(w, e, what, a=None, sent=None):
    """one step; the inner environment must be stepped exactly once"""
    a = fresh_obj('a') if a is None else a
    n0, m0 = e.n_step, e.n_reset
    got = w.step(a)
    check(And(same(e.n_step, n0 + 1), same(e.n_reset, m0)), what + ': exactly one step of the inner environment')
    if sent is None:
        check(same(e.last_action, a), what + ': the action is passed on unchanged')
    return got


def rest(got, e, what, skip=()):
    o, r, d, i = got
    if 'obs' not in skip:
        check(o is e.obs if isinstance(e.obs, N.Arr) else same(o, e.obs), what + ': the observation is passed through')
    if 'reward' not in skip:
        check(same(r, e.r), what + ': the reward is passed through')
    check(Iff(d, e.done), what + ': the done flag is passed through')
    check(i is e._pvghost_info, what + ': info is passed through')


def reset_through(w, e, what):
    n0, m0 = e.n_step, e.n_reset
    o = w.reset()
    check(And(o is e.obs if isinstance(e.obs, N.Arr) else same(o, e.obs), same(e.n_reset, m0 + 1), same(e.n_step, n0)),
          what + ': reset is passed through')


def p_scale_reward():
    e = root('e', Env())
    sc = fresh_real('scale')
    w = W.load(WR + 'scale_reward').ScaleReward(e, sc)
    reset_through(w, e, 'scale')
    got = step_checked(w, e, 'scale')
    rest(got, e, 'scale', ('reward',))
    check(same(got[1], sc * e.r), 'scale: the reward is scale times the reward')
    check(same(w.original_reward, e.r), 'scale: the original reward is kept')


def p_clip_reward():
    e = root('e', Env())
    w = W.load(AW).ClipRewardEnv(e)
    reset_through(w, e, 'sign')
    got = step_checked(w, e, 'sign')
    rest(got, e, 'sign', ('reward',))
    check(same(got[1], ite(e.r > 0, 1, ite(e.r < 0, -1, 0))), 'sign: the reward is its sign')


def p_filters():
    e = root('e', Env())
    em = W.load(EM)
    k = choose(3)
    calls = root('calls', Obj(n=0, arg=None))
    if k == 0:
        out = fresh_real('filtered')

        def f(x):
            heap.pure_guard('filter')
            calls.n, calls.arg = calls.n + 1, x
            return out
        em.make_reward_filtered(e, f)
        got = step_checked(e, e, 'filter')
        rest(got, e, 'filter', ('reward',))
        check(And(same(got[1], out), same(calls.n, 1), same(calls.arg, e.r)), 'filter: the reward is filtered exactly once')
    elif k == 1:
        lo, hi = fresh_real('lo'), fresh_real('hi')
        assume(lo <= hi)
        em.make_reward_clipped(e, lo, hi)
        got = step_checked(e, e, 'clip')
        rest(got, e, 'clip', ('reward',))
        r = N.to_real(got[1])
        check(And(r >= lo, r <= hi, Implies(And(e.r >= lo, e.r <= hi), same(r, e.r)), Implies(e.r < lo, same(r, lo)),
                  Implies(e.r > hi, same(r, hi))), 'clip: the reward is clipped to [low, high]')
    else:
        out = fresh_obj('filtered')
        a = fresh_obj('a')

        def f(x):
            heap.pure_guard('filter')
            calls.n, calls.arg = calls.n + 1, x
            return out
        em.make_action_filtered(e, f)
        got = step_checked(e, e, 'action filter', a, sent=True)
        check(And(same(e.last_action, out), same(calls.n, 1), same(calls.arg, a)), 'action filter: the action is filtered exactly once')
        rest(got, e, 'action filter')


def p_rendered():
    e = root('e', Env())
    x = fresh_obj('mode')
    if choose(2):
        W.load(EM).make_rendered(e, x, k=5)
        args, kw = (x,), {'k': 5}
    else:
        W.load(EM).make_rendered(e)
        args, kw = (), {}
    got = step_checked(e, e, 'rendered')
    rest(got, e, 'rendered')
    check(same(e.calls.s.n, 1), 'rendered: rendered exactly once per step')
    ra, rk = e._pvghost_render
    check(And(len(ra) == len(args), all(p is q for p, q in zip(ra, args)), dict(rk) == kw), 'rendered: with the given arguments')
    e.close()
    cs = [c for c in e.calls.s.items]
    check(cs.count('close') == 1, 'rendered: closing closes the environment once')


def p_render_wrapper():
    e = root('e', Env())
    w = W.load(WR + 'render').Render(e, mode='m')
    reset_through(w, e, 'render')
    check(same(e.calls.s.n, 1), 'render: once after reset')
    got = step_checked(w, e, 'render')
    rest(got, e, 'render')
    check(same(e.calls.s.n, 2), 'render: once per step')
    ra, rk = e._pvghost_render
    check(And(len(ra) == 0, dict(rk) == {'mode': 'm'}), 'render: with the given arguments')
    n0 = e.n_step
    e.__dict__['_pvghost_kw'] = None
    o = w.reset(seed=3)
    check(And(same(o, e.obs), dict(e._pvghost_kw) == {'seed': 3}), 'render: reset arguments are passed on')


def real_frame(name, shape, kind='real'):
    nm = ctx().name_(name)
    return N.Arr(shape, heap.memo_nd_at(lambda *ix: loops.fresh_of((kind,), nm, tuple(zint(i) for i in ix)))
                 if hasattr(heap, 'memo_nd_at') else N.memo_nd(
                     lambda *ix: loops.fresh_of((kind,), nm, tuple(zint(i) for i in ix))), 'f' if kind == 'real' else 'i')


def idx(shape):
    out = []
    for d in shape:
        i = fresh_int('ix', 0)
        assume(i < d)
        out.append(i)
    return tuple(out)


def p_cast():
    d = fresh_int('d', 1)
    e = root('e', Env(obs=lambda: real_frame('o', (d,))))
    m = W.load(WR + 'cast_observation')
    k = choose(2)
    import numpy as np
    w = m.CastObservation(e, np.int32) if k == 0 else m.CastObservationToFloat32(e)
    i, = idx((d,))
    for rnd in range(2):
        if rnd:
            got = step_checked(w, e, 'cast')
            rest(got, e, 'cast', ('obs',))
            o = got[0]
        else:
            n0 = e.n_step
            o = w.reset()
            check(And(same(e.n_reset, 1), same(e.n_step, n0)), 'cast: reset resets once')
        check(And(len(o.shape) == 1, same(o.shape[0], d)), 'cast: the shape is unchanged')
        check(same(o.at(i), N.cast(e.obs.at(i), 'i' if k == 0 else 'f')), 'cast: every element is cast')
        check(o.kind == ('i' if k == 0 else 'f'), 'cast: to the given type')
        check(w.original_observation is e.obs, 'cast: the original observation is kept')


def p_scaled_float():
    h, v = fresh_int('h', 1), fresh_int('v', 1)
    e = root('e', Env(obs=lambda: real_frame('o', (h, v), 'int')))
    e.observation_space = gymmodel.Box(real_frame('low', (h, v)), real_frame('high', (h, v)))
    w = W.load(AW).ScaledFloatFrame(e)
    i, j = idx((h, v))
    for nm in ('low', 'high'):
        check(same(getattr(w.observation_space, nm).at(i, j), getattr(e.observation_space, nm).at(i, j) / 255), 'float frame: the space is scaled as well')
    for rnd in range(2):
        if rnd:
            got = step_checked(w, e, 'float frame')
            rest(got, e, 'float frame', ('obs',))
            o = got[0]
        else:
            o = w.reset()
            check(And(same(e.n_reset, 1), same(e.n_step, 0)), 'float frame: reset resets once')
        check(same(o.at(i, j), N.to_real(e.obs.at(i, j)) / 255), 'float frame: every element is divided by 255')
        check(And(len(o.shape) == 2, same(o.shape[0], h), same(o.shape[1], v), o.kind == 'f'), 'float frame: shape unchanged, type float')


class LazyStandIn(Obj):
    """contract of LazyFrames for its callers: keeps the given list of frames and the axis"""

    def __init__(self, frames, stack_axis=2):
        self._pv_frames, self.stack_axis = frames, stack_axis
        self._pv_seq0 = to_seq(frames)

    def seq(self):
        return to_seq(self._pv_frames)


def box3():
    h, v, c = fresh_int('h', 1), fresh_int('v', 1), 3
    return gymmodel.Box(real_frame('low', (h, v, c)), real_frame('high', (h, v, c))), (h, v, c)


def p_frame_stack():
    e = root('e', Env())
    e.observation_space, shp = box3()
    m = W.load(AW)
    old = m.LazyFrames
    patch(m, 'LazyFrames', LazyStandIn)
    try:
        k = fresh_int('k', 1)
        order = ['hwc', 'chw'][choose(2)]
        w = m.FrameStack(e, k, channel_order=order)
        axis = {'hwc': 2, 'chw': 0}[order]
        sp = w.observation_space
        want = list(shp)
        want[axis] = want[axis] * k
        check(And([same(x, y) for x, y in zip(sp.low.shape, want)]), 'stack: the space is k times as deep')
        ds = [v for v in w.__dict__.values() if isinstance(v, PDeque)]
        if len(ds) != 1:
            raise Unsupported('no frame queue')
        q = ds[0]
        if choose(2):
            old_w = sym_seq('window', 'obj', n=k)      # any state after at least one reset
        else:
            old_w = Seq(items=[])                      # before the first reset
        q.s = old_w

        def win(L, p):
            ob = e.obs
            full = old_w.concat(Seq(n=L.k, at=lambda i: ob))
            return full.slice(ite(full.n >= k, full.n - k, 0), full.n)
        ctx().defs.append(loops.Def(lambda p: p.endswith('.s'), win))
        a = fresh_int('a', 0)
        assume(a < k)
        if choose(2) and old_w.items is None:
            got = step_checked(w, e, 'stack')
            rest(got, e, 'stack', ('obs',))
            f = got[0].seq()
            check(same(f.n, k), 'stack: k frames')
            check(same(f.at(a), ite(same(a, k - 1), e.obs, old_w.at(a + 1))), 'stack: the last k frames, oldest first')
            check(seq_same(to_seq(q), f), 'stack: the remembered frames are the returned ones')
            cover('stacked step')
            w.step(fresh_obj('b'))
            check(And(same(got[0].seq().n, k), same(got[0].seq().at(a), f.at(a))), 'stack: an observation does not change later')
        else:
            n0, m0 = e.n_step, e.n_reset
            o = w.reset()
            check(And(same(e.n_reset, m0 + 1), same(e.n_step, n0)), 'stack: reset resets once')
            f = o.seq()
            check(And(same(f.n, k), same(f.at(a), e.obs)), 'stack: the first frame is repeated after reset')
            check(seq_same(to_seq(q), f), 'stack: the remembered frames are the returned ones (reset)')
            cover('stacked reset')
            check(same(o.stack_axis, axis), 'stack: along the channel axis')
    finally:
        patch(m, 'LazyFrames', old)


def p_lazy_frames():
    k = fresh_int('k', 1)
    h, v, c = 2, fresh_int('v', 1), 3
    axis = choose(3)
    shp = (h, 2, c)
    nm = ctx().name_('frame')
    fs = Seq(n=k, at=heap.memo_at(lambda q: N.Arr(shp, lambda *ix: loops.fresh_of(('int',), nm, (zint(q),) + tuple(zint(i) for i in ix)), 'i')))
    lf = W.load(AW).LazyFrames(PList(seq=fs), stack_axis=axis)
    o = lf.__array__()
    want = list(shp)
    want[axis] = want[axis] * k
    check(And(len(o.shape) == 3, And([same(x, y) for x, y in zip(o.shape, want)])), 'lazy frames: shape')
    q, = idx((k,))
    i = idx(shp)
    j = list(i)
    j[axis] = q * shp[axis] + i[axis]
    check(same(o.at(*j), fs.at(q).at(*i)), 'lazy frames: converting gives the frames one after the other')
    cover('converted')


def p_normalize():
    d = fresh_int('d', 1)
    e = root('e', Env())
    e.action_space = gymmodel.Box(real_frame('low', (d,)), real_frame('high', (d,)))
    w = W.load(WR + 'normalize_action_space').NormalizeActionSpace(e)
    i, = idx((d,))
    lo, hi = e.action_space.low.at(i), e.action_space.high.at(i)
    assume(lo <= hi)
    sp = w.action_space
    check(And(same(sp.low.at(i), -1), same(sp.high.at(i), 1), same(sp.low.shape[0], d)), 'normalize: the space is [-1, 1] in every component')
    reset_through(w, e, 'normalize')
    a = real_frame('a', (d,))
    a0 = a.snapshot()
    got = step_checked(w, e, 'normalize', a, sent=True)
    rest(got, e, 'normalize')
    x = e.last_action
    check(And(len(x.shape) == 1, same(x.shape[0], d)), 'normalize: same shape')
    check(same(x.at(i), lo + (a0.at(i) + 1) * (hi - lo) / 2), 'normalize: affine map of [-1, 1] onto [low, high]')
    check(Implies(And(a0.at(i) >= -1, a0.at(i) <= 1), And(x.at(i) >= lo, x.at(i) <= hi)), 'normalize: in-bounds actions stay in bounds')
    check(same(a.at(i), a0.at(i)), 'normalize: the given action is not modified')
    check(And(same(e.action_space.low.at(i), lo), same(e.action_space.high.at(i), hi)), 'normalize: the inner bounds are not modified')


class RandomStates(Obj):
    """contract of np.random.RandomState: one generator per call"""

    def __init__(self):
        self.made = 0

    def RandomState(self, *a):
        heap.pure_guard('RandomState')
        self.made = self.made + 1
        self.__dict__['_pvghost_last'] = g = Gen()
        return g


class Gen(Obj):
    def __init__(self):
        self.u, self.nu, self.ni, self.x, self.hi, self.seeded = None, 0, 0, None, None, PList()

    def rand(self):
        heap.pure_guard('rand')
        u = fresh_real('u')
        assume(And(u >= 0, u < 1))
        self.u, self.nu = u, self.nu + 1
        return u

    def randint(self, n):
        heap.pure_guard('randint')
        x = fresh_int('x')
        assume(And(x >= 0, x < n))
        self.x, self.hi, self.ni = x, n, self.ni + 1
        return x

    def seed(self, s):
        self.seeded.append(s)


def p_randomize():
    rs = ctx().np_random = root('rs', RandomStates())
    e = root('e', Env())
    n = fresh_int('n', 1)
    e.action_space = gymmodel.Discrete(n)
    fr = fresh_real('fraction')
    C = W.load(WR + 'randomize_action').RandomizeAction
    r, w = raises(AssertionError, lambda: C(e, fr))
    check(Iff(r, Or(fr < 0, fr > 1)), 'randomize: fractions outside [0, 1] are refused')
    if r:
        return
    g = rs._pvghost_last
    reset_through(w, e, 'randomize')
    s = fresh_int('seed')
    w.seed(s)
    check(And(same(e._pvghost_seed, s), same(g.seeded.s.n, 1), same(g.seeded.s.at(0), s)), 'randomize: seeding reaches the environment and the draw')
    a = fresh_int('a', 0)
    got = step_checked(w, e, 'randomize', a, sent=True)
    rest(got, e, 'randomize')
    check(same(g.nu, 1), 'randomize: one uniform draw per action')
    if g.u < fr:
        cover('randomized')
        check(And(same(g.ni, 1), same(g.hi, n), same(e.last_action, g.x)), 'randomize: a uniformly drawn action below the fraction')
    else:
        cover('kept')
        check(same(e.last_action, a), 'randomize: the given action otherwise')


def p_flicker():
    d = fresh_int('d', 1)
    e = root('e', Env(obs=lambda: real_frame('o', (d,))))
    g = root('g', Gen())
    e.np_random = g
    w = W.load(AW).FlickerFrame(e)
    i, = idx((d,))
    got = step_checked(w, e, 'flicker')
    rest(got, e, 'flicker', ('obs',))
    check(same(g.nu, 1), 'flicker: one draw per observation')
    if g.u < Fraction(1, 2):
        check(same(got[0].at(i), 0), 'flicker: blank below one half')
    else:
        check(got[0] is e.obs, 'flicker: the observation otherwise')
    check(same(got[0].shape[0], d), 'flicker: same shape')


def p_vector_wrapper():
    e = root('e', Env())
    calls = PList()

    def rec(nm):
        def f(*a, **k):
            heap.pure_guard(nm)
            r = fresh_obj(nm)
            calls.append((nm, a, k, r))
            return r
        return f
    names = ['step', 'reset', 'render', 'close', 'seed', 'compute_reward', 'something']
    for nm in names:
        e.__dict__[nm] = rec(nm)
    w = W.load(WR + 'vector_frame_stack').VectorEnvWrapper(e)
    a, b, c = fresh_obj('a'), fresh_obj('b'), fresh_obj('c')
    tests = [('step', (a,), {}), ('reset', (), {'mask': b}), ('reset', (), {}), ('render', ('human',), {}), ('render', (a,), {'k': b}),
             ('close', (), {}), ('seed', (a,), {}), ('compute_reward', (a, b, c), {}), ('something', (a,), {'x': b})]
    for n, (nm, args, kw) in enumerate(tests):
        r = getattr(w, nm)(*args, **kw)
        check(same(calls.s.n, n + 1), 'vector wrapper: %s is forwarded exactly once' % nm)
        c_nm, c_a, c_k, c_r = calls.s.items[-1]
        check(And(c_nm == nm, len(c_a) == len(args), all(x is y for x, y in zip(c_a, args)), dict(c_k) == kw),
              'vector wrapper: %s gets the same arguments' % nm)
        check(c_r is r, 'vector wrapper: %s returns the result unchanged' % nm)
    check(And(w.action_space is e.action_space, w.observation_space is e.observation_space), 'vector wrapper: spaces')
    check(w.unwrapped is e.unwrapped, 'vector wrapper: unwrapped')
    r, _ = raises(AttributeError, lambda: w._secret)
    check(r, 'vector wrapper: private attributes are refused')


def p_reward_filters():
    m = W.load(RF)
    tau, av = fresh_real('tau'), fresh_real('avg')
    r = fresh_real('r')
    if choose(2):
        f = m.AverageRewardFilter(tau=tau)
        check(same(f.average_reward, 0), 'average filter: starts at zero')
        f.average_reward = av
        x = f(r)
        check(same(f.average_reward, (1 - tau) * av + tau * r), 'average filter: exponential moving average of the rewards')
        check(same(x, r - f.average_reward), 'average filter: the average is subtracted')
    else:
        av2, sc, eps = fresh_real('avg2'), fresh_real('scale'), fresh_real('eps')
        assume(And(eps > 0, tau >= 0, tau <= 1))
        f = m.NormalizedRewardFilter(tau=tau, scale=sc, eps=eps)
        check(And(same(f.average_reward, 0), same(f.average_reward_squared, 0)), 'normalizing filter: starts at zero')
        f.average_reward, f.average_reward_squared = av, av2
        x = f(r)
        a1, a2 = f.average_reward, f.average_reward_squared
        check(same(a1, (1 - tau) * av + tau * r), 'normalizing filter: average of the rewards')
        check(same(a2, (1 - tau) * av2 + tau * r * r), 'normalizing filter: average of the squared rewards')
        var = a2 - a1 * a1
        v = ite(var > eps, var, eps)
        check(same(x * (v ** Fraction(1, 2)), sc * (r - a1)), 'normalizing filter: divided by the standard deviation, at least sqrt(eps)')


PROOFS = [p_scale_reward, p_clip_reward, p_filters, p_rendered, p_render_wrapper, p_cast, p_scaled_float, p_frame_stack, p_lazy_frames,
          p_normalize, p_randomize, p_flicker, p_vector_wrapper, p_reward_filters]


# ---- companion: real gym, scripted environments
def gen_wr(rng):
    n = rng.randrange(1, 4)
    low = [rng.choice([-2.0, 0.0, 1.0, -0.5]) for _ in range(n)]
    return {'which': rng.choice(['scale', 'sign', 'filter', 'clip', 'action', 'rendered', 'render', 'cast', 'cast32', 'float', 'stack', 'stackchw',
                                 'norm', 'rand', 'flicker', 'avg', 'normf', 'vector']),
            'x': rng.choice([0.0, 0.25, 1.0, -2.0, 3.5]), 'k': rng.randrange(1, 6), 'n': n, 'low': low,
            'width': [rng.choice([0.0, 1.0, 4.0]) for _ in range(n)], 'shape': rng.choice([[2, 2, 1], [1, 3, 2], [2, 1, 3]]),
            'ops': [rng.random() < 0.2 for _ in range(rng.randrange(1, 20))], 'seed': rng.randrange(10 ** 6)}


def run_vecwrap(c):
    from chainerrl.wrappers.vector_frame_stack import VectorEnvWrapper
    rng = __import__('random').Random(c['seed'])
    log = []

    class V(object):
        action_space, observation_space, num_envs, extra, unwrapped = object(), object(), 3, object(), object()

        def __getattr__(self, name):
            if name.startswith('_'):
                raise AttributeError(name)

            def f(*a, **k):
                log.append((name, a, k, object()))
                return log[-1][3]
            return f
    v = V()
    w = VectorEnvWrapper(v)
    for name in ('action_space', 'observation_space', 'num_envs', 'extra', 'unwrapped'):
        if getattr(w, name) is not getattr(v, name):
            return 'vector wrapper: %s is not that of the inner environment' % name
    if w.env is not v:
        return 'vector wrapper: inner environment'
    for _ in c['ops']:
        nm, a, k = rng.choice([('step', (object(),), {}), ('reset', (), {}), ('reset', (), {'mask': object()}), ('render', (), {}),
                               ('render', ('x',), {'z': 1}), ('close', (), {}), ('seed', (), {}), ('seed', (object(),), {}),
                               ('compute_reward', (1, 2, 3), {}), ('other', (4,), {'u': 5})])
        del log[:]
        x = getattr(w, nm)(*a, **k)
        if len(log) != 1 or log[0][0] != nm or x is not log[0][3]:
            return 'vector wrapper: %s was not forwarded once, or its result was changed' % nm
        if (nm, a, k) == ('render', (), {}):
            a = ('human',)
        if (nm, a, k) == ('seed', (), {}):
            a = (None,)
        ga, gk = log[0][1:3]
        if ga + tuple(gk.values()) != a + tuple(k.values()):
            return 'vector wrapper: arguments of %s: %r %r instead of %r %r' % (nm, ga, gk, a, k)
    return None


def run_wr(c):
    if c['which'] == 'vector':
        return run_vecwrap(c)
    import gym
    import numpy as np
    from chainerrl.wrappers import atari_wrappers as aw
    from chainerrl import wrappers as wr
    from chainerrl.misc import env_modifiers as em
    from chainerrl.misc import reward_filter as rf
    rng = np.random.RandomState(c['seed'])
    which = c['which']
    log = []
    if which in ('avg', 'normf'):
        tau = min(abs(c['x']) / 4 + 0.05, 1)
        f = rf.AverageRewardFilter(tau) if which == 'avg' else rf.NormalizedRewardFilter(tau, scale=2, eps=0.5)
        a = b = 0.0
        for op in c['ops']:
            r = 0.0 if op else float(rng.randint(-3, 4))
            a, b = (1 - tau) * a + tau * r, (1 - tau) * b + tau * r * r
            try:
                x = f(r)
            except ZeroDivisionError:
                return '%s: division by zero' % which
            want = r - a if which == 'avg' else 2 * (r - a) / max(b - a * a, 0.5) ** 0.5
            if isinstance(x, complex) or abs(x - want) > 1e-8:
                return '%s: %r instead of %r' % (which, x, want)
        return None

    def frame():
        if which == 'norm':
            return rng.uniform(-1, 1, c['n'])
        return rng.randint(0, 256, c['shape']).astype(np.uint8)

    class E(gym.Env):
        metadata = {'render.modes': ['human']}
        observation_space = gym.spaces.Box(0, 255, tuple(c['shape']), dtype=np.uint8)
        action_space = gym.spaces.Discrete(5) if which != 'norm' else gym.spaces.Box(
            np.array(c['low'], dtype=np.float32), np.array(c['low'], dtype=np.float32) + np.array(c['width'], dtype=np.float32))
        np_random = np.random.RandomState(3)

        def step(self, a):
            o, r, d, i = frame(), float(rng.choice([0, 1, -1, 2.5, -7])), bool(rng.rand() < 0.3), {'n': len(log)}
            log.append(('step', a, o, r, d, i))
            return o, r, d, i

        def reset(self, **kw):
            log.append(('reset', kw, frame()))
            return log[-1][2]

        def render(self, *a, **kw):
            log.append(('render', a, kw))

        def close(self):
            log.append(('close',))

        def seed(self, s=None):
            log.append(('seed', s))
    e = E()
    e.np_random = np.random.RandomState(3)
    draws = []
    fcalls = []
    w = e
    k = c['k']
    if which == 'scale':
        w = wr.ScaleReward(e, c['x'])
    elif which == 'sign':
        w = aw.ClipRewardEnv(e)
    elif which == 'filter':
        em.make_reward_filtered(e, lambda r: fcalls.append(r) or r * 3 + 1)
    elif which == 'clip':
        em.make_reward_clipped(e, -1.5, 2)
    elif which == 'action':
        em.make_action_filtered(e, lambda a: fcalls.append(a) or a + 10)
    elif which == 'rendered':
        em.make_rendered(e, 'human', z=1)
    elif which == 'render':
        w = wr.Render(e, mode='human')
    elif which == 'cast':
        w = wr.CastObservation(e, np.int64)
    elif which == 'cast32':
        w = wr.CastObservationToFloat32(e)
    elif which == 'float':
        w = aw.ScaledFloatFrame(e)
    elif which in ('stack', 'stackchw'):
        w = aw.FrameStack(e, k, channel_order='hwc' if which == 'stack' else 'chw')
    elif which == 'norm':
        w = wr.NormalizeActionSpace(e)
        if not (np.all(w.action_space.low == -1) and np.all(w.action_space.high == 1)):
            return 'norm: space'
    elif which == 'rand':
        fr = abs(c['x']) / 4
        w = wr.RandomizeAction(e, min(fr, 1))

        class G(object):
            def rand(self):
                draws.append(('u', rng.rand()))
                return draws[-1][1]

            def randint(self, n):
                draws.append(('i', int(rng.randint(n)), n))
                return draws[-1][1]
        for nm, v in list(w.__dict__.items()):
            if isinstance(v, np.random.RandomState):
                w.__dict__[nm] = G()
    elif which == 'flicker':
        w = aw.FlickerFrame(e)

        class G(object):
            def rand(self):
                draws.append(('u', rng.rand()))
                return draws[-1][1]
        e.np_random = G()
    if which in ('stack', 'stackchw'):
        sp = w.observation_space
        want = np.concatenate([np.zeros(c['shape'], dtype=np.uint8)] * k, axis=2 if which == 'stack' else 0)
        if sp.shape != want.shape or sp.dtype != np.uint8 or sp.low.max() != 0 or sp.high.min() != 255:
            return 'stack: observation space %r' % (sp,)
    elif which in ('float',):
        sp = w.observation_space
        if sp.shape != tuple(c['shape']) or sp.dtype != np.float32 or sp.low.max() != 0 or abs(sp.high.min() - 1) > 1e-6:
            return 'float frame: observation space %r' % (sp,)
    if c['seed'] % 3 == 0 and which != 'rand':
        w.seed(c['seed'])
        if log != [('seed', c['seed'])]:
            return '%s: seed was not forwarded once' % which
        del log[:]
    hist = []
    kept = []
    for t, op in enumerate([True] + c['ops']):
        s0 = len(log)
        del fcalls[:], draws[:]
        if op:
            o = w.reset()
            got = None
        else:
            a = rng.uniform(-1, 1, c['n']) if which == 'norm' else int(rng.randint(5))
            a0 = np.array(a)
            got = w.step(a)
            o = got[0]
        new = log[s0:]
        acts = [x for x in new if x[0] in ('step', 'reset', 'close', 'seed')]
        if len(acts) != 1 or acts[0][0] != ('reset' if op else 'step'):
            return '%s: calls %r' % (which, [x[0] for x in new])
        rend = [x for x in new if x[0] == 'render']
        if which == 'render' and (len(rend) != 1 or rend[0][1:] not in (((), {'mode': 'human'}), (('human',), {}))):
            return 'render: %r' % (rend,)
        if which == 'rendered' and not op and (len(rend) != 1 or rend[0][1:] != (('human',), {'z': 1})):
            return 'rendered: %r' % (rend,)
        inner = acts[0]
        ob = inner[2]
        if op:
            hist = [ob] * k
        else:
            hist = (hist + [ob])[-k:]
        # observation
        if which in ('stack', 'stackchw'):
            want = np.concatenate(hist, axis=2 if which == 'stack' else 0)
            kept.append((o, want))
            for oo, ww in kept[-4:]:
                if not np.array_equal(np.asarray(oo), ww) or np.asarray(oo, dtype=np.float32).dtype != np.float32:
                    return 'stack: frames of the observation at step %d' % t
        elif which == 'cast':
            if o.dtype != np.int64 or not np.array_equal(o, ob) or w.original_observation is not ob:
                return 'cast: observation'
        elif which == 'cast32':
            if o.dtype != np.float32 or not np.array_equal(o, ob) or w.original_observation is not ob:
                return 'cast: observation'
        elif which == 'float':
            if o.dtype != np.float32 or not np.allclose(o, ob / 255.0, atol=1e-6):
                return 'float frame: observation'
        elif which == 'flicker':
            if len(draws) != 1 or (draws[0][1] < 0.5 and np.any(o != 0)) or (draws[0][1] >= 0.5 and o is not ob) or o.shape != ob.shape:
                return 'flicker: observation'
        elif o is not ob:
            return '%s: observation' % which
        if op:
            continue
        _, r, d, i = got
        if d != inner[4] or i is not inner[5]:
            return '%s: done or info' % which
        want = inner[3]
        if which == 'scale':
            want = c['x'] * want
            if w.original_reward != inner[3]:
                return 'scale: original reward'
        elif which == 'sign':
            want = (want > 0) - (want < 0)
        elif which == 'filter':
            if fcalls != [want]:
                return 'filter: calls %r' % fcalls
            want = want * 3 + 1
        elif which == 'clip':
            want = min(max(want, -1.5), 2)
        if abs(r - want) > 1e-9:
            return '%s: reward %r instead of %r' % (which, r, want)
        sent = inner[1]
        if which == 'norm':
            lo = np.array(c['low'])
            hi = lo + np.array(c['width'])
            if not np.allclose(sent, lo + (a0 + 1) * (hi - lo) / 2, atol=1e-5):
                return 'norm: %r for %r in [%r, %r]' % (sent, a0, lo, hi)
            if not np.array_equal(a, a0):
                return 'norm: the given action was modified'
        elif which == 'action':
            if fcalls != [a] or sent != a + 10:
                return 'action filter'
        elif which == 'rand':
            us = [x for x in draws if x[0] == 'u']
            if len(us) != 1:
                return 'randomize: draws'
            if us[0][1] < min(fr, 1):
                iz = [x for x in draws if x[0] == 'i']
                if len(iz) != 1 or iz[0][2] != 5 or sent != iz[0][1]:
                    return 'randomize: %r' % (draws,)
            elif sent != a:
                return 'randomize: action changed'
        elif sent != a:
            return '%s: action changed' % which
    if which == 'rendered':
        del log[:]
        w.close()
        if log != [('render', ('human',), {'z': 1, 'close': True}), ('close',)]:
            return 'rendered: closing did %r' % (log,)
    return None


CASES = [('wrapper histories', gen_wr, run_wr)]
