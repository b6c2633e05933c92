"""C10 Explorers follow their schedules and respect bounds."""
from props.lib import *
from pyvc import models, chmodel, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = 'arbitrary schedules, draws, actions of rank 1 and 2 and any size; select_action of every explorer and the interpolation hook'
TRUSTED = ['numpy semantics (pyvc/npmodel.py)', 'np.random.normal(loc, scale) is loc + scale times a standard normal draw',
           'chainer softmax is an uninterpreted function of its input (pyvc/chmodel.py)']
ASSUMPTIONS = ['numbers are mathematical: float32 rounding of actions and noise is not modelled',
               'LinearInterpolationHook: total_steps > 1', 'Ornstein-Uhlenbeck without start_with_mu: 0 < theta < 2']
EG = 'chainerrl.explorers.epsilon_greedy'
W = world('ch', models=lambda: chmodel.add(models.base_models()))


class Rand(Obj):
    """np.random by contract: every draw recorded"""

    def __init__(self):
        self.nu = self.nz = self.nc = 0
        self.u = fresh_real('u0')

    def rand(self, *a):
        if a:
            raise Unsupported('rand(shape)')
        heap.pure_guard('rand')
        u = fresh_real('u')
        assume(And(u >= 0, u < 1))
        self.nu, self.u = self.nu + 1, u
        return u

    def random(self):
        return self.rand()
    random_sample = random

    def uniform(self, low=0, high=1, size=None):
        if size is not None:
            raise Unsupported('uniform(size)')
        return low + (high - low) * self.rand()

    def normal(self, loc=0.0, scale=1.0, size=None):
        heap.pure_guard('normal')
        if size is None:
            raise Unsupported('normal without size')
        size = tuple(heap.iter_native(size)) if not core.isnum(size) else (size,)
        nm = ctx().name_('Z')
        z = Arr(size, N.memo_nd(lambda *ix: loops.fresh_of(('real',), nm, tuple(zint(i) for i in ix))), 'f')
        self.__dict__['_pvghost_z'] = z
        self.nz = self.nz + 1
        return z * scale + loc

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *shape):
        return self.normal(size=shape)

    def choice(self, a, size=None, replace=True, p=None):
        heap.pure_guard('choice')
        if size is not None or p is None:
            raise Unsupported('choice arguments')
        n = a if core.isnum(a) else N.lift(a).shape[0]
        p = N.lift(p)
        if len(p.shape) != 1 or not same(p.shape[0], n):
            raise ValueError('a and p must have same size')
        j = fresh_int('drawn')
        assume(And(j >= 0, j < n))
        self.__dict__['_pvghost_p'] = p.snapshot()
        self.__dict__['_pvghost_j'] = j
        self.nc = self.nc + 1
        return j if core.isnum(a) else N.lift(a).at(j)


class Alt(Obj):
    """an action source: counts its evaluations"""

    def __init__(self, name, val=None):
        self.n = 0
        self._pvghost_name = name
        self._pvghost_val = fresh_obj(name) if val is None else val

    def __call__(self):
        heap.pure_guard('action function')
        self.n = self.n + 1
        return self._pvghost_val


def setup():
    ra = ctx().np_random = root('rand', Rand())
    return ra, root('greedy', Alt('greedy')), root('random', Alt('random'))


def chosen(ra, g, r, got, eps, what, kw=None):
    check(same(ra.nu, 1), what + ': one uniform draw')
    if ra.u < eps:
        cover(what + ' random')
        check(And(same(got, r._pvghost_val), same(r.n, 1), same(g.n, 0)), what + ': the random action below epsilon, and only that evaluated')
    else:
        cover(what + ' greedy')
        check(And(same(got, g._pvghost_val), same(g.n, 1), same(r.n, 0)), what + ': the greedy action otherwise, and only that evaluated')


def p_select():
    ra, g, r = setup()
    eps = fresh_real('eps')
    a, greedy = W.load(EG).select_action_epsilon_greedily(eps, r, g)
    chosen(ra, g, r, a, eps, 'epsilon greedy')
    check(Iff(greedy, Not(ra.u < eps)), 'epsilon greedy: the greedy flag')


def p_constant():
    ra, g, r = setup()
    eps = fresh_real('eps')
    C = W.load(EG).ConstantEpsilonGreedy
    bad, e = raises(AssertionError, lambda: C(eps, r))
    check(Iff(bad, Or(eps < 0, eps > 1)), 'constant: an epsilon outside [0, 1] is refused')
    if bad:
        return
    a = e.select_action(fresh_int('t', 0), g, action_value=None)
    chosen(ra, g, r, a, eps, 'constant')
    check(same(e.epsilon, eps), 'constant: epsilon stays')


def p_linear():
    ra, g, r = setup()
    s, z, d = fresh_real('start'), fresh_real('end'), fresh_int('decay')
    C = W.load(EG).LinearDecayEpsilonGreedy
    bad, e = raises(AssertionError, lambda: C(s, z, d, r))
    check(Iff(bad, Or(s < 0, s > 1, z < 0, z > 1, d < 0)), 'linear: wrong schedules are refused')
    if bad:
        return
    e.epsilon = fresh_real('epsilon before')
    t = fresh_int('t', 0)
    a = e.select_action(t, g)
    eps = e.epsilon
    chosen(ra, g, r, a, eps, 'linear')
    if t >= d:
        cover('linear after')
        check(same(eps, z), 'linear: the end value from decay_steps on')
    else:
        cover('linear during')
        check(same((eps - s) * d, (z - s) * t), 'linear: the straight line from start to end')
    q = t / ite(d < 1, 1, d)
    # t <= d: q in [0, 1]
    check(Implies(t < d, And(q >= 0, q <= 1)), 'linear: the fraction of the decay is within [0, 1]')
    x = fresh_real('x')
    check(Implies(And(x >= 0, x <= 1), Or(And(s <= s + (z - s) * x, s + (z - s) * x <= z), And(z <= s + (z - s) * x, s + (z - s) * x <= s))),
          'linear: between start and end')


def p_linear_twice():
    """the schedule depends on the step only, not on earlier calls"""
    ra, g, r = setup()
    s, z, d = fresh_real('start'), fresh_real('end'), fresh_int('decay', 1)
    assume(And(s >= 0, s <= 1, z >= 0, z <= 1))
    e = W.load(EG).LinearDecayEpsilonGreedy(s, z, d, r)
    check(same(e.epsilon, s), 'linear: starts at the start value')
    t1, t2 = fresh_int('t1', 0), fresh_int('t2', 0)
    x = e.compute_epsilon(t1)
    y = e.compute_epsilon(t2)
    check(Implies(same(t1, t2), same(x, y)), 'linear: epsilon is a function of the step')
    check(And(same(e.start_epsilon, s), same(e.end_epsilon, z), same(e.decay_steps, d)), 'linear: the schedule is not changed')


def action(name):
    k = choose(2)
    sh = (fresh_int('d0', 1),) if k == 0 else (fresh_int('d0', 1), fresh_int('d1', 1))
    nm = ctx().name_(name)
    a = root(name, Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(('real',), nm, tuple(zint(i) for i in ix))), 'f'))
    ix = []
    for d in sh:
        i = fresh_int('i')
        assume(And(i >= 0, i < d))
        ix.append(i)
    return a, sh, ix


def bound(name, sh):
    """None, a number, or an array over the last axis"""
    k = choose(3)
    if k == 0:
        return None, lambda ix: None
    if k == 1:
        v = fresh_real(name)
        return v, lambda ix: v
    nm = ctx().name_(name)
    a = root(name, Arr(sh[-1:], N.memo_nd(lambda i: loops.fresh_of(('real',), nm, (zint(i),))), 'f'))
    return a, lambda ix: a.at(ix[-1])


def p_gaussian():
    ra, _, _ = setup()
    a, sh, ix = action('a')
    g = root('greedy', Alt('greedy', a))
    sc, scf = bound('scale', sh)
    if sc is None:
        return
    lo, lof = bound('low', sh)
    hi, hif = bound('high', sh)
    a0 = a.snapshot()
    e = W.load('chainerrl.explorers.additive_gaussian').AdditiveGaussian(sc, low=lo, high=hi)
    got = e.select_action(fresh_int('t', 0), g)
    check(And(same(g.n, 1), same(ra.nz, 1)), 'gaussian: one greedy action, one noise draw')
    check(And([len(got.shape) == len(sh)] + [same(x, y) for x, y in zip(got.shape, sh)]), 'gaussian: the shape of the action')
    x = got.at(*ix)
    want = a0.at(*ix) + scf(ix) * ra._pvghost_z.at(*ix)
    l, h = lof(ix), hif(ix)
    ok = And(True if l is None else l <= want, True if h is None else want <= h)
    check(Implies(ok, same(x, want)), 'gaussian: the greedy action plus scale times the draw')
    if l is not None and h is not None:
        assume(l <= h)
    if l is not None:
        check(And(x >= l, Implies(want < l, same(x, l))), 'gaussian: clipped at the lower bound')
    if h is not None:
        check(And(x <= h, Implies(want > h, same(x, h))), 'gaussian: clipped at the upper bound')
    check(same(a.at(*ix), a0.at(*ix)), 'gaussian: the given action is not modified')


def p_ou():
    ra, _, _ = setup()
    a, sh, ix = action('a')
    g = root('greedy', Alt('greedy', a))
    mu, th, sg = fresh_real('mu'), fresh_real('theta'), fresh_real('sigma')
    assume(And(th > 0, th < 2))
    swm = fresh_bool('start_with_mu')
    e = W.load('chainerrl.explorers.additive_ou').AdditiveOU(mu=mu, theta=th, sigma=sg, start_with_mu=swm)
    a0 = a.snapshot()
    first = choose(2)
    s0 = None
    if not first:
        nm = ctx().name_('x')
        e.ou_state = st = root('x', Arr(sh, N.memo_nd(lambda *q: loops.fresh_of(('real',), nm, tuple(zint(i) for i in q))), 'f'))
        s0 = st.at(*ix)
    got = e.select_action(fresh_int('t', 0), g)
    check(same(g.n, 1), 'ou: one greedy action')
    s1 = e.ou_state.at(*ix)
    check(And([same(x, y) for x, y in zip(got.shape, sh)] + [same(x, y) for x, y in zip(e.ou_state.shape, sh)]), 'ou: the shape of the action')
    check(same(got.at(*ix), a0.at(*ix) + s1), 'ou: the greedy action plus the state')
    check(same(a.at(*ix), a0.at(*ix)), 'ou: the given action is not modified')
    if not first:
        cover('moves')
        check(And(same(ra.nz, 1), same(s1, s0 + th * (mu - s0) + sg * ra._pvghost_z.at(*ix))), 'ou: the state moves by theta*(mu - x) plus its increment')
    elif swm:
        cover('starts with mu')
        check(And(same(s1, mu), same(ra.nz, 0)), 'ou: starts at mu')
    else:
        cover('starts stationary')
        check(And(same(ra.nz, 1), same((s1 - mu) * N.FUNS['sqrt'](2 * th - th ** 2), sg * ra._pvghost_z.at(*ix))),
              'ou: starts with the stationary deviation sigma / sqrt(2 theta - theta^2)')
    # a caller changing the returned action must not change the process
    got[...] = 0
    check(same(e.ou_state.at(*ix), s1), 'ou: the returned action is not the state')


def p_greedy():
    ra, g, r = setup()
    a = W.load('chainerrl.explorers.greedy').Greedy().select_action(fresh_int('t', 0), g, action_value=fresh_obj('av'))
    check(And(same(a, g._pvghost_val), same(g.n, 1), same(ra.nu, 0)), 'greedy: the greedy action')


def p_boltzmann():
    ra, g, r = setup()
    n, T = fresh_int('n', 1), fresh_real('T')
    assume(T > 0)
    nm = ctx().name_('q')
    q = root('q', Arr((1, n), N.memo_nd(lambda *ix: loops.fresh_of(('real',), nm, tuple(zint(i) for i in ix))), 'f'))
    av = W.load('chainerrl.action_value').DiscreteActionValue(chmodel.Var(q))
    a = W.load('chainerrl.explorers.boltzmann').Boltzmann(T).select_action(fresh_int('t', 0), g, action_value=av)
    check(And(same(ra.nc, 1), same(a, ra._pvghost_j)), 'boltzmann: the drawn action')
    want = chmodel.softmax(q / T).array
    j = fresh_int('j')
    assume(And(j >= 0, j < n))
    check(same(ra._pvghost_p.at(j), want.at(0, j)), 'boltzmann: drawn with the softmax of the values divided by T')


def p_interp():
    tot, s, z, t = fresh_int('total'), fresh_real('start'), fresh_real('stop'), fresh_int('step')
    assume(tot > 1)
    calls = root('calls', Obj(n=0, v=fresh_real('v0'), env=None, agent=None))

    def setter(env, agent, value):
        heap.pure_guard('setter')
        calls.n, calls.v, calls.env, calls.agent = calls.n + 1, value, env, agent
    h = W.load('chainerrl.experiments.hooks').LinearInterpolationHook(tot, s, z, setter)
    env, agent = fresh_obj('env'), fresh_obj('agent')
    h(env, agent, t)
    check(And(same(calls.n, 1), same(calls.env, env), same(calls.agent, agent)), 'hook: the setter is called once')
    if t <= 1:
        check(same(calls.v, s), 'hook: the start value up to step 1')
    elif t >= tot:
        check(same(calls.v, z), 'hook: the stop value from total_steps on')
    else:
        check(same((calls.v - s) * (tot - 1), (z - s) * (t - 1)), 'hook: the straight line between')


PROOFS = [p_select, p_constant, p_linear, p_linear_twice, p_gaussian, p_ou, p_greedy, p_boltzmann, p_interp]


# ---- companion
def gen_x(rng):
    n = rng.randrange(1, 4)
    return {'which': rng.choice(['select', 'const', 'linear', 'gauss', 'ou', 'greedy', 'boltz', 'hook']),
            'start': rng.choice([0.0, 0.1, 0.5, 1.0]), 'end': rng.choice([0.0, 0.05, 0.75, 1.0]), 'decay': rng.choice([0, 1, 2, 7, 10, 100]),
            'ts': [rng.randrange(0, 120) if rng.random() < .5 else rng.choice([0, 1, 2, 6, 7, 8, 9, 10, 11, 99, 100, 101]) for _ in range(rng.randrange(1, 8))],
            'shape': rng.choice([[n], [2, n], [n, 1]]), 'low': rng.choice([None, -0.5, -2.0, 'a']), 'high': rng.choice([None, 0.5, 2.0, 'a']),
            'scale': rng.choice([0.0, 0.3, 2.0, 'a']), 'mu': rng.choice([0.0, 1.5]), 'theta': rng.choice([0.15, 0.5, 1.0]),
            'swm': rng.random() < .4, 'T': rng.choice([0.5, 1.0, 4.0]), 'seed': rng.randrange(10 ** 6), 'total': rng.choice([2, 5, 100])}


def run_x(c):
    import numpy as np
    from chainerrl import explorers
    from chainerrl.explorers import epsilon_greedy as eg
    rs = np.random.RandomState(c['seed'])
    which = c['which']
    calls = []
    if which in ('select', 'const', 'linear'):
        def r():
            calls.append('r')
            return 'R'

        def g():
            calls.append('g')
            return 'G'
        e = None
        if which == 'const':
            e = explorers.ConstantEpsilonGreedy(c['start'], r)
        elif which == 'linear':
            e = explorers.LinearDecayEpsilonGreedy(c['start'], c['end'], c['decay'], r)
        for t in c['ts']:
            del calls[:]
            eps = c['start']
            if which == 'linear':
                eps = c['end'] if t >= c['decay'] else c['start'] + (c['end'] - c['start']) * t / c['decay']
            seed = int(rs.randint(10 ** 6))
            np.random.seed(seed)
            u = np.random.rand()
            np.random.seed(seed)
            try:
                got = eg.select_action_epsilon_greedily(eps, r, g)[0] if e is None else e.select_action(t, g)
            except ZeroDivisionError:
                return '%s: division by zero at t=%d' % (which, t)
            if e is not None and abs(e.epsilon - eps) > 1e-9:
                return '%s: epsilon %r at t=%d instead of %r' % (which, e.epsilon, t, eps)
            if abs(u - eps) > 1e-9:
                want = 'R' if u < eps else 'G'
                if got != want or calls != [want.lower()]:
                    return '%s: %r with evaluations %r for draw %r, epsilon %r' % (which, got, calls, u, eps)
        return None
    if which == 'greedy':
        got = explorers.Greedy().select_action(3, lambda: calls.append(1) or 'G')
        return None if got == 'G' and calls == [1] else 'greedy: %r' % (got,)
    if which == 'hook':
        from chainerrl.experiments import LinearInterpolationHook
        h = LinearInterpolationHook(c['total'], c['start'], c['end'], lambda env, agent, v: calls.append((env, agent, v)))
        for t in c['ts']:
            del calls[:]
            h('e', 'a', t)
            want = c['start'] if t <= 1 else c['end'] if t >= c['total'] else (
                c['start'] + (c['end'] - c['start']) * (t - 1) / (c['total'] - 1))
            if len(calls) != 1 or calls[0][:2] != ('e', 'a') or abs(calls[0][2] - want) > 1e-9:
                return 'hook: %r at %d instead of %r' % (calls, t, want)
        return None
    sh = tuple(c['shape'])
    arr = lambda v, lo, hi: rs.uniform(lo, hi, sh[-1]).astype(np.float32) if v == 'a' else v
    drawn = []
    old = np.random.normal, np.random.choice

    def normal(loc=0.0, scale=1.0, size=None):
        z = rs.standard_normal(size)
        drawn.append(z)
        return loc + scale * z

    def choice(a, size=None, replace=True, p=None):
        drawn.append(np.array(p))
        k = int(rs.randint(len(p)))
        drawn.append(k)
        return np.arange(len(p))[k]
    np.random.normal, np.random.choice = normal, choice
    try:
        if which == 'boltz':
            import chainer
            from chainerrl.action_value import DiscreteActionValue
            q = rs.uniform(-2, 2, (1, sh[-1] + 1)).astype(np.float32)
            a = explorers.Boltzmann(c['T']).select_action(0, lambda: 0, action_value=DiscreteActionValue(chainer.Variable(q)))
            w = np.exp(q[0].astype(float) / c['T'])
            w /= w.sum()
            return None if len(drawn) == 2 and a == drawn[1] and np.allclose(drawn[0], w, atol=1e-5) else 'boltzmann: %r' % (drawn,)
        if which == 'gauss':
            lo, hi, sc = arr(c['low'], -1, -.2), arr(c['high'], .2, 1), arr(c['scale'], 0, 2)
            e = explorers.AdditiveGaussian(sc, low=lo, high=hi)
        else:
            e = explorers.AdditiveOU(mu=c['mu'], theta=c['theta'], sigma=.3, start_with_mu=c['swm'])
            x = None
        for t in c['ts']:
            a = rs.uniform(-1, 1, sh).astype(np.float32)
            a0 = a.copy()
            del drawn[:]
            got = e.select_action(t, lambda: a)
            if not np.array_equal(a, a0):
                return '%s: the given action was modified' % which
            if which == 'gauss':
                if len(drawn) != 1:
                    return 'gauss: %d draws' % len(drawn)
                want = a0 + sc * drawn[0]
                if lo is not None:
                    want = np.maximum(want, lo)
                    if np.any(got < lo):
                        return 'gauss: below the lower bound'
                if hi is not None:
                    want = np.minimum(want, hi)
                    if np.any(got > hi):
                        return 'gauss: above the upper bound'
            else:
                if x is None:
                    x = np.full(sh, c['mu']) if c['swm'] else c['mu'] + .3 / np.sqrt(2 * c['theta'] - c['theta'] ** 2) * drawn[0]
                else:
                    x = x + c['theta'] * (c['mu'] - x) + .3 * drawn[0]
                want = a0 + x
            if got.shape != want.shape or not np.allclose(got, want, atol=1e-4):
                return '%s: %r instead of %r at step %d' % (which, got, want, t)
    finally:
        np.random.normal, np.random.choice = old
    return None


CASES = [('explorers', gen_x, run_x)]
