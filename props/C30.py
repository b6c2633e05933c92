"""C30 Action values: greedy action, maximum and advantage are consistent."""
from props.lib import *
from pyvc import models, chmodel, sums, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = 'all batch sizes, numbers of actions, atoms, quantiles and action components (symbolic); an arbitrary row and an arbitrary action are followed'
TRUSTED = ['numpy and chainer.functions semantics (pyvc/npmodel.py, pyvc/chmodel.py); argmax is the first position of the greatest entry']
ASSUMPTIONS = ['numbers are mathematical (no float32 rounding, no nan)', 'action indices given by callers lie in the range of actions',
               'there is at least one row and one action']
AV = 'chainerrl.action_value'
W = world('ch', models=lambda: chmodel.add(models.base_models()))


def arr(name, sh, kind='f'):
    nm = ctx().name_(name)
    t = ('real',) if kind == 'f' else ('int',)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix))), kind)


def dim(name):
    return fresh_int(name, 1)


def idx(name, n):
    i = fresh_int(name, 0)
    assume(i < n)
    return i


def actions(B, n, b):
    """an array of valid action indices and the index in row b"""
    a = arr('act', (B,), 'i')
    v = a.at(b)
    assume(And(v >= 0, v < n))
    return a, v


def give(a):
    return chmodel.wrap(a) if choose(2) else a


def el(v, *ix):
    check(isinstance(v, chmodel.Var), 'a Variable')
    return chmodel.as_arr(v).at(*ix)


def rows(n):
    """a selection of rows: the key, the number of selected rows and the original row of a selected one"""
    k = choose(2)
    if k == 0:
        lo, hi = fresh_int('lo', 0), fresh_int('hi', 0)
        assume(And(lo < hi, hi <= n))
        return slice(lo, hi), hi - lo, lambda i: lo + i
    m = dim('m')
    a = arr('rows', (m,), 'i')

    def src(i):
        v = a.at(i)
        if not ctx().in_quant:
            assume(And(v >= 0, v < n))
        return v
    return a, m, src


def discrete(av, q, B, n, tag, b=None):
    """av is consistent with values q(b, a) for B rows and n actions"""
    b = idx('b', B) if b is None else b
    j = idx('j', n)
    sums.about_index(j)
    order = choose(2)
    if order:
        mx = el(av.max, b)
        g = el(av.greedy_actions, b)
    else:
        g = el(av.greedy_actions, b)
        mx = el(av.max, b)
    check(And([same(p, r) for p, r in zip(av.greedy_actions.shape + av.max.shape, (B, B))] + [len(av.max.shape) == 1, len(av.greedy_actions.shape) == 1]), tag + ': one entry per row')
    check(And(g >= 0, g < n), tag + ': the greedy action is an action')
    check(same(mx, q(b, g)), tag + ': the maximum is the value of the greedy action')
    check(mx >= q(b, j), tag + ': the maximum is at least every value')
    a, v = actions(B, n, b)
    check(same(el(av.evaluate_actions(give(a)), b), q(b, v)), tag + ': the value of the row\'s own action')
    check(same(el(av.compute_advantage(give(a)), b), q(b, v) - mx), tag + ': advantage is value minus maximum')
    a2, v2 = actions(B, n, b)
    check(same(el(av.compute_double_advantage(give(a), give(a2)), b), q(b, v) - q(b, v2)), tag + ': difference of the two actions\' values')
    check(same(av.n_actions, n), tag + ': number of actions')
    cover(tag)


def p_discrete():
    B, n = dim('B'), dim('n')
    Q = arr('q', (B, n))
    q0 = Q.snapshot()
    av = W.load(AV).DiscreteActionValue(chmodel.Var(Q))
    discrete(av, lambda b, a: q0.at(b, a), B, n, 'discrete')


def p_discrete_rows():
    B, n = dim('B'), dim('n')
    Q = arr('q', (B, n))
    av = W.load(AV).DiscreteActionValue(chmodel.Var(Q))
    if choose(2):
        av.greedy_actions, av.max
    key, m, src = rows(B)
    discrete(av[key], lambda b, a: Q.at(src(b), a), m, n, 'selected rows')


def dist():
    B, n, K = dim('B'), dim('n'), dim('K')
    D, Z = arr('p', (B, n, K)), arr('z', (K,))

    def q(b, a):
        return N.np_sum(Arr((K,), lambda k: D.at(b, a, k) * Z.at(k), 'f'))
    return B, n, K, D, Z, q


def p_distributional():
    B, n, K, D, Z, q = dist()
    av = W.load(AV).DistributionalDiscreteActionValue(chmodel.Var(D), Z)
    b = idx('b', B)
    discrete(av, q, B, n, 'distributional', b)


def p_distributional_rows():
    B, n, K, D, Z, q = dist()
    av = W.load(AV).DistributionalDiscreteActionValue(chmodel.Var(D), Z)
    key, m, src = rows(B)
    discrete(av[key], lambda b, a: q(src(b), a), m, n, 'selected distributional rows')


def p_distributions():
    B, n, K, D, Z, q = dist()
    av = W.load(AV).DistributionalDiscreteActionValue(chmodel.Var(D), Z)
    m, src = B, lambda b: b
    if choose(2):
        key, m, src = rows(B)
        av = av[key]
    b, k = idx('b', m), idx('k', K)
    a, v = actions(m, n, b)
    check(same(el(av.evaluate_actions_as_distribution(give(a)), b, k), D.at(src(b), v, k)), 'the distribution of the row\'s own action')
    d = av.max_as_distribution
    check(same(el(d, b, k), D.at(src(b), el(av.greedy_actions, b), k)), 'the distribution of the greedy action')
    check(And([len(d.shape) == 2, same(d.shape[0], m), same(d.shape[1], K)]), 'one distribution per row')


def quant():
    B, n, K = dim('B'), dim('n'), dim('K')
    D = arr('t', (B, K, n))

    def q(b, a):
        return N.np_mean(Arr((K,), lambda k: D.at(b, k, a), 'f'))
    return B, n, K, D, q


def p_quantile():
    B, n, K, D, q = quant()
    av = W.load(AV).QuantileDiscreteActionValue(chmodel.Var(D))
    discrete(av, q, B, n, 'quantile')


def p_quantile_rows():
    B, n, K, D, q = quant()
    av = W.load(AV).QuantileDiscreteActionValue(chmodel.Var(D))
    key, m, src = rows(B)
    discrete(av[key], lambda b, a: q(src(b), a), m, n, 'selected quantile rows')


def p_quantiles():
    B, n, K, D, q = quant()
    av = W.load(AV).QuantileDiscreteActionValue(chmodel.Var(D))
    m, src = B, lambda b: b
    if choose(2):
        key, m, src = rows(B)
        av = av[key]
    b, k = idx('b', m), idx('k', K)
    a, v = actions(m, n, b)
    e = av.evaluate_actions_as_quantiles(give(a))
    check(same(el(e, b, k), D.at(src(b), k, v)), 'the quantiles of the row\'s own action')
    check(And([len(e.shape) == 2, same(e.shape[0], m), same(e.shape[1], K)]), 'quantiles per row')


class Quad(object):
    def __init__(self, lo, hi):
        self.B, self.n = B, n = dim('B'), dim('n')
        self.mu, self.P = arr('mu', (B, n)), arr('P', (B, n, n))
        self.two = choose(2)
        self.v = arr('v', (B, 1) if self.two else (B,))
        self.lo = arr('lo', (n,)) if lo else None
        self.hi = arr('hi', (n,)) if hi else None
        self.src = lambda b: b
        self.rows = B
        self.av = W.load(AV).QuadraticActionValue(chmodel.Var(self.mu), chmodel.Var(self.P), chmodel.Var(self.v), self.lo, self.hi)

    def vat(self, b):
        b = self.src(b)
        return self.v.at(b, 0) if self.two else self.v.at(b)

    def select(self):
        key, m, src = rows(self.B)
        self.rows, self.src = m, src
        self.av = self.av[key]

    def value(self, b, a):
        """v - (a - mu)' P (a - mu) / 2 in row b for an action a(i)"""
        s = self.src(b)
        u = lambda i: a(i) - self.mu.at(s, i)
        inner = lambda j: N.np_sum(Arr((self.n,), lambda i: u(i) * self.P.at(s, i, j), 'f'))
        return self.vat(b) - N.np_sum(Arr((self.n,), lambda j: inner(j) * u(j), 'f')) / 2

    def greedy(self, b, i):
        m = self.mu.at(self.src(b), i)
        if self.lo is not None:
            l = self.lo.at(i)
            m = ite(m < l, l, m)
        if self.hi is not None:
            h = self.hi.at(i)
            m = ite(m > h, h, m)
        return m


def quadratic(sel, part):
    def h():
        ctx().abstract = True
        lo, hi = choose(2), choose(2)
        S = Quad(lo, hi)
        if sel:
            S.select()
        av = S.av
        b = idx('b', S.rows)
        if part == 'value':
            A = arr('A', (S.rows, S.n))
            e = av.evaluate_actions(give(A))
            check(same(el(e, b), S.value(b, lambda i: A.at(b, i))), 'value of an action')
            check(len(e.shape) == 1, 'one value per row')
        elif part == 'greedy':
            i = idx('i', S.n)
            check(same(el(av.greedy_actions, b, i), S.greedy(b, i)), 'the greedy action is mu within the bounds')
            mx = el(av.max, b)
            want = S.value(b, lambda i: S.greedy(b, i)) if lo or hi else S.vat(b)
            check(same(mx, want), 'the maximum is the value of the greedy action')
            check(len(av.max.shape) == 1, 'one maximum per row')
        else:
            A, A2 = arr('A', (S.rows, S.n)), arr('A2', (S.rows, S.n))
            va, vb = (S.value(b, lambda i: X.at(b, i)) for X in (A, A2))
            mx = el(av.max, b)
            check(same(el(av.compute_advantage(give(A)), b), va - mx), 'advantage is value minus maximum')
            check(same(el(av.compute_double_advantage(give(A), give(A2)), b), va - vb), 'difference of the two values')
        cover('quadratic')
    h.__name__ = 'p_quadratic_%s%s' % (part, '_rows' if sel else '')
    return h


def p_single():
    """evaluator and maximizer are asked for exactly what they provide"""
    B, n = dim('B'), dim('n')
    G, A = arr('g', (B, n)), arr('A', (B, n))
    f = fun('Q', z3.IntSort(), z3.IntSort(), z3.RealSort())
    seen = []

    def ev(a):
        seen.append(a)
        k = 0 if a is gv else 1 if a is av_ else 2
        return chmodel.wrap(Arr((B,), lambda i: mk(f(zint(k), zint(i))), 'f'))
    gv, av_, third = chmodel.Var(G), chmodel.Var(A), chmodel.Var(arr('C', (B, n)))
    s = W.load(AV).SingleActionValue(ev, lambda: gv)
    b = idx('b', B)
    at = lambda k: mk(f(zint(k), zint(b)))
    check(s.greedy_actions is gv, 'greedy action of the maximizer')
    check(same(el(s.max, b), at(0)), 'maximum')
    check(same(el(s.evaluate_actions(av_), b), at(1)), 'value')
    check(same(el(s.compute_advantage(av_), b), at(1) - at(0)), 'advantage')
    check(same(el(s.compute_double_advantage(av_, third), b), at(1) - at(2)), 'difference')


PROOFS = [p_discrete, p_discrete_rows, p_distributional, p_distributional_rows, p_distributions, p_quantile, p_quantile_rows, p_quantiles,
          quadratic(0, 'value'), quadratic(1, 'value'), quadratic(0, 'greedy'), quadratic(1, 'greedy'), quadratic(0, 'adv'), quadratic(1, 'adv'), p_single]


# ---- companion: the real classes on real arrays against straightforward loops
def gen_av(rng):
    kind = rng.choice(['discrete', 'dist', 'quantile', 'quad'])
    B, n, K = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 5)
    r = lambda *sh: (rng.choice([-1, -0.5, 0, 0.25, 1, 2.5]) if not sh else [r(*sh[1:]) for _ in range(sh[0])])
    c = {'kind': kind, 'B': B, 'n': n, 'a': [rng.randrange(n) for _ in range(B)], 'a2': [rng.randrange(n) for _ in range(B)],
         'var': rng.randrange(2), 'first': rng.randrange(3),
         'sel': rng.choice([None, ['s', 0, rng.randint(1, B)], ['i'] + [rng.randrange(B) for _ in range(rng.randint(1, 4))]])}
    if kind == 'discrete':
        c['q'] = r(B, n)
    elif kind == 'dist':
        c['q'], c['z'] = r(B, n, K), r(K)
    elif kind == 'quantile':
        c['q'] = r(B, K, n)
    else:
        c.update(mu=r(B, n), L=r(B, n, n), v=r(B), v2=rng.randrange(2), A=r(B, n), A2=r(B, n),
                 lo=rng.choice([None, r(n)]), hi=rng.choice([None, r(n)]), diag=rng.randrange(2))
    return c


def run_av(c):
    import numpy as np
    import chainer
    from chainerrl import action_value as av
    f32 = lambda x: np.asarray(x, dtype=np.float32)
    V = chainer.Variable
    B, n = c['B'], c['n']
    give_ = (lambda x: V(x)) if c['var'] else (lambda x: x)
    close = lambda x, y: np.allclose(x, y, rtol=1e-4, atol=1e-4)
    sel = c['sel']
    rows_ = list(range(B)) if sel is None else list(range(B))[sel[1]:sel[2]] if sel[0] == 's' else sel[1:]
    key = None if sel is None else slice(sel[1], sel[2]) if sel[0] == 's' else np.array(sel[1:])
    m = len(rows_)
    if c['kind'] == 'quad':
        mu, L, v = f32(c['mu']), f32(c['L']), f32(c['v'])
        P = np.array([l @ l.T + np.eye(n) for l in L], dtype=np.float32) if not c['diag'] else np.array([np.diag(1 + np.diag(l) ** 2) for l in L], dtype=np.float32)
        lo, hi = (None if c[k] is None else f32(c[k]) for k in ('lo', 'hi'))
        if lo is not None and hi is not None:
            lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
        q = av.QuadraticActionValue(V(mu), V(P), V(v[:, None] if c['v2'] else v), lo, hi)
        if c['first'] == 1:
            q.max
        if key is not None:
            q = q[key]
        A, A2 = (f32([c[k][i % B] for i in range(m)]) for k in ('A', 'A2'))

        def val(a, i):
            u = a - mu[rows_[i]]
            return v[rows_[i]] - 0.5 * sum(u[x] * P[rows_[i]][x][y] * u[y] for x in range(n) for y in range(n))
        g = []
        for i in range(m):
            x = mu[rows_[i]].copy()
            if lo is not None:
                x = np.maximum(x, lo)
            if hi is not None:
                x = np.minimum(x, hi)
            g.append(x)
        if q.greedy_actions.array.shape != (m, n) or not close(q.greedy_actions.array, np.array(g)):
            return 'greedy actions %r instead of %r' % (q.greedy_actions.array.tolist(), [x.tolist() for x in g])
        mx = np.array([val(g[i], i) for i in range(m)])
        ea, eb = (np.array([val(X[i], i) for i in range(m)]) for X in (A, A2))
        got = [(q.evaluate_actions(give_(A)), ea, 'values'), (q.max, mx, 'maximum'), (q.compute_advantage(give_(A)), ea - mx, 'advantage'),
               (q.compute_double_advantage(give_(A), give_(A2)), ea - eb, 'double advantage')]
        for x, y, what in got:
            if x.array.shape != (m,) or not close(x.array, y):
                return '%s %r instead of %r' % (what, x.array.tolist(), y.tolist())
        return None
    D = f32(c['q'])
    if c['kind'] == 'discrete':
        o, Q = av.DiscreteActionValue(V(D)), D
    elif c['kind'] == 'dist':
        z = f32(c['z'])
        o = av.DistributionalDiscreteActionValue(V(D), z)
        Q = np.array([[sum(p * x for p, x in zip(D[b][a], z)) for a in range(n)] for b in range(B)])
    else:
        o = av.QuantileDiscreteActionValue(V(D))
        Q = np.array([[np.mean([D[b][k][a] for k in range(D.shape[1])]) for a in range(n)] for b in range(B)])
    if c['first'] == 1:
        o.max
    elif c['first'] == 2:
        o.greedy_actions
    if key is not None:
        o = o[key]
    a, a2 = (np.array([c[k][i % B] for i in range(m)], dtype=np.int32) for k in ('a', 'a2'))
    g = o.greedy_actions.array
    if g.shape != (m,) or any(not 0 <= x < n for x in g):
        return 'greedy actions %r' % (g.tolist(),)
    for i, r in enumerate(rows_):
        if Q[r][g[i]] < Q[r].max() - 1e-4:
            return 'greedy action %r of values %r' % (int(g[i]), Q[r].tolist())
    mx = Q[rows_].max(axis=1)
    ea, eb = (np.array([Q[r][x[i]] for i, r in enumerate(rows_)]) for x in (a, a2))
    for x, y, what in [(o.max, mx, 'maximum'), (o.evaluate_actions(give_(a)), ea, 'values'), (o.compute_advantage(give_(a)), ea - mx, 'advantage'),
                       (o.compute_double_advantage(give_(a), give_(a2)), ea - eb, 'double advantage')]:
        if x.array.shape != (m,) or not close(x.array, y):
            return '%s %r instead of %r' % (what, x.array.tolist(), y.tolist())
    if c['kind'] == 'dist':
        if not close(o.evaluate_actions_as_distribution(give_(a)).array, np.array([D[r][a[i]] for i, r in enumerate(rows_)])):
            return 'distribution of the given actions'
        if not close(o.max_as_distribution.array, np.array([D[r][g[i]] for i, r in enumerate(rows_)])):
            return 'distribution of the greedy actions'
    if c['kind'] == 'quantile':
        if not close(o.evaluate_actions_as_quantiles(give_(a)).array, np.array([D[r][:, a[i]] for i, r in enumerate(rows_)])):
            return 'quantiles of the given actions'
    return None


run_av.max_cases, run_av.noshrink = 4000, True
CASES = [('action_value', gen_av, run_av)]
