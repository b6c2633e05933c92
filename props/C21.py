"""C21 Categorical projection preserves probability mass and the clipped mean."""
from props.lib import *
from pyvc import models, chmodel, sums, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('any batch size, any number of atoms (at least two), any evenly spaced increasing support, any source values and any probabilities; an arbitrary '
              'row is followed, sums are handled by induction over atoms')
TRUSTED = ['numpy semantics (pyvc/npmodel.py); np.add.at adds every value to the entry its index names, repeated indices included']
ASSUMPTIONS = ['numbers are mathematical (float32 rounding is only checked within a tolerance by the companion)',
               'the target atoms are evenly spaced and increasing (documented)', 'there are at least two atoms']
AG = 'chainerrl.agents.categorical_dqn'
W = world('ch', models=lambda: chmodel.add(models.base_models()))


def arr(name, sh):
    nm = ctx().name_(name)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(('real',), nm, tuple(zint(i) for i in ix))), 'f')


def Sum(f):
    """k -> sum of f(i), i < k"""
    return lambda k: N.np_sum(Arr((k,), f, 'f'))


def induct(claim, n, what, k=None, hyp=None):
    """claim(n) by induction; hyp(k): a fact about the element k added in the step"""
    k = fresh_int('k', 0) if k is None else k
    check(claim(0), what + ' (none)')
    h = hyp(k) if hyp is not None else True
    check(Implies(And([claim(k), k < n, h]), claim(k + 1)), what + ' (one more)')
    assume(claim(n))


class Case(object):
    def __init__(self, contract=False):
        ctx().noext = True
        ctx().abstract = 'div'
        self.X = None
        self.B, self.N = B, n = fresh_int('B', 1), fresh_int('N', 2)
        self.y, self.p = arr('y', (B, n)), arr('p', (B, n))
        self.z0, self.dz = fresh_real('z0'), fresh_real('dz')
        assume(self.dz > 0)
        self.z = Arr((n,), lambda j: self.z0 + self.dz * j, 'f')
        self.b = fresh_int('b', 0)
        assume(self.b < B)
        if contract:
            # the contract of the projection, proved by p_split and p_position
            nm = ctx().name_('x')
            self.X = lambda i: loops.fresh_of(('real',), nm, (zint(i),))
            self.out = Arr((B, n), N.memo_nd(lambda b, j: Sum(lambda i: self.pr(i) * self.tri(i, j))(n)), 'f')
            return
        y0, p0 = self.y.snapshot(), self.p.snapshot()
        self.out = W.load(AG)._apply_categorical_projection(self.y, self.p, self.z)
        check(And([same(self.out.shape[0], B), same(self.out.shape[1], n), len(self.out.shape) == 2]), 'one probability per row and atom')
        i = fresh_int('i', 0)
        check(Implies(i < n, And(same(self.y.at(self.b, i), y0.at(self.b, i)), same(self.p.at(self.b, i), p0.at(self.b, i)))), 'the inputs are not modified')

    def pr(self, i):
        return self.p.at(self.b, i)

    def src(self, i):
        """source value clipped to the support"""
        lo, hi = self.z.at(0), self.z.at(self.N - 1)
        v = self.y.at(self.b, i)
        return ite(v < lo, lo, ite(v > hi, hi, v))

    def x(self, i):
        """its position among the target atoms"""
        if self.X is not None:
            return self.X(i)
        q = mk(zreal(self.src(i) - self.z.at(0)) / zreal(self.dz))
        return ite(q < 0, 0, ite(q > self.N - 1, self.N - 1, q))

    def placed(self, i):
        """what p_position proves of position i"""
        assume(And(self.x(i) >= 0, self.x(i) <= self.N - 1, same(self.z0 + self.dz * self.x(i), self.src(i))))

    def at(self, i):
        return And(self.x(i) >= 0, self.x(i) <= self.N - 1)

    def fl(self, i):
        return mk(z3.ToReal(z3.ToInt(zreal(self.x(i)))))

    def tri(self, i, j):
        """share of source atom i that target atom j gets: 1 at its place, falling to 0 at the neighbours"""
        d = self.x(i) - j
        d = ite(d < 0, -d, d)
        return ite(d < 1, 1 - d, 0)

    def closed(self, i, m):
        """the shares of the first m target atoms"""
        f = self.fl(i)
        return ite(f >= m, 0, ite(same(f + 1, m), 1 - (self.x(i) - f), 1))

    def closed1(self, i, m):
        """the shares of the first m target atoms, each times its index"""
        f = self.fl(i)
        return ite(f >= m, 0, ite(same(f + 1, m), f * (1 - (self.x(i) - f)), self.x(i)))


def split_lemma(S, m):
    """entry m is what the source atoms send it"""
    o = S.out.at(S.b, m)
    T = Sum(lambda i: S.pr(i) * S.tri(i, m))
    induct(lambda k: same(sums.upto(o, k), T(k)), S.N, 'each source atom is split between its neighbours in proportion to proximity')
    return o, T


def p_split():
    S = Case()
    m = fresh_int('m', 0)
    assume(m < S.N)
    o, T = split_lemma(S, m)
    check(same(o, T(S.N)), 'entry: shares of the source atoms')
    cover('split')


def spec(S, m):
    return S.out.at(S.b, m), Sum(lambda i: S.pr(i) * S.tri(i, m))


def p_nonneg():
    S = Case(True)
    m = fresh_int('m', 0)
    assume(m < S.N)
    o, T = spec(S, m)
    k = fresh_int('k', 0)
    assume(S.pr(k) >= 0)
    t = S.tri(k, m)
    check(t >= 0, 'shares are not negative')
    check(S.pr(k) * t >= 0, 'sent mass is not negative')
    induct(lambda q: T(q) >= 0, S.N, 'no negative sums', k=k, hyp=lambda k: S.pr(k) * S.tri(k, m) >= 0)
    check(o >= 0, 'probabilities are not negative')


def p_mass():
    S = Case(True)
    m = fresh_int('m', 0)
    assume(m < S.N)
    n = S.N
    o, T = spec(S, m)
    G = lambda q: Sum(lambda i: S.pr(i) * S.closed(i, q))
    F = Sum(lambda j: S.out.at(S.b, j))
    induct(lambda k: same(G(0)(k), 0), n, 'no atoms, no mass', hyp=S.at)
    induct(lambda k: same(G(m + 1)(k), G(m)(k) + T(k)), n, 'one more atom gets its share', hyp=S.at)
    check(same(F(0), G(0)(n)), 'mass of no atoms')
    check(Implies(same(F(m), G(m)(n)), same(F(m + 1), G(m + 1)(n))), 'mass of one more atom')
    assume(same(F(n), G(n)(n)))
    P = Sum(S.pr)
    induct(lambda k: same(G(n)(k), P(k)), n, 'all shares of an atom are its mass', hyp=S.at)
    check(same(N.np_sum(S.out, axis=1).at(S.b), P(n)), 'total mass is preserved')
    cover('mass')


def p_position():
    S = Case()
    i = fresh_int('i', 0)
    assume(i < S.N)
    place(S, i)


def place(S, i):
    """the position of a source value, as numbers"""
    q = fresh_real('q')
    s = S.src(i) - S.z.at(0)
    assume(same(q * S.dz, s))
    check(And(q >= 0, q <= S.N - 1), 'clipped values lie within the support')
    check(same(mk(zreal(s) / zreal(S.dz)), q), 'position')
    check(same(S.z0 + S.dz * S.x(i), S.src(i)), 'value at a position')


def p_mean():
    S = Case(True)
    m = fresh_int('m', 0)
    assume(m < S.N)
    n = S.N
    o, T = spec(S, m)
    zm = S.z.at(m)
    term = lambda i, q: S.pr(i) * (S.z0 * S.closed(i, q) + S.dz * S.closed1(i, q))
    G = lambda q: Sum(lambda i: term(i, q))
    F = Sum(lambda j: S.z.at(j) * S.out.at(S.b, j))
    induct(lambda k: same(G(0)(k), 0), n, 'no atoms, no mean', hyp=S.at)
    k = fresh_int('k', 0)
    assume(S.at(k))
    # the step for one atom
    a, a1, t = S.closed(k, m), S.closed1(k, m), S.tri(k, m)
    check(same(S.closed(k, m + 1), a + t), 'share of the next atom')
    check(same(S.closed1(k, m + 1), a1 + m * t), 'weighted share of the next atom')
    # the same with plain numbers in place of the shares
    c, d, p, q, v, w = [fresh_real(x) for x in 'cdpqvw']
    check(Implies(And([same(c, p + v), same(d, q + m * v)]), same(w * (S.z0 * c + S.dz * d), w * (S.z0 * p + S.dz * q) + (S.z0 + S.dz * m) * (w * v))), 'algebra')
    # ... of which this is the instance for the shares of atom k
    h = lambda k: same(term(k, m + 1), term(k, m) + zm * (S.pr(k) * S.tri(k, m)))
    assume(h(k))
    induct(lambda q: same(G(m + 1)(q), G(m)(q) + zm * T(q)), n, 'one more atom gets its share of the mean', k=k, hyp=h)
    check(same(F(0), G(0)(n)), 'mean of no atoms')
    check(Implies(same(F(m), G(m)(n)), same(F(m + 1), G(m + 1)(n))), 'mean of one more atom')
    assume(same(F(n), G(n)(n)))
    M = Sum(lambda i: S.pr(i) * S.src(i))
    k2 = fresh_int('k', 0)
    S.placed(k2)
    assume(k2 < n)
    check(And(same(S.closed(k2, n), 1), same(S.closed1(k2, n), S.x(k2))), 'all shares of an atom')
    h = lambda k: same(term(k, n), S.pr(k) * S.src(k))
    check(h(k2), 'value of an atom')
    induct(lambda k: same(G(n)(k), M(k)), n, 'the shares of an atom have its value as mean', k=k2, hyp=h)
    out = S.out
    check(same(Sum(lambda j: S.z.at(j) * out.at(S.b, j))(n), M(n)), 'the mean is that of the clipped source values')
    cover('mean')


PROOFS = [p_split, p_nonneg, p_mass, p_position, p_mean]


# ---- companion: the real function against a loop over atoms in exact arithmetic
def gen_proj(rng):
    B, n = rng.randint(1, 5), rng.choice([2, 2, 3, 4, 5, 7, 11, 51])
    lo = rng.choice([-10, -1, 0, -0.5, 3])
    dz = rng.choice([1, 0.5, 0.25, 2, 0.1, 0.4])
    hi = lo + dz * (n - 1)

    def val():
        k = rng.randrange(6)
        if k == 0:
            return lo + dz * rng.randrange(n)
        if k == 1:
            return rng.choice([lo - 3, hi + 3, lo - 0.25, hi + 0.25, -1e6, 1e6])
        if k == 2:
            return rng.choice([lo, hi])
        return lo + (hi - lo) * rng.randrange(257) / 256
    p = []
    for _ in range(B):
        w = [rng.choice([0, 1, 2, 5, 8]) for _ in range(n)]
        w[rng.randrange(n)] += 1
        p.append([x / sum(w) for x in w])
    return {'lo': lo, 'dz': dz, 'n': n, 'y': [[val() for _ in range(n)] for _ in range(B)], 'p': p}


def run_proj(c):
    import numpy as np
    from fractions import Fraction as Q
    from chainerrl.agents.categorical_dqn import _apply_categorical_projection as proj
    n = c['n']
    z = np.array([c['lo'] + c['dz'] * j for j in range(n)], dtype=np.float32)
    y, p = np.array(c['y'], dtype=np.float32), np.array(c['p'], dtype=np.float32)
    y0, p0, z0 = y.copy(), p.copy(), z.copy()
    r = proj(y, p, z)
    if not ((y == y0).all() and (p == p0).all() and (z == z0).all()):
        return 'the inputs were modified'
    if r.shape != y.shape:
        return 'shape %r' % (r.shape,)
    scale = float(max(1, abs(z).max()))
    dz = Q(float(z[-1])) - Q(float(z[0]))
    for b in range(len(y)):
        if (r[b] < -1e-6).any():
            return 'row %d: negative probability %r' % (b, r[b].tolist())
        want = [Q(0)] * n
        for i in range(n):
            v = min(max(Q(float(y[b][i])), Q(float(z[0]))), Q(float(z[-1])))
            x = (v - Q(float(z[0]))) * (n - 1) / dz
            k = int(x)
            w = Q(float(p[b][i]))
            want[k] += w * (1 - (x - k))
            if x > k:
                want[k + 1] += w * (x - k)
        tol = 2e-5 * n
        if abs(float(r[b].astype(np.float64).sum()) - float(sum(want))) > 1e-4:
            return 'row %d: total mass %r instead of %r' % (b, float(r[b].sum()), float(sum(want)))
        if any(abs(float(a) - float(q)) > tol * 20 for a, q in zip(r[b], want)):
            return 'row %d: %r instead of %r' % (b, r[b].tolist(), [float(q) for q in want])
        mean = float((r[b].astype(np.float64) * z).sum())
        ref = float((p[b].astype(np.float64) * np.clip(y[b].astype(np.float64), z[0], z[-1])).sum())
        if abs(mean - ref) > 2e-3 * scale:
            return 'row %d: mean %r instead of %r' % (b, mean, ref)
        alone = proj(y[b:b + 1], p[b:b + 1], z)
        if abs(alone - r[b]).max() > 1e-6:
            return 'row %d depends on the other rows' % b
    return None


run_proj.max_cases, run_proj.noshrink = 4000, True
CASES = [('projection', gen_proj, run_proj)]
