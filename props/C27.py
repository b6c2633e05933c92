"""C27 Running statistics equal the statistics of all data seen."""
from props.lib import *
from pyvc import models, chmodel, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('any history of batches by induction over calls (sums of everything seen are ghost functions of the component), any batch and component '
              'sizes; experienced arrays of rank 1 to 3 and every batch axis')
TRUSTED = ['numpy semantics (pyvc/npmodel.py); np.mean is sum/n, np.var is mean of squares minus squared mean and not negative',
           'chainer.Link provides xp and persistent attributes as documented']
ASSUMPTIONS = ['numbers are mathematical: float32 rounding is not modelled (the companion checks it within a tolerance)',
               'eps is positive']
EN = 'chainerrl.links.empirical_normalization'
W = world('ch', models=lambda: chmodel.add(models.base_models()))


def arr(name, sh, kind='f'):
    nm = ctx().name_(name)
    t = ('real',) if kind == 'f' else ('int',)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix))), kind)


def klass():
    C = W.load(EN).EmpiricalNormalization
    return C


def symdims(rank):
    return tuple(fresh_int('d%d' % i, 1) for i in range(rank))


class State(object):
    """An arbitrary normaliser that has seen count samples whose sums (of squares) per component are S1 (S2)."""

    def __init__(self, rank, axis, until=None, clip=None):
        self.rank, self.axis = rank, axis
        self.dims = symdims(rank)
        en = klass()(self.dims, batch_axis=axis, until=until, clip_threshold=clip)
        self.en = root('en', en)
        self.full = self.dims[:axis] + (1,) + self.dims[axis:]
        c0 = fresh_int('count', 0)
        en.count = c0
        en.eps = fresh_real('eps')
        assume(en.eps > 0)
        nm = [ctx().name_(x) for x in ('S1', 'S2', 'm', 'v')]
        self.comp = tuple(fresh_int('c%d' % i, 0) for i in range(rank))
        for c, d in zip(self.comp, self.dims):
            assume(c < d)
        f = lambda k, ix: loops.fresh_of(('real',), nm[k], tuple(zint(i) for i in (0,) + tuple(ix)))
        self.S1 = lambda ix: f(0, ix)
        self.S2 = lambda ix: f(1, ix)

        def moments(ix):
            m, v = f(2, ix), f(3, ix)
            if not ctx().in_quant:
                # the invariant, at this component
                assume(And([same(m * c0, f(0, ix)), same((v + m * m) * c0, f(1, ix)), v >= 0, Implies(same(c0, 0), And(same(m, 0), same(v, 1)))]))
            return m, v
        cut = lambda ix: ix[:axis] + ix[axis + 1:]
        en._mean = Arr(self.full, N.memo_nd(lambda *ix: moments(cut(ix))[0]), 'f')
        en._var = Arr(self.full, N.memo_nd(lambda *ix: moments(cut(ix))[1]), 'f')
        self.m0, self.v0, self.c0 = en._mean.snapshot(), en._var.snapshot(), c0
        self.inv0 = (en._var + en.eps) ** -0.5
        if choose(2):
            en._cached_std_inverse = self.inv0.snapshot()
        else:
            en._cached_std_inverse = None

    def index(self, b):
        return self.comp[:self.axis] + (b,) + self.comp[self.axis:]

    def batch(self, kind='f'):
        self.B = fresh_int('B', 0)
        sh = self.dims[:self.axis] + (self.B,) + self.dims[self.axis:]
        return arr('x', sh, kind)

    def sums(self, x):
        s = x.snapshot()
        col = N.Arr((self.B,), lambda b: s.at(*self.index(b)), 'f')
        return N.np_sum(col), N.np_sum(col * col)

    def invariant(self, count, S1, S2, what):
        en = self.en
        at = self.index(0)
        check(len(en._mean.shape) == len(self.full) and len(en._var.shape) == len(self.full), what + ': shapes kept')
        check(And([same(p, q) for p, q in zip(en._mean.shape + en._var.shape, self.full + self.full)]), what + ': sizes kept')
        m, v = en._mean.at(*at), en._var.at(*at)
        check(same(en.count, count), what + ': the count is the number of samples seen')
        check(same(m * count, S1), what + ': the mean is the mean of all samples')
        check(same((v + m * m) * count, S2), what + ': the variance is the population variance of all samples')
        check(Implies(same(count, 0), And(same(m, 0), same(v, 1))), what + ': initial statistics')
        c = en._cached_std_inverse
        if c is not None:
            t = c.at(*at)
            check(And(t > 0, same(t * t * (v + en.eps), 1)), what + ': the cache fits the variance')


SHAPES = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)]


def p_init():
    rank, axis = SHAPES[choose(len(SHAPES))]
    dims = symdims(rank)
    shape = dims[0] if rank == 1 and choose(2) else dims
    en = klass()(shape, batch_axis=axis)
    full = dims[:axis] + (1,) + dims[axis:]
    check(And([same(p, q) for p, q in zip(en._mean.shape + en._var.shape, full + full)] + [True]), 'initial sizes')
    ix = tuple(fresh_int('i', 0) for _ in full)
    for i, d in zip(ix, full):
        assume(i < d)
    check(And([same(en.count, 0), same(en._mean.at(*ix), 0), same(en._var.at(*ix), 1), en._cached_std_inverse is None]), 'initial statistics')
    check(en.until is None and en.clip_threshold is None, 'neither limit nor clipping by default')


def lemma(S, x):
    """the ghost sums after x"""
    a, b = S.sums(x)
    return S.S1(S.comp) + a, S.S2(S.comp) + b


def unchanged(S, what):
    at = S.index(0)
    check(And([same(S.en.count, S.c0), same(S.en._mean.at(*at), S.m0.at(*at)), same(S.en._var.at(*at), S.v0.at(*at))]), what)


def exp(i):
    def h():
        rank, axis = SHAPES[i]
        until = None if not choose(2) else fresh_int('until', 0)
        S = State(rank, axis, until)
        kind = 'fi'[choose(2)]
        x = S.batch(kind)
        arg = chmodel.wrap(x) if choose(2) else x
        S1, S2 = lemma(S, x)
        x0 = x.snapshot()
        S.en.experience(arg)
        j = fresh_int('row', 0)
        check(Implies(j < S.B, same(x.at(*S.index(j)), x0.at(*S.index(j)))), 'the data are not modified')
        if until is not None and S.c0 >= until:
            cover('limit reached')
            unchanged(S, 'once the limit is reached further data changes nothing')
            S.invariant(S.c0, S.S1(S.comp), S.S2(S.comp), 'limit')
            return
        cover('learned')
        S.invariant(S.c0 + S.B, S1, S2, 'experience')
    h.__name__ = 'p_experience%d%d' % SHAPES[i]
    return h


def call(i):
    def h():
        rank, axis = SHAPES[i]
        clip = None
        if choose(2):
            clip = fresh_real('clip')
            assume(clip > 0)
        S = State(rank, axis, None, clip)
        x = S.batch()
        arg = chmodel.wrap(x) if choose(2) else x
        x0 = x.snapshot()
        u = choose(3)
        j = fresh_int('row', 0)
        assume(j < S.B)
        if u == 0:
            y = S.en(arg, update=False)
        elif u == 1:
            y = S.en(arg, update=True)
        else:
            y = S.en(arg)
        check(isinstance(y, chmodel.Var) == isinstance(arg, chmodel.Var), 'arrays give arrays and Variables Variables')
        ya = chmodel.as_arr(y)
        check(And([same(p, q) for p, q in zip(ya.shape, x.shape)]), 'the shape is that of the data')
        ix, at = S.index(j), S.index(0)
        # before the call
        t = S.inv0.at(*at)
        want = (x0.at(*ix) - S.m0.at(*at)) * t
        if clip is not None:
            want = ite(want > clip, clip, ite(want < -clip, -clip, want))
        check(same(ya.at(*ix), want), 'normalised value')
        if u == 0:
            unchanged(S, 'learns only when asked to')
            S.invariant(S.c0, S.S1(S.comp), S.S2(S.comp), 'call')
            if clip is None:
                z = chmodel.as_arr(S.en.inverse(y))
                check(same(z.at(*ix), x0.at(*ix)), 'inverting undoes normalising')
        else:
            S1, S2 = lemma(S, x)
            S.invariant(S.c0 + S.B, S1, S2, 'call with update')
    h.__name__ = 'p_call%d%d' % SHAPES[i]
    return h


def p_properties():
    """mean and std"""
    rank, axis = SHAPES[1 + choose(len(SHAPES) - 1)]
    S = State(rank, axis)
    x = S.batch()
    m, s = S.en.mean, S.en.std
    at = S.index(0)
    m0, s0 = m.at(*S.comp), N.lift(s).at(*S.comp)
    check(same(m0, S.m0.at(*at)), 'mean')
    check(And(s0 >= 0, same(s0 * s0, S.v0.at(*at))), 'std')
    S.en.experience(x)
    check(same(m.at(*S.comp), m0), 'the mean is a copy')


PROOFS = [p_init] + [exp(i) for i in range(len(SHAPES))] + [call(i) for i in range(len(SHAPES))] + [p_properties]


# ---- companion: the real link against two-pass statistics in double precision
def gen(rng):
    nd = rng.randrange(0, 4)
    shape = [rng.randrange(1, 4) for _ in range(nd)]
    return {'shape': shape, 'axis': rng.randrange(0, nd + 1), 'until': rng.choice([None, None, 0, 1, 5, 10]), 'clip': rng.choice([None, None, .5, 2., 10.]),
            'eps': rng.choice([1e-2, 1e-2, 1., 1e-4]), 'dtype': rng.choice(['f', 'f', 'd']), 'seed': rng.randrange(10 ** 6),
            'loc': rng.choice([0, 0, 4, -30]), 'scale': rng.choice([1, .1, 10]),
            'ops': [[rng.choice(['exp', 'exp', 'call', 'upd', 'inv', 'props', 'save']), rng.choice([0, 1, 1, 2, 3, 7]), rng.choice(['f', 'f', 'd', 'i']), rng.random() < .3]
                    for _ in range(rng.randrange(1, 9))]}


def run(c):
    import os
    import warnings
    import tempfile
    import chainer
    import numpy as np
    from chainerrl.links import EmpiricalNormalization
    rs = np.random.RandomState(c['seed'])
    ax, sh = c['axis'], tuple(c['shape'])

    def make():
        return EmpiricalNormalization(sh if len(sh) != 1 or c['seed'] % 2 else sh[0], batch_axis=ax, eps=c['eps'], dtype=c['dtype'], until=c['until'],
                                      clip_threshold=c['clip'])
    en = make()
    seen = []
    tol = dict(rtol=2e-3, atol=2e-3)

    def stats():
        if not seen:
            return np.zeros(sh), np.ones(sh)
        a = np.stack(seen)
        return a.mean(axis=0), a.var(axis=0)

    def learn(a):
        if c['until'] is not None and len(seen) >= c['until']:
            return
        seen.extend(np.array(v, dtype=np.float64) for v in a)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for n, (op, b, dt, var) in enumerate(c['ops']):
            a = rs.normal(c['loc'], c['scale'], (b,) + sh)
            if dt == 'i':
                a = np.round(a * 3)
            a = a.astype({'f': np.float32, 'd': np.float64, 'i': np.int32}[dt])
            x = np.moveaxis(a, 0, ax)
            x = np.ascontiguousarray(x)
            x0 = x.copy()
            if op == 'save':
                d = tempfile.mkdtemp(prefix='pv27')
                try:
                    p = os.path.join(d, 'e.npz')
                    chainer.serializers.save_npz(p, en)
                    en2 = make()
                    if b % 2:
                        en2(np.zeros_like(np.ascontiguousarray(np.moveaxis(np.zeros((1,) + sh, np.float32), 0, ax))), update=False)
                    chainer.serializers.load_npz(p, en2)
                    en = en2
                finally:
                    for q in os.listdir(d):
                        os.remove(os.path.join(d, q))
                    os.rmdir(d)
                continue
            m, v = stats()
            full = lambda z: np.expand_dims(z, ax)
            if op == 'exp':
                en.experience(chainer.Variable(x) if var and dt != 'i' else x)
                learn(a)
            elif op in ('call', 'upd'):
                y = en(chainer.Variable(x) if var and dt == 'f' else x, update=op == 'upd')
                if (isinstance(y, chainer.Variable)) != bool(var and dt == 'f'):
                    return 'the result of operation %d is a %r' % (n, type(y))
                if op == 'upd':
                    learn(a)
                y = y.array if isinstance(y, chainer.Variable) else y
                want = (x0 - full(m)) / np.sqrt(full(v) + c['eps'])
                if c['clip'] is not None:
                    want = np.clip(want, -c['clip'], c['clip'])
                if y.shape != x0.shape:
                    return 'operation %d: shape %r for data of shape %r' % (n, y.shape, x0.shape)
                if not np.allclose(y, want, rtol=5e-3, atol=5e-3 * max(1, np.abs(want).max() if want.size else 1)):
                    return 'operation %d (%s): normalised %r to %r instead of %r' % (n, op, x0.tolist(), y.tolist(), want.tolist())
                if c['clip'] is not None and y.size and np.abs(y).max() > c['clip'] * (1 + 1e-6):
                    return 'operation %d: not clipped' % n
            elif op == 'inv':
                y = en.inverse(x.astype(np.float32))
                want = x0 * np.sqrt(full(v) + c['eps']) + full(m)
                if not np.allclose(y, want, rtol=5e-3, atol=5e-3 * max(1, np.abs(want).max() if want.size else 1)):
                    return 'operation %d: inverse of %r is %r instead of %r' % (n, x0.tolist(), y.tolist(), want.tolist())
                if c['clip'] is None and dt == 'f' and not np.allclose(en.inverse(en(x, update=False)), x0, rtol=5e-3, atol=5e-3 * (1 + abs(c['loc']))):
                    return 'operation %d: inverting does not undo normalising' % n
            else:
                mm = en.mean
                keep = mm.copy()
                en.experience(x)
                learn(a)
                if not np.array_equal(mm, keep):
                    return 'an earlier mean changed'
            if not np.array_equal(x, x0):
                return 'operation %d modifies its input' % n
            m, v = stats()
            if en.count != len(seen):
                return 'after operation %d the count is %r, not %d' % (n, en.count, len(seen))
            if en.mean.shape != sh or np.shape(en.std) != sh:
                return 'the statistics have shapes %r and %r' % (en.mean.shape, np.shape(en.std))
            if not np.allclose(en.mean, m, **tol):
                return 'after operation %d the mean is %r, not %r' % (n, en.mean.tolist(), m.tolist())
            if not np.allclose(np.square(en.std), v, rtol=1e-2, atol=1e-2 * (1 + np.abs(m).max() ** 2 * 1e-2)):
                return 'after operation %d the variance is %r, not %r' % (n, np.square(en.std).tolist(), v.tolist())
    return None


CASES = [('histories', gen, run)]
