"""C26 Parameter synchronisation copies exactly and never aliases."""
from props.lib import *
from pyvc import models
LEVEL = 'proof'
LEVEL_NOTE = ('any number of parameters and links in any order, any tau, every element of arrays of any shape (an arbitrary element of the arrays of '
              'an arbitrary parameter is followed)')
TRUSTED = ['chainer.Link.namedparams/namedlinks enumerate the parameters and links with pairwise distinct names',
           'numpy in-place operations on whole arrays act element by element']
ASSUMPTIONS = ['every name of the source exists in the target with the same shape, and links of the same name have the same type',
               'before the call no two of the arrays are the same object']
CP = 'chainerrl.misc.copy_param'


class BatchNormalization(object):
    pass


def mods():
    d = models.base_models()
    ch = models.Mod('chainer')
    ch.__dict__['links'] = models.Mod('chainer.links', BatchNormalization=BatchNormalization)
    d['chainer'] = ch
    d['chainer.links'] = ch.__dict__['links']
    return d


W = world('cp', models=mods)


class Side(Obj):
    """One of the two links. cur[f] is the value of an arbitrary element of field f (array, grad, avg_mean, avg_var) of parameter (or link) g."""

    def __init__(self, name, n, nl):
        self._pvghost_nm = name
        self.n, self.nl = n, nl
        c = ctx()
        self._pvghost_f = {}
        for f in ('array', 'grad', 'avg_mean', 'avg_var'):
            self._pvghost_f[f] = z3.Function(c.name_(name + f), z3.IntSort(), z3.RealSort())
        for f in ('noarray', 'nograd', 'isbn'):
            self._pvghost_f[f] = z3.Function(c.name_(name + f), z3.IntSort(), z3.BoolSort())
        for k in ('p', 'l'):
            self._pvghost_f['nm' + k] = z3.Function(c.name_(name + 'nm' + k), z3.IntSort(), ObjSort)
            self._pvghost_f['of' + k] = z3.Function(c.name_(name + 'of' + k), ObjSort, z3.IntSort())
        self.g = dict(p=fresh_int(name + 'g', 0), l=fresh_int(name + 'gl', 0))
        self._pvghost_g = self.g
        del self.__dict__['g']
        for f in ('array', 'grad', 'avg_mean', 'avg_var'):
            setattr(self, 'x_' + f, self.f(f, self._pvghost_g['p' if f in ('array', 'grad') else 'l']))
        self.x_seen = False
        self.x_nograd = mk(self._pvghost_f['nograd'](zint(self._pvghost_g['p'])))

    def f(self, k, i):
        return mk(self._pvghost_f[k](zint(i)))

    def nm(self, k, i):
        t = self._pvghost_f['nm' + k](zint(i))
        if not ctx().in_quant:
            ctx().add(self._pvghost_f['of' + k](t) == zint(i))      # names are pairwise distinct
            T, S = ctx().sides
            if self is S:
                # and every name of the source is a name of the target
                o = T.of(k, core.obj_of(t))
                assume(Implies(And(i >= 0, i < (S.n if k == 'p' else S.nl)),
                               And(o >= 0, o < (T.n if k == 'p' else T.nl), same(core.obj_of(T._pvghost_f['nm' + k](zint(o))), core.obj_of(t)))))
        return core.obj_of(t)

    def names(self, k, n, mk_):
        s = Seq(n=n, at=lambda i: (self.nm(k, i), mk_(0 if self is ctx().sides[0] else 1, i)))
        s = heap.KeySeq(s)
        s.keyidx = lambda o: self.of(k, o)
        return heap.PSeqIter(s)

    def of(self, k, o):
        return mk(self._pvghost_f['of' + k](o.t))

    def namedparams(self, include_uninit=True):
        return self.names('p', self.n, Param)

    def params(self, include_uninit=True):
        return self.namedparams().s.map(lambda p: p[1])

    def namedlinks(self, skipself=False):
        if skipself:
            raise Unsupported('skipself')
        return self.names('l', self.nl, Link)


class Param(loops.Handle):
    """parameter i of side s"""

    def __pv_tmpl__(self):
        return ('poison',)

    def _array(self):
        s, i = self.parts
        if ctx().sides[s].f('noarray', i):
            ctx().sides[s].x_seen = Or(ctx().sides[s].x_seen, True)
            return None
        return Cells(s, 'array', i)

    def _seta(self, v):
        store(self.parts[0], 'array', self.parts[1], v, True)

    array = property(_array, _seta)
    data = property(_array, _seta)

    def _grad(self):
        s, i = self.parts
        S = ctx().sides[s]
        g = S._pvghost_g['p']
        if same(i, g):
            none = S.x_nograd
        else:
            none = S.f('nograd', i) if s else unknown(i)
        return None if none else Cells(s, 'grad', i)

    def _setg(self, v):
        store(self.parts[0], 'grad', self.parts[1], v, True)
    grad = property(_grad, _setg)
    xp = npmodel.NP


class Link(loops.Handle):
    def __pv_tmpl__(self):
        return ('poison',)

    def __pv_isinstance__(self, ks):
        S, i = ctx().sides[1], self.parts[1]
        if self.parts[0] == 0:
            i = S.of('l', ctx().sides[0].nm('l', i))        # links of the same name have the same type
        r = False
        for k in ks:
            r = Or(r, S.f('isbn', i) if k is BatchNormalization else False)
        return r


for _f in ('avg_mean', 'avg_var'):
    setattr(Link, _f, property(lambda self, _f=_f: Cells(self.parts[0], _f, self.parts[1]),
                               lambda self, v, _f=_f: store(self.parts[0], _f, self.parts[1], v, True)))


def unknown(i):
    """presence of the gradient of a target parameter that is not followed, until the next store"""
    t = zint(i)
    memo = ctx().__dict__.setdefault('presence', {})
    if t.get_id() not in memo:
        ctx().keepalive.append(t)
        memo[t.get_id()] = fresh_bool('nograd')
    return memo[t.get_id()]


def value(s, f, i):
    S = ctx().sides[s]
    if s:
        return S.f(f, i)                  # the source never changes (checked at every store)
    g = S._pvghost_g['p' if f in ('array', 'grad') else 'l']
    return ite(same(i, g), getattr(S, 'x_' + f), fresh_real('other'))


def store(s, f, i, v, rebind):
    heap.pure_guard('store')
    check(s == 0, 'nothing in the source changes')
    ctx().__dict__.pop('presence', None)
    if s != 0:
        return
    S = ctx().sides[0]
    hit = same(i, S._pvghost_g['p' if f in ('array', 'grad') else 'l'])
    if rebind and v is None:
        check(f == 'grad', 'only gradients become absent')
        S.x_nograd = Or(And(hit, True), S.x_nograd)
        return
    if rebind:
        check(not isinstance(v, Cells), 'arrays stay distinct objects')
    if isinstance(v, Cells):
        if v.parts[:2] == (s, f) and same(v.parts[2], i):
            return                        # x[...] = x
        v = value(*v.parts)
    elif isinstance(v, Val):
        v = v.v
    if not core.isnum(v):
        raise Unsupported('value of an array')
    setattr(S, 'x_' + f, ite(hit, v, getattr(S, 'x_' + f)))
    if f == 'grad':
        S.x_nograd = And(S.x_nograd, Not(hit))


def num(v):
    if isinstance(v, Cells):
        return value(*v.parts)
    if isinstance(v, Val):
        return v.v
    return v


class Val(object):
    """an array of its own; v is its arbitrary element"""
    __array_ufunc__ = None

    def __init__(self, v):
        self.v = v

    def copy(self):
        return Val(self.v)

    def __getitem__(self, k):
        if k is not Ellipsis and k != slice(None):
            raise Unsupported('index of an array')
        return self

    def __pv_tmpl__(self):
        return ('poison',)


class Cells(loops.Handle):
    """field f of parameter (link) i of side s"""
    __array_ufunc__ = None

    def __pv_tmpl__(self):
        return ('poison',)

    def __getitem__(self, k):
        if k is not Ellipsis and k != slice(None):
            raise Unsupported('index of an array')
        return self

    def __setitem__(self, k, v):
        if k is not Ellipsis and k != slice(None):
            raise Unsupported('index of an array')
        store(self.parts[0], self.parts[1], self.parts[2], v, False)

    def copy(self):
        return Val(value(*self.parts))

    def fill(self, v):
        self[...] = v


def _op(nm):
    import operator
    o = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv)[nm.lstrip('ri') if nm[:2] != 'tr' else nm]

    def f(self, x):
        if nm.startswith('r'):
            return Val(o(num(x), num(self)))
        if nm.startswith('i'):
            if isinstance(self, Val):
                self.v = o(self.v, num(x))
            else:
                store(self.parts[0], self.parts[1], self.parts[2], o(num(self), num(x)), False)
            return self
        return Val(o(num(self), num(x)))
    return f


for _k in (Val, Cells):
    for _o in ('add', 'sub', 'mul', 'truediv'):
        for _p in ('', 'r', 'i'):
            setattr(_k, '__%s%s__' % (_p, _o), _op(_p + _o))


def setup():
    c = ctx()
    n, nl, m, ml = (fresh_int(k, 0) for k in ('n', 'nl', 'm', 'ml'))
    T = root('T', Side('t', n, nl))
    S = root('S', Side('s', m, ml))
    c.sides = (T, S)
    for k, a in (('p', n), ('l', nl)):
        assume(T._pvghost_g[k] < a)
    return T, S


def partner(T, S, k):
    """(is there a source parameter of the followed name, its index)"""
    o = T.nm(k, T._pvghost_g[k])
    i = S.of(k, o)
    return And(i >= 0, i < (S.n if k == 'p' else S.nl), same(S.nm(k, i), o)), i


def whole(fn, new, bn, grads=False):
    """new(target, source): the expected element"""
    T, S = setup()
    hp, ip = partner(T, S, 'p')
    hl, il = partner(T, S, 'l')
    old = {f: getattr(T, 'x_' + f) for f in ('array', 'grad', 'avg_mean', 'avg_var')}
    old_ng = T.x_nograd
    noarr = T.f('noarray', T._pvghost_g['p'])
    q = z3.Int('pv_q2')
    if not grads:
        # a parameter of the source is initialised unless that of the target is not
        ctx().add(z3.ForAll([q], z3.Not(S._pvghost_f['noarray'](q))))
    isb = And(hl, S.f('isbn', il))

    def want(f, done):
        k = 'p' if f in ('array', 'grad') else 'l'
        i = ip if k == 'p' else il
        src = S.f(f, i)
        if grads:
            return ite(And(done, Not(S.f('nograd', i))), src, old[f]) if f == 'grad' else old[f]
        if f == 'grad':
            return old[f]
        return ite(done, new(old[f], src), old[f])

    def ng(done):
        return ite(done, S.f('nograd', ip), old_ng) if grads else old_ng

    def inv(L):
        d = {}
        for f in ('array', 'grad', 'avg_mean', 'avg_var'):
            try:
                v = L.get('R.T.x_' + f)
            except KeyError:
                continue
            dn = And(hp, ip < L.k) if f in ('array', 'grad') else And(isb, il < L.k)
            if grads and f == 'grad':
                try:
                    none = L.get('R.T.x_nograd')
                except KeyError:
                    none = T.x_nograd
                d['grad so far'] = Implies(Not(none), same(v, want(f, dn)))
                continue
            d[f + ' so far'] = same(v, want(f, dn))
        try:
            d['refused at once'] = Not(L.get('R.T.x_seen'))
        except KeyError:
            pass
        try:
            d['presence so far'] = same(L.get('R.T.x_nograd'), ng(And(hp, ip < L.k)))
        except KeyError:
            pass
        if not grads and L.loop.seq is not None and same(L.n, S.n) is True:
            d['initialised so far'] = Implies(And(hp, ip < L.k), Not(noarr))
        return d
    ctx().invfuns.append(inv)
    bad, e = raises(TypeError, lambda: fn(T, S))
    if bad:
        cover('refused')
        check(not grads, 'gradient copying raises no TypeError')
        check(T.x_seen, 'TypeError only for an uninitialised target parameter')
        return
    cover('done')
    if not grads:
        check(Implies(hp, Not(noarr)), 'an uninitialised target parameter raises TypeError')
        for f in ('array', 'avg_mean', 'avg_var'):
            dn = hp if f == 'array' else isb
            check(same(getattr(T, 'x_' + f), want(f, dn)), '%s: exact' % f)
        check(And([same(T.x_nograd, old_ng), Or(old_ng, same(T.x_grad, old['grad']))]), 'gradients unchanged')
    else:
        check(same(T.x_nograd, ng(hp)), 'a gradient is present iff it is in the source')
        check(Or(T.x_nograd, same(T.x_grad, want('grad', hp))), 'gradient: exact')
        check(And([same(getattr(T, 'x_' + f), old[f]) for f in ('array', 'avg_mean', 'avg_var')]), 'everything else unchanged')


def p_hard():
    whole(W.load(CP).copy_param, lambda t, s: s, True)


def p_soft():
    tau = fresh_real('tau')
    whole(lambda t, s: W.load(CP).soft_copy_param(t, s, tau), lambda t, s: (1 - tau) * t + tau * s, True)


def p_grad():
    whole(W.load(CP).copy_grad, None, False, True)


def p_sync_hard():
    whole(lambda t, s: W.load(CP).synchronize_parameters(s, t, 'hard'), lambda t, s: s, True)


def p_sync_soft():
    tau = fresh_real('tau')
    whole(lambda t, s: W.load(CP).synchronize_parameters(src=s, dst=t, method='soft', tau=tau), lambda t, s: (1 - tau) * t + tau * s, True)


PROOFS = [p_hard, p_soft, p_grad, p_sync_hard, p_sync_soft]


# ---- companion: real links against a specification over plain dictionaries
def gen(rng):
    def params(pre, depth):
        out = []
        for i in range(rng.randrange(0, 4)):
            k = rng.choice(['p', 'p', 'bn', 'c'] if depth < 2 else ['p', 'bn'])
            if k == 'p':
                out.append(['p', 'p%d' % i, rng.choice([[], [0], [1], [3], [2, 3], [1, 2, 2]])])
            elif k == 'bn':
                out.append(['bn', 'b%d' % i, rng.randrange(1, 4)])
            else:
                out.append(['c', 'c%d' % i, params(pre, depth + 1)])
        return out
    return {'tree': params('', 0), 'extra': rng.choice([None, None, 'p', 'bn']), 'seed': rng.randrange(10 ** 6), 'uninit': rng.choice([None] * 5 + [0, 1, 2]),
            'ops': [[rng.choice(['hard', 'soft', 'copy_param', 'soft_copy_param', 'grad', 'train']), rng.choice([0., 1., .5, .01, rng.random()])]
                    for _ in range(rng.randrange(1, 5))], 'list': rng.random() < .3, 'grads': rng.choice(['none', 'all', 'some'])}


def run(c):
    import chainer
    import chainer.links as L
    import numpy as np
    from chainerrl.misc import copy_param as cp
    rs = np.random.RandomState(c['seed'])

    def build(tree):
        ch = chainer.Chain()
        with ch.init_scope():
            for k, nm, x in tree:
                if k == 'p':
                    v = chainer.Parameter(rs.uniform(-1, 1, tuple(x)).astype(np.float32))
                elif k == 'bn':
                    v = L.BatchNormalization(x)
                    v.avg_mean[...] = rs.uniform(-1, 1, x)
                    v.avg_var[...] = rs.uniform(.5, 2, x)
                    v.gamma.array[...] = rs.uniform(-1, 1, x)
                else:
                    v = build(x)
                setattr(ch, nm, v)
        return ch

    def scramble(ch):
        for p in ch.params():
            p.array[...] = rs.uniform(-1, 1, p.shape)
            g = c['grads'] == 'all' or (c['grads'] == 'some' and rs.rand() < .5)
            p.grad = rs.uniform(-1, 1, p.shape).astype(np.float32) if g else None
        for l in ch.links():
            if isinstance(l, L.BatchNormalization):
                l.avg_mean[...] = rs.uniform(-1, 1, l.avg_mean.shape)
                l.avg_var[...] = rs.uniform(.5, 2, l.avg_var.shape)

    def arrays(ch):
        d = {}
        for n, p in ch.namedparams():
            d['a' + n] = p.array
            d['g' + n] = p.grad
        for n, l in ch.namedlinks():
            if isinstance(l, L.BatchNormalization):
                d['m' + n], d['v' + n] = l.avg_mean, l.avg_var
        return d

    def snap(ch):
        return {k: None if v is None else np.array(v) for k, v in arrays(ch).items()}

    def eq(x, y, tol=0):
        if x is None or y is None:
            return x is None and y is None
        return x.shape == y.shape and (np.array_equal(x, y) if not tol else np.allclose(x, y, rtol=1e-5, atol=1e-6))
    tree = c['tree'] if any(True for _ in c['tree']) else [['p', 'p0', [2]]]
    if c['list']:
        src, tgt = chainer.ChainList(build(tree), build(tree)), chainer.ChainList(build(tree), build(tree))
    else:
        src = build(tree)
        tgt = build(tree + ([['p', 'zz', [2]]] if c['extra'] == 'p' else [['bn', 'zz', 2]] if c['extra'] == 'bn' else []))
    scramble(src)
    scramble(tgt)
    if c['uninit'] is not None:
        ps = [p for n, p in sorted(tgt.namedparams()) if 'zz' not in n]
        if ps:
            i = c['uninit'] % len(ps)
            names = [n for n, p in sorted(tgt.namedparams()) if 'zz' not in n]
            un = L.Linear(None, 2)
            ps[i].array = None
            for op in ('hard', 'soft'):
                try:
                    cp.synchronize_parameters(src, tgt, op, tau=.5)
                except TypeError:
                    continue
                return 'uninitialised target parameter %s accepted by %s synchronisation' % (names[i], op)
            return None
    for op, tau in c['ops']:
        s0, t0 = snap(src), snap(tgt)
        if op == 'train':
            scramble(src if tau < .5 else tgt)
            s1, t1 = snap(src), snap(tgt)
            other = (t0, t1) if tau < .5 else (s0, s1)
            for k in other[0]:
                if not eq(other[0][k], other[1][k]):
                    return 'changing one link changes %s of the other' % k
            continue
        {'hard': lambda: cp.synchronize_parameters(src, tgt, 'hard'), 'copy_param': lambda: cp.copy_param(tgt, src),
         'soft': lambda: cp.synchronize_parameters(src=src, dst=tgt, method='soft', tau=tau),
         'soft_copy_param': lambda: cp.soft_copy_param(tgt, src, tau), 'grad': lambda: cp.copy_grad(tgt, src)}[op]()
        s1, t1 = snap(src), snap(tgt)
        for k in s0:
            if not eq(s0[k], s1[k]):
                return '%s changes %s of the source' % (op, k)
        for k in t0:
            want, tol = t0[k], 0
            if k in s0:
                if op == 'grad':
                    want = s0[k] if k[0] == 'g' else want
                elif k[0] != 'g':
                    if op in ('hard', 'copy_param'):
                        want = s0[k]
                    else:
                        want, tol = (1 - tau) * t0[k].astype(np.float64) + tau * s0[k].astype(np.float64), 1
            if not eq(want, t1[k], tol):
                return '%s(tau=%r): %s of the target is %r instead of %r' % (op, tau, k, t1[k], want)
        sa, ta = arrays(src), arrays(tgt)
        for k, x in sa.items():
            for q, y in ta.items():
                if x is not None and y is not None and (x is y or np.may_share_memory(x, y)):
                    return '%s: %s of the target shares memory with %s of the source' % (op, q, k)
    return None


CASES = [('links', gen, run)]
