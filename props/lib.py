"""Shared sidecar contracts: representation contracts and callee contracts used by several properties."""
from pyvc.h import *
from pyvc import core, heap, loops, npmodel
from pyvc.npmodel import Arr
import z3

COLL = 'chainerrl.misc.collections'


# ---- RandomAccessQueue: view = reverse(front) ++ back; every state with that view is some split of it
def raq_view(q):
    try:
        f, b = q._queue_front.s, q._queue_back.s
    except AttributeError as e:
        raise Unsupported('representation of RandomAccessQueue changed: %s' % e)
    # the same representation gives the same view object (so that unchanged queues are recognised)
    cache = core.CTX.__dict__.setdefault('viewcache', {})
    key = (id(f), id(b))
    if key not in cache:
        cache[key] = (f, b, f.reverse().concat(b))
    return cache[key][2]


def raq_gen(q, s):
    nf = fresh_int('nf', 0)
    assume(nf <= s.n)
    q._queue_front = PList(seq=s.slice(0, nf).reverse())
    q._queue_back = PList(seq=s.slice(nf, s.n))


loops.AbsClass.registry[(COLL, 'RandomAccessQueue')] = (raq_view, raq_gen, ('maxlen',))


def raq_class(W):
    return W.load(COLL).RandomAccessQueue


def make_raq(W, s, maxlen):
    """An arbitrary RandomAccessQueue whose abstract sequence is s."""
    Q = raq_class(W)
    q = Q(maxlen=maxlen)
    raq_view(q)
    raq_gen(q, s)
    return q


def trim(s, m):
    """last m elements of s (all if m is None)"""
    if m is None:
        return s
    if s.n > m:
        return s.slice(s.n - m, s.n)
    return s


def patch(mod, name, val):
    if name not in mod.__dict__:
        raise Unsupported('%s.%s vanished' % (mod.__name__, name))
    mod.__dict__[name] = val


def distinct_ints(name, n, k):
    """k pairwise distinct integers in [0, n), otherwise arbitrary (contract of sample_n_k, proved in C08)."""
    f = fun(name, z3.IntSort(), z3.IntSort())
    g = fun(name + '_inv', z3.IntSort(), z3.IntSort())

    def at(i):
        zi = zint(i)
        t = f(zi)
        if not core.CTX.in_quant:
            assume(Implies(And(i >= 0, i < k), And(mk(t) >= 0, mk(t) < n, mk(g(t) == zi))))
        return mk(t)
    return Seq(n=k, at=heap.memo_at(at))


def sample_n_k_contract(log=None):
    def sample_n_k(n, k):
        heap.pure_guard('sampling')
        if (k < 0) or (k > n):
            raise ValueError('Sample larger than population or is negative')
        s = distinct_ints('draw', n, k)
        if log is not None:
            log.append((n, k, s))
        return npmodel.Arr((k,), lambda i: s.at(i), 'i')
    return sample_n_k


class Draws(object):
    """np.random by contract."""

    def __init__(self):
        self.randints = []

    def choice(self, n, size=None, replace=True, p=None):
        if p is not None or size is None:
            raise Unsupported('np.random.choice arguments')
        if isinstance(n, npmodel.Arr):
            raise Unsupported('np.random.choice of an array')
        if (n <= 0) and Not(same(size, 0)):
            raise ValueError('a must be greater than 0')
        if not replace:
            if size > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            s = distinct_ints('choice', n, size)
            return Arr((size,), lambda i: s.at(i), 'i')
        f = fun('choice', z3.IntSort(), z3.IntSort())
        i = z3.Int('pv_choice_i')
        core.CTX.add(z3.ForAll([i], z3.And(f(i) >= 0, f(i) < zint(n))))
        return Arr((size,), lambda i: mk(f(zint(i))), 'i')

    def randint(self, lo, hi=None, size=None):
        if size is not None:
            raise Unsupported('randint size')
        if hi is None:
            lo, hi = 0, lo
        if lo >= hi:
            raise ValueError('low >= high')
        v = fresh_int('randint', 0)
        assume(And(v >= lo, v < hi))
        self.randints.append((lo, hi, v))
        return v

    def permutation(self, n):
        s = distinct_ints('perm', n, n)
        return Arr((n,), lambda i: s.at(i), 'i')


def forall(lo, hi, f):
    """forall i in [lo, hi): f(i)"""
    c = core.CTX
    i = z3.Int(c.name_('fa'))
    c.in_quant += 1
    try:
        b = zbool(f(mk(i)))
    finally:
        c.in_quant -= 1
    return mk(z3.ForAll([i], z3.Implies(z3.And(i >= zint(lo), i < zint(hi)), b)))


def forall2(n, f):
    c = core.CTX
    i, j = z3.Int(c.name_('fa')), z3.Int(c.name_('fb'))
    c.in_quant += 1
    try:
        b = zbool(f(mk(i), mk(j)))
    finally:
        c.in_quant -= 1
    return mk(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < zint(n)), b)))


_lemmas = {}


def mod_succ(t, f):
    """Instance of a lemma (proved on its own at first use): t % f follows (t - 1) % f cyclically, for f > 0."""
    if 'mod_succ' not in _lemmas:
        F, q1, r1, q2, r2 = z3.Ints('lf lq1 lr1 lq2 lr2')
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(F > 0, 0 <= r1, r1 < F, 0 <= r2, r2 < F, q1 * F + r1 + 1 == q2 * F + r2)
        s.add(z3.Not(r2 == z3.If(r1 + 1 == F, 0, r1 + 1)))
        _lemmas['mod_succ'] = str(s.check())
    if _lemmas['mod_succ'] != 'unsat':
        raise Unsupported('lemma mod_succ not proved')
    r1 = core.intdiv(t - 1, f)[1]
    r = core.intdiv(t, f)[1]
    core.CTX.add(zbool(Implies(f > 0, same(r, ite(same(r1 + 1, f), 0, r1 + 1)))))
    return r
