"""C02 Priority trees: exact aggregates, exact writes, inverse-CDF lookup."""
from props.lib import *
import random as _random
LEVEL = 'proof'
LEVEL_NOTE = ('_write and _find by induction on the tree (recursive calls through their own contract, with termination measure), TreeQueue '
              'operations and the sampling loops over these contracts, for every bounds, size and content; priorities are mathematical reals')
TRUSTED = ['laws of sum and minimum over an interval: singleton, split at a midpoint, independence of elements outside',
           'np.random.uniform(lo, hi) yields a value in [lo, hi); sample_n_k contract (discharged under C08)']
ASSUMPTIONS = ['floating point priorities are treated as real numbers', 'a prioritized draw is made only while the sum is positive']
PR = 'chainerrl.misc.prioritized'
W = world('base')


class Hidden(object):
    """A part of the tree the code has no business to look at."""

    def __pv_same__(self, o):
        return self is o


H = Hidden()


class St(object):
    """Abstract content: keys [a, b), prefix sums C (sum) or interval minima M (min)."""

    def __init__(self, kind, a, b, C=None, M=None):
        self.kind, self.a, self.b, self.C, self.M = kind, a, b, C, M

    def P(self, i):
        return self.C(i + 1) - self.C(i) if self.kind == 'sum' else self.M(i, i + 1)

    def span(self, l, r):
        return ite(l >= self.a, l, self.a), ite(r <= self.b, r, self.b)

    def empty(self, l, r):
        lo, hi = self.span(l, r)
        return Not(lo < hi)

    def agg(self, l, r):
        lo, hi = self.span(l, r)
        return self.C(hi) - self.C(lo) if self.kind == 'sum' else self.M(lo, hi)

    def split(self, l, c, r):
        """law: an interval's aggregate from those of its two parts"""
        if self.kind == 'min':
            lo, hi = self.span(l, r)
            x, y = self.M(lo, c), self.M(c, hi)
            core.CTX.add(zbool(Implies(And(lo < c, c < hi), same(self.M(lo, hi), ite(x <= y, x, y)))))

    def write(self, k, v):
        if v is None:
            return St(self.kind, self.a + 1, self.b, self.C, self.M)
        b = ite(same(k, self.b), self.b + 1, self.b)
        if self.kind == 'sum':
            old = self.P(k)
            C = self.C
            return St('sum', self.a, b, lambda i: C(i) + ite(i > k, v - old, 0))
        F = fun('minval', z3.IntSort(), z3.IntSort(), z3.RealSort())
        M = self.M

        def M1(lo, hi):
            t = mk(F(zint(lo), zint(hi)))
            core.CTX.add(zbool(And(Implies(Or(k < lo, k >= hi), same(t, M(lo, hi))),
                                   Implies(And(same(lo, k), same(hi, k + 1)), same(t, v)))))
            return t
        return St('min', self.a, b, None, M1)


def base_state(kind, a, b):
    if kind == 'sum':
        f = fun('prefix', z3.IntSort(), z3.RealSort())
        return St('sum', a, b, lambda i: mk(f(zint(i))))
    f = fun('mins', z3.IntSort(), z3.IntSort(), z3.RealSort())
    return St('min', a, b, None, lambda lo, hi: mk(f(zint(lo), zint(hi))))


def fill(n, st, l, r, depth):
    """make the list object n represent st over [l, r)"""
    n.rep = (st, l, r)
    if st.empty(l, r):
        n.s = Seq(())
    elif depth == 0:
        n.s = Seq([H, H, st.agg(l, r)])
    elif r - l == 1:
        n.s = Seq([None, None, st.P(l)])
    else:
        c = core.intdiv(l + r, 2)[0]
        st.split(l, c, r)
        n.s = Seq([fill(PList(), st, l, c, depth - 1), fill(PList(), st, c, r, depth - 1), st.agg(l, r)])
    n.filled = n.s
    return n


def rep_of(n):
    if not isinstance(n, PList):
        raise Unsupported('tree node representation')
    return getattr(n, 'rep', None)


def holds(n, st, l, r, st0, k, what):
    """n represents st over [l, r): by the contract that made it, possibly over the old content on an untouched interval"""
    if not isinstance(n, PList):
        check(False, what + ': node is a list')
        return
    if st.empty(l, r):
        check(same(n.s.n, 0), what + ': an interval without keys is an empty node')
        return
    check(same(n.s.n, 3), what + ': an interval with keys is a node')
    if not same(n.s.n, 3) is True:
        return
    check(same(n.s.at(2), st.agg(l, r)), what + ': node value is the aggregate of its interval')
    if r - l == 1:
        return
    rep = rep_of(n)
    ok = False
    if rep is not None and n.s is n.filled:
        if rep[0] is st:
            ok = And(same(rep[1], l), same(rep[2], r))
        elif rep[0] is st0:
            ok = And(same(rep[1], l), same(rep[2], r), Or(k < l, k >= r))
    if ok is False:
        # not a node handed over by a contract: look at its children
        c = core.intdiv(l + r, 2)[0]
        x, y = n.s.at(0), n.s.at(1)
        if not (isinstance(x, PList) and isinstance(y, PList)):
            check(False, what + ': children are nodes')
            return
        for nm, ch, p, q in (('left', x, l, c), ('right', y, c, r)):
            if rep_of(ch) is None and not st.empty(p, q):
                check(False, what + ': %s child represents its half' % nm)
                return
            holds(ch, st, p, q, st0, k, what + ' ' + nm)
    else:
        check(ok, what + ': node covers its interval')


def write_contract(get, top=None):
    """contract of _write; get() -> the current abstract state (old, new, key, value)"""
    def _write(l, r, node, key, value, op):
        heap.pure_guard('tree write')
        st, st1, k, v = get(l, r, node, key, value)
        check(r > l, 'recursive write: interval not empty')
        if top is not None:
            check(r - l < top[1] - top[0], 'recursive write: interval shrinks')
        check(And(key >= l, key < r), 'recursive write: key inside the interval')
        check(And(same(key, k), same(value, v)), 'recursive write: same key and value')
        rep = rep_of(node)
        if st.empty(l, r):
            check(same(node.s.n, 0), 'recursive write: node of an empty interval is empty')
        elif rep is None:
            check(False, 'recursive write: node represents its interval')
        else:
            check(And(rep[0] is st, same(rep[1], l), same(rep[2], r), node.s is node.filled),
                  'recursive write: node represents its interval')
        has = And(k >= st.a, k < st.b)
        ret = st.P(k) if has else None
        fill(node, st1, l, r, 1 if top is None else 0)
        return ret
    return _write


def legal_write(st, kind):
    """a key and value the queues write: overwrite, append at the end, remove the first"""
    k = fresh_int('key')
    w = choose(3)
    if w == 0:
        v = fresh_real('value')
        if not And(k >= st.a, k < st.b):
            return None
        cover(kind + ' overwrite')
    elif w == 1:
        v = fresh_real('value')
        if not same(k, st.b):
            return None
        cover(kind + ' append')
    else:
        v = None
        if not And(same(k, st.a), st.a < st.b):
            return None
        cover(kind + ' remove')
    return k, v


def p_write(kind):
    l, r = fresh_int('left'), fresh_int('right')
    assume(r > l)
    a, b = fresh_int('a'), fresh_int('b', 0)
    assume(a <= b)
    st = base_state(kind, a, b)
    kv = legal_write(st, kind)
    if kv is None:
        return
    k, v = kv
    if not And(k >= l, k < r):
        return
    st1 = st.write(k, v)
    node = fill(PList(), st, l, r, 2)
    c = core.intdiv(l + r, 2)[0]
    st1.split(l, c, r)
    m = W.load(PR)
    real = m.__dict__['_write']
    heap_op = W.builtins['sum'] if kind == 'sum' else W.builtins['min']
    patch(m, '_write', write_contract(lambda *x: (st, st1, k, v), (l, r)))
    try:
        ret = real(l, r, node, k, v, heap_op)
    finally:
        m.__dict__['_write'] = real
    old = st.P(k) if And(k >= a, k < b) else None
    check(same(ret, old), kind + ' write returns the previous priority')
    # the node itself was changed by the code, so look inside
    node.rep = None
    holds(node, st1, l, r, st, k, kind + ' write')


def p_write_sum():
    p_write('sum')


def p_write_min():
    p_write('min')


def p_find():
    l, r = fresh_int('left'), fresh_int('right')
    assume(r > l)
    a, b = fresh_int('a'), fresh_int('b')
    st = base_state('sum', a, b)
    pos = fresh_real('pos')
    if st.empty(l, r):
        return
    if not And(pos >= 0, pos < st.agg(l, r)):
        return
    node = fill(PList(), st, l, r, 2)
    m = W.load(PR)
    real = m.__dict__['_find']

    def _find(l2, r2, n2, p2):
        heap.pure_guard('tree lookup')
        check(And(r2 > l2, r2 - l2 < r - l), 'recursive lookup: interval shrinks')
        rep = rep_of(n2)
        check(And(rep is not None and rep[0] is st and n2.s is n2.filled, same(rep[1], l2), same(rep[2], r2)),
              'recursive lookup: node represents its interval')
        e = st.empty(l2, r2)
        check(Not(e), 'recursive lookup: interval has keys')
        check(And(p2 >= 0, p2 < st.agg(l2, r2)), 'recursive lookup: position inside the interval total')
        i = fresh_int('found')
        lo, hi = st.span(l2, r2)
        assume(And(i >= lo, i < hi, st.C(i) - st.C(lo) <= p2, p2 < st.C(i + 1) - st.C(lo)))
        return i
    patch(m, '_find', _find)
    try:
        i = real(l, r, node, pos)
    finally:
        m.__dict__['_find'] = real
    lo, hi = st.span(l, r)
    cover('found')
    check(And(i >= lo, i < hi), 'lookup returns a present key of the interval')
    check(And(st.C(i) - st.C(lo) <= pos, pos < st.C(i + 1) - st.C(lo)), 'lookup returns the key whose cumulative interval contains the position')
    holds(node, st, l, r, st, l - 1, 'lookup changes nothing')


# ---- queue level
def queue(kind):
    """any reachable queue: length n, bounds [l, r) around [0, n), root representing the content"""
    m = W.load(PR)
    q = (m.SumTreeQueue if kind == 'sum' else m.MinTreeQueue)()
    check(same(q.length, 0), 'a new queue is empty')
    n = fresh_int('length', 0)
    if n > 0:
        l, r = fresh_int('left'), fresh_int('right')
        assume(And(l <= 0, r >= n, l < r))
        st = base_state(kind, 0, n)
        q.length = n
        q.bounds = l, r
        q.root = fill(PList(), st, l, r, 1)
        q.root.rep = (st, l, r)
    else:
        l = r = None
        st = base_state(kind, 0, 0)
        q.length = 0
    return m, q, st, n, l, r


def root_ok(q, st, shift, n, what):
    if n > 0:
        check(same(q.length, n), what + ': length')
        l, r = q.bounds
        check(And(l <= 0, r >= n, l < r), what + ': bounds cover the keys')
        holds(q.root, st, l + shift, r + shift, None, None, what)
    else:
        check(same(q.length, 0), what + ': empty')


def p_q_append(kind):
    m, q, st, n, l, r = queue(kind)
    v = fresh_real('value')
    st1 = st.write(n, v)
    if l is None:
        q.append(v)
        cover('first')
        root_ok(q, st1, 0, n + 1, kind + ' first append')
        check(same(q.root.s.at(2), v), kind + ' first append stores the value')
        return
    seen = []

    def get(l2, r2, node, key, value):
        seen.append(key)
        # the root may have been extended to the right by an empty sibling
        if rep_of(node) is None:
            holds(node, st, l2, r2, st, n, kind + ' append: the extended tree represents the same content')
            node.rep, node.filled = (st, l2, r2), node.s
        return st, st1, n, v
    real = m._write
    patch(m, '_write', write_contract(get))
    try:
        ret = q.append(v)
    finally:
        m.__dict__['_write'] = real
    cover('appended')
    check(len(seen) == 1, kind + ' append writes once')
    root_ok(q, st1, 0, n + 1, kind + ' append')


def p_q_popleft(kind):
    m, q, st, n, l, r = queue(kind)
    if l is None:
        ok, _ = raises(AssertionError, q.popleft)
        check(ok, 'popleft of an empty queue is refused')
        check(same(q.length, 0), 'a refused popleft changes nothing')
        return
    st1 = st.write(0, None)
    real = m._write
    patch(m, '_write', write_contract(lambda *x: (st, st1, 0, None)))
    try:
        ret = q.popleft()
    finally:
        m.__dict__['_write'] = real
    cover('popped')
    check(same(ret, st.P(0)), kind + ' popleft returns the oldest priority')
    root_ok(q, st1, 1, n - 1, kind + ' popleft')


def p_q_set(kind):
    m, q, st, n, l, r = queue(kind)
    i = fresh_int('i')
    v = fresh_real('value')
    if l is None or Not(And(i >= 0, i < n)):
        def f():
            q[i] = v
        if l is None:
            assume(n <= 0)
        ok, _ = raises(AssertionError, f)
        check(ok, 'assignment outside the queue is refused')
        return
    st1 = st.write(i, v)
    real = m._write
    patch(m, '_write', write_contract(lambda *x: (st, st1, i, v)))
    try:
        q[i] = v
    finally:
        m.__dict__['_write'] = real
    cover('assigned')
    root_ok(q, st1, 0, n, kind + ' assignment')


def p_q_aggregate():
    for kind in ('sum', 'min'):
        m, q, st, n, l, r = queue(kind)
        v = q.sum() if kind == 'sum' else q.min()
        if l is None:
            check(same(v, 0) if kind == 'sum' else v == float('inf'), kind + ' of an empty queue')
        else:
            check(same(v, st.agg(0, n)), kind + '() is the aggregate of all priorities')
            cover(kind)


def p_append_sum(): p_q_append('sum')
def p_append_min(): p_q_append('min')
def p_popleft_sum(): p_q_popleft('sum')
def p_popleft_min(): p_q_popleft('min')
def p_set_sum(): p_q_set('sum')
def p_set_min(): p_q_set('min')


# ---- sampling loops over the contracts of _write and _find
class Ghost(Obj):
    """current priorities of the queue, and which draw took each position"""

    def __init__(self, P0):
        self.P = PList(seq=P0)
        self.mark = PList(seq=Seq(n=P0.n, at=lambda i: -1))
        self.count = 0


def sampling(method):
    m = W.load(PR)
    q = m.SumTreeQueue()
    n = fresh_int('length', 0)
    P0 = sym_seq('P0', 'real', n=n)
    g = root('g', Ghost(P0))
    q.length = n
    if n > 0:
        q.bounds = fresh_int('left'), fresh_int('right')

        class Root(PList):
            def __getitem__(self, i):
                if i != 2:
                    raise Unsupported('root internals')
                t = fresh_real('total')
                if not core.CTX.in_quant:
                    draw_guard()
                assume(t > 0)
                return t
        q.root = Root()

    def _write(l, r, node, key, value, op):
        draw_guard()
        check(node is q.root, 'writes go to the root')
        check(And(key >= 0, key < n), 'writes stay inside the queue')
        old = g.P.s.at(key)
        g.P.s = g.P.s.update(key, value)
        if same(value, 0) is True:
            g.mark.s = g.mark.s.update(key, g.count)
            g.count = g.count + 1
        return old

    def _find(l, r, node, pos):
        draw_guard()
        check(And(node is q.root, same(l, q.bounds[0]), same(r, q.bounds[1])), 'the lookup starts at the root over all bounds')
        i = fresh_int('found', 0)
        # position inside a non-empty cumulative interval, hence a positive current priority
        assume(And(i < n, g.P.s.at(i) > 0))
        return i
    patch(m, '_write', _write)
    patch(m, '_find', _find)

    def sample_n_k(n2, k2):
        if (k2 < 0) or (k2 > n2):
            raise ValueError
        f, h = fun('drawn', z3.IntSort(), z3.IntSort()), fun('drawn_inv', z3.IntSort(), z3.IntSort())
        i = z3.Int('pv_drawn_i')
        core.CTX.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(k2)), z3.And(f(i) >= 0, f(i) < zint(n2), h(f(i)) == i)),
                               patterns=[f(i)]))
        return Arr((k2,), lambda i: mk(f(zint(i))), 'i')
    patch(m, 'sample_n_k', sample_n_k)

    class U(object):
        def uniform(self, lo=0.0, hi=1.0, size=None):
            draw_guard()
            check(same(lo, 0), 'draw starts at zero')
            u = fresh_real('u')
            assume(And(u >= lo, u < hi))
            return u
    ctx().np_random = U()
    k = fresh_int('k')

    def inv(L):
        out = {}
        try:
            P, mark, cnt = L.get('R.g.P.s'), L.get('R.g.mark.s'), L.get('R.g.count')
        except KeyError:
            P, mark, cnt = g.P.s, g.mark.s, g.count
        try:
            ixs, vals = L.get('L.ixs.s'), L.get('L.vals.s')
        except KeyError:
            return out
        # candidates for both loops of the method; those that do not hold in one of them are dropped there
        m_ = vals.n
        out['lens'] = And(same(P.n, n), same(mark.n, n))
        out['count'] = same(cnt, L.k)
        out['vals'] = And(same(m_, L.k), forall(0, m_, lambda j: And(
            ixs.at(j) >= 0, ixs.at(j) < n, same(vals.at(j), P0.at(ixs.at(j))))))
        out['marks'] = forall(0, m_, lambda j: same(mark.at(ixs.at(j)), j))
        out['zeroed'] = forall(0, n, lambda i: Or(
            And(same(mark.at(i), -1), same(P.at(i), P0.at(i))),
            And(mark.at(i) >= 0, mark.at(i) < m_, same(P.at(i), 0), same(ixs.at(mark.at(i)), i))))
        out['restored'] = forall(0, n, lambda i: same(P.at(i), ite(Or(same(mark.at(i), -1), mark.at(i) < L.k), P0.at(i), 0)))
        return out
    return q, n, P0, g, k, inv


def sample_harness(method):
    q, n, P0, g, k, inv = sampling(method)
    ctx().invfuns.append(inv)
    f = getattr(q, method)
    remove = choose(2) == 0
    if k < 0:
        ok, _ = raises(AssertionError, lambda: f(k, remove))
        check(ok, 'a negative number of draws is refused')
        return
    if And(n == 0, k > 0):
        return
    if method == 'uniform_sample' and k > n:
        return
    ixs, vals = f(k, remove)
    ixs, vals = to_seq(ixs), to_seq(vals)
    check(And(same(ixs.n, k), same(vals.n, k)), 'exactly k draws')
    if same(k, 0):
        return
    a, b = fresh_int('x', 0), fresh_int('y', 0)
    if And(a < k, b < k):
        cover('drawn, remove=%s' % remove)
        check(And(ixs.at(a) >= 0, ixs.at(a) < n), 'drawn positions are inside the queue')
        check(Implies(Not(same(a, b)), Not(same(ixs.at(a), ixs.at(b)))), 'drawn positions are distinct')
        check(same(vals.at(a), P0.at(ixs.at(a))), 'returned values are the original priorities')
        if remove:
            check(same(g.P.s.at(ixs.at(a)), 0), 'sampled positions become zero')
    i = fresh_int('i', 0)
    if i < n:
        if remove:
            check(Or(same(g.P.s.at(i), P0.at(i)),
                     And(g.mark.s.at(i) >= 0, g.mark.s.at(i) < k, same(ixs.at(g.mark.s.at(i)), i))),
                  'only sampled positions change')
        else:
            check(same(g.P.s.at(i), P0.at(i)), 'without removal every priority is as before')


def p_prioritized_sample():
    sample_harness('prioritized_sample')


def p_uniform_sample():
    sample_harness('uniform_sample')


PROOFS = [p_write_sum, p_write_min, p_find, p_append_sum, p_append_min, p_popleft_sum, p_popleft_min, p_set_sum, p_set_min,
          p_q_aggregate, p_prioritized_sample, p_uniform_sample]


# ---- companion: histories on the real queues against plain lists, dyadic priorities so that sums are exact
def gen(rng):
    ops = []
    big = rng.random() < 0.2
    for _ in range(rng.randrange(1, 120 if big else 40)):
        x = rng.random()
        if x < 0.45:
            ops.append(['append', rng.randrange(1, 64) / 8])
        elif x < 0.65:
            ops.append(['popleft'])
        elif x < 0.85:
            ops.append(['set', rng.random(), rng.randrange(0, 64) / 8])
        elif x < 0.93:
            ops.append(['prio', rng.randrange(0, 4), rng.random() < 0.4, [rng.random() for _ in range(4)]])
        else:
            ops.append(['unif', rng.randrange(0, 4), rng.random() < 0.4])
    return dict(ops=ops, seed=rng.randrange(2 ** 31))


def run(c):
    import numpy as np
    from chainerrl.misc import prioritized as pm
    np.random.seed(c['seed'])
    qs, qm = pm.SumTreeQueue(), pm.MinTreeQueue()
    ref = []            # sum queue
    refm = []           # min queue
    real_uniform = np.random.uniform

    def state(what):
        if qs.length != len(ref) or qs.sum() != sum(ref):
            return '%s: sum %r of length %r, expected %r' % (what, qs.sum(), qs.length, ref)
        want = min(refm) if refm else float('inf')
        if qm.length != len(refm) or qm.min() != want:
            return '%s: min %r, expected %r' % (what, qm.min(), want)
    for n, op in enumerate(c['ops']):
        what = 'after op %d %r' % (n, op)
        if op[0] == 'append':
            qs.append(op[1])
            qm.append(op[1])
            ref.append(op[1])
            refm.append(op[1])
        elif op[0] == 'popleft':
            if not ref:
                for q in (qs, qm):
                    try:
                        q.popleft()
                        return 'popleft on empty did not raise'
                    except AssertionError:
                        pass
                continue
            a, b = qs.popleft(), qm.popleft()
            if a != ref.pop(0) or b != refm.pop(0):
                return '%s: popleft returned %r, %r' % (what, a, b)
        elif op[0] == 'set':
            if not ref:
                continue
            i = int(op[1] * len(ref))
            qs[i] = op[2]
            qm[i] = op[2]
            ref[i] = refm[i] = op[2]
        elif op[0] == 'prio':
            k = min(op[1], sum(1 for x in ref if x > 0))
            cur, want = list(ref), []
            fr = iter(op[3])

            def fake(lo=0.0, hi=1.0, size=None):
                # a draw on the dyadic grid of the current content
                assert lo == 0.0 and size is None
                if hi != sum(cur):
                    raise ValueError('draw over [0, %r) but the sum is %r' % (hi, sum(cur)))
                p = int(next(fr) * hi * 16) / 16
                s, j = 0.0, None
                for j, x in enumerate(cur):
                    if s <= p < s + x:
                        break
                    s += x
                want.append((j, cur[j]))
                cur[j] = 0.0
                return p
            np.random.uniform = fake
            try:
                ixs, vals = qs.prioritized_sample(k, remove=op[2])
            except ValueError as e:
                return '%s: %s' % (what, e)
            finally:
                np.random.uniform = real_uniform
            if list(zip(ixs, vals)) != want:
                return '%s: drew %r, expected %r from %r' % (what, list(zip(ixs, vals)), want, ref)
            if op[2]:
                for i, _ in want:
                    ref[i] = 0.0
        else:
            k = min(op[1], len(ref))
            ixs, vals = qs.uniform_sample(k, remove=op[2])
            ixs = [int(i) for i in ixs]
            if len(ixs) != k or len(set(ixs)) != k or any(not 0 <= i < len(ref) for i in ixs):
                return '%s: uniform sample %r' % (what, ixs)
            if [ref[i] for i in ixs] != list(vals):
                return '%s: uniform values %r for %r of %r' % (what, vals, ixs, ref)
            if op[2]:
                for i in ixs:
                    ref[i] = 0.0
        s = state(what)
        if s:
            return s
        # every prefix sum through the lookup
        if ref and n % 5 == 0:
            s = 0.0
            for i, x in enumerate(ref):
                if x > 0:
                    for p in (s, s + x / 2, s + x - 1 / 64):
                        g = pm._find(qs.bounds[0], qs.bounds[1], qs.root, p)
                        if g != i:
                            return '%s: position %r found %r instead of %r in %r' % (what, p, g, i, ref)
                s += x


CASES = [('history', gen, run)]
