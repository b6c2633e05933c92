"""C03 Prioritized buffer keeps data and priorities aligned under its protocol."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = ('every method of the real PrioritizedBuffer for every content, capacity, sample size, mix ratio and draw; the two priority trees by '
              'their contract (discharged under C02)')
TRUSTED = ['contracts of SumTreeQueue and MinTreeQueue (discharged under C02)',
           'np.random.binomial(n, p) yields an integer in [0, n]']
ASSUMPTIONS = ['floating point priorities are treated as real numbers', 'the sum of priorities is positive when a sample is drawn']
PR = 'chainerrl.misc.prioritized'
W = world('base')


class Tree(Obj):
    """Contract of a priority tree queue: a sequence of priorities."""

    def __init__(self):
        self.P = PList()
        self.mark = PList()
        self.writes = 0
        core.CTX.trees.append(self)

    def append(self, v):
        self.P.append(v)

    def popleft(self):
        if self.P.s.n == 0:
            raise AssertionError
        return self.P.popleft()

    def __setitem__(self, i, v):
        draw_guard()
        check(And(i >= 0, i < self.P.s.n), 'priorities are assigned inside the queue')
        self.P.s = self.P.s.update(i, v)
        self.mark.s = self.mark.s.update(i, self.writes)
        self.writes = self.writes + 1


class SumT(Tree):
    def sum(self):
        if self.P.s.n == 0:
            return 0.0
        t = fresh_real('total')
        assume(t > 0)
        core.CTX.totals.append((t, self.P.s))
        return t

    def _take(self, n, remove, name):
        draw_guard()
        core.CTX.draws.append((name, n, remove))
        P0 = self.P.s
        f, h = fun(name, z3.IntSort(), z3.IntSort()), fun(name + '_inv', z3.IntSort(), z3.IntSort())
        i = z3.Int('pv_take')
        body = z3.And(f(i) >= 0, f(i) < zint(P0.n), h(f(i)) == i)
        if name == 'prioritized':
            body = z3.And(body, zreal(P0.at(mk(f(i)))) > 0)
        core.CTX.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(n)), body), patterns=[f(i)]))
        ix = Seq(n=n, at=lambda i: mk(f(zint(i))))
        vals = Seq(n=n, at=lambda i: P0.at(ix.at(i)))
        if remove:
            taken = lambda i: And(mk(h(zint(i))) >= 0, mk(h(zint(i))) < n, mk(f(h(zint(i))) == zint(i)))
            self.P.s = Seq(n=P0.n, at=lambda i: ite(taken(i), 0, P0.at(i)))
        return PList(seq=ix), PList(seq=vals)

    def uniform_sample(self, n, remove):
        check(And(n >= 0, n <= self.P.s.n), 'uniform draws of an existing number of elements')
        return self._take(n, remove, 'uniform')

    def prioritized_sample(self, n, remove):
        check(n >= 0, 'non-negative number of draws')
        return self._take(n, remove, 'prioritized')


class MinT(Tree):
    def min(self):
        if self.P.s.n == 0:
            return float('inf')
        t = fresh_real('least')
        assume(t > 0)
        core.CTX.leasts.append((t, self.P.s))
        return t


def setup(wait=None, capped=None):
    c = ctx()
    c.trees, c.draws, c.totals, c.leasts = [], [], [], []
    m = W.load(PR)
    patch(m, 'SumTreeQueue', SumT)
    patch(m, 'MinTreeQueue', MinT)
    cap = None if (capped is False or choose(2) == 0) else fresh_int('capacity', 1)
    if wait is None:
        wait = choose(2) == 0
    mp = fresh_real('max_priority')
    assume(mp > 0)
    b = m.PrioritizedBuffer(capacity=cap, wait_priority_after_sampling=wait, initial_max_priority=mp)
    check(same(b.data.s.n, 0), 'a new buffer is empty')
    check(not b.flag_wait_priority, 'a new buffer waits for nothing')
    check(same(b.max_priority, mp), 'the initial maximum is the configured one')
    D = sym_seq('data')
    n = D.n
    if cap is not None:
        assume(n <= cap)
    # alignment: both trees and the data have the same length
    Ps, Pm = sym_seq('Psum', 'real', n=n), sym_seq('Pmin', 'real', n=n)
    b.data.s = D
    b.priority_sums.P.s, b.priority_mins.P.s = Ps, Pm
    for t in (b.priority_sums, b.priority_mins):
        t.mark.s = Seq(n=n, at=lambda i: -1)
    root('b', b)
    return b, D, Ps, Pm, n, cap, mp, wait


def p_append():
    b, D, Ps, Pm, n, cap, mp, wait = setup()
    x = fresh_obj('x')
    p = None if choose(2) == 0 else fresh_real('priority')
    if p is None:
        b.append(x)
    else:
        b.append(x, priority=p)
    q = mp if p is None else p
    full = cap is not None and n >= cap
    if full:
        cover('full')
        D, Ps, Pm = D.slice(1, n), Ps.slice(1, n), Pm.slice(1, n)
    check(seq_same(b.data.s, D.concat(Seq([x]))), 'append adds the value after evicting the oldest of a full buffer')
    check(seq_same(b.priority_sums.P.s, Ps.concat(Seq([q]))), 'append adds its priority in the same place (sums)')
    check(seq_same(b.priority_mins.P.s, Pm.concat(Seq([q]))), 'append adds its priority in the same place (mins)')
    check(same(b.max_priority, mp), 'append does not change the default priority')
    if cap is not None:
        check(b.data.s.n <= cap, 'never more than capacity')
    check(same(heap.pv_len(b), b.data.s.n), 'len is the number of pairs')


def p_popleft():
    b, D, Ps, Pm, n, cap, mp, wait = setup()
    r, v = raises(AssertionError, b.popleft)
    check(Iff(r, n == 0), 'popleft is refused exactly when empty')
    if r:
        return
    cover('popped')
    check(same(v, D.at(0)), 'popleft returns the oldest value')
    check(seq_same(b.data.s, D.slice(1, n)), 'popleft removes the oldest value')
    check(seq_same(b.priority_sums.P.s, Ps.slice(1, n)), 'popleft removes the oldest priority (sums)')
    check(seq_same(b.priority_mins.P.s, Pm.slice(1, n)), 'popleft removes the oldest priority (mins)')


def p_sample(uniform, waiting):
    c = ctx()
    b, D, Ps, Pm, n, cap, mp, wait = setup(waiting)
    k = fresh_int('k', 0)
    if Not(And(k <= n, n >= 1)):
        return
    u = 0
    nu = 0
    if uniform:
        u = fresh_real('uniform_ratio')
        assume(And(u > 0, u <= 1))
        nu = fresh_int('n_uniform', 0)
        assume(nu <= k)

        class R(object):
            def binomial(self, n_, p_, size=None):
                check(And(same(n_, k), same(p_, u)), 'the number of uniform draws is binomial(n, uniform_ratio)')
                return nu
        c.np_random = R()
    pending = fresh_bool('pending')
    b.flag_wait_priority = pending

    def inv(L):
        out = {}
        try:
            P = L.get('R.b.priority_sums.P.s')
            mark = L.get('R.b.priority_sums.mark.s')
            un = L.get('L.un_indices')
        except KeyError:
            return out
        if not isinstance(un, PList):
            un = to_seq(un)
        else:
            un = un.s
        out['len'] = And(same(P.n, n), same(mark.n, n))
        out['done'] = forall(0, L.k, lambda j: And(un.at(j) >= 0, un.at(j) < n, same(P.at(un.at(j)), Ps.at(un.at(j)))))
        out['rest'] = forall(0, n, lambda i: Or(
            And(same(mark.at(i), -1), Or(same(P.at(i), Ps.at(i)), same(P.at(i), 0))),
            And(mark.at(i) >= 0, same(P.at(i), Ps.at(i)))))
        return out
    c.invfuns.append(inv)
    r, v = raises(AssertionError, lambda: b.sample(k) if not uniform else b.sample(k, uniform_ratio=u))
    check(Iff(r, And(wait, pending)), 'sampling while waiting for priorities is refused')
    if r:
        check(And(seq_same(b.priority_sums.P.s, Ps), seq_same(b.data.s, D)), 'a refused sample changes nothing')
        return
    vals, probs, minp = v
    ix, vals, probs = to_seq(b.sampled_indices), to_seq(vals), to_seq(probs)
    check(And(same(vals.n, k), same(probs.n, k), same(ix.n, k)), 'exactly n values, probabilities and pending positions')
    check(b.flag_wait_priority is True or same(b.flag_wait_priority, True), 'priorities are pending')
    total = c.totals[0][0]
    check(c.totals[0][1] is Ps, 'the total is taken before anything is removed')
    j, j2 = fresh_int('j', 0), fresh_int('j2', 0)
    if And(j < k, j2 < k):
        cover('sampled')
        check(And(ix.at(j) >= 0, ix.at(j) < n), 'sampled positions exist')
        check(same(vals.at(j), D.at(ix.at(j))), 'values come from their positions')
        check(Implies(Not(same(j, j2)), Not(same(ix.at(j), ix.at(j2)))), 'sampled positions are pairwise distinct')
        check(same(probs.at(j), u / n + (1 - u) * Ps.at(ix.at(j)) / total), 'probability of each sampled value')
    check(c.leasts[0][1] is Pm, 'the smallest priority is read from all pairs')
    check(same(minp, (u / n if uniform else 0) + (1 - u) * (c.leasts[0][0] / total)), 'minimum probability')
    check(seq_same(b.data.s, D), 'sampling keeps the data')
    check(seq_same(b.priority_mins.P.s, Pm), 'sampling keeps the other priorities')
    kinds = [d[0] for d in c.draws]
    check(kinds == (['uniform', 'prioritized'] if uniform else ['prioritized']), 'one draw of each kind')
    if uniform:
        check(same(c.draws[0][1], nu), 'number of uniform draws')
    check(same(c.draws[-1][1], k - nu), 'number of prioritized draws')
    if not wait and not uniform:
        check(seq_same(b.priority_sums.P.s, Ps), 'without waiting every priority is kept')


def p_sample_prio_wait(): p_sample(False, True)
def p_sample_prio_nowait(): p_sample(False, False)
def p_sample_uniform_wait(): p_sample(True, True)


def p_sample_uniform_nowait(): p_sample(True, False)


class Def(object):
    """value of a location at every iteration of the loop, as a function of the iteration count"""

    def __init__(self, path, make):
        self.path, self.f = path, make

    def matches(self, p):
        return p == self.path

    def make(self, L, p):
        return self.f(L.k)


def set_priority(wait):
    b, D, Ps, Pm, n, cap, mp, wait = setup(wait, False)
    k = fresh_int('sampled', 0)
    pending = fresh_bool('pending')
    f, h = fun('ix', z3.IntSort(), z3.IntSort()), fun('ix_inv', z3.IntSort(), z3.IntSort())

    def ix_at(i):
        v = mk(f(zint(i)))
        core.CTX.add(zbool(Implies(And(i >= 0, i < k), And(v >= 0, v < n, mk(h(f(zint(i)))) == i))))
        return v
    ix = Seq(n=k, at=ix_at)
    pr = sym_seq('given', 'real')
    b.sampled_indices = PList(seq=ix)
    b.flag_wait_priority = pending
    g = fun('maxupto', z3.IntSort(), z3.RealSort())

    def maxupto(j):
        """mp and the first j given priorities: their maximum"""
        t = mk(g(zint(j)))
        p = mk(g(zint(j - 1)))
        x = pr.at(j - 1)
        core.CTX.add(zbool(And(Implies(same(j, 0), same(t, mp)), Implies(j > 0, same(t, ite(x > p, x, p))))))
        return t

    def given(P0):
        def f_(j):
            def at(i):
                q = mk(h(zint(i)))
                return ite(And(q >= 0, q < j, same(ix.at(q), i)), pr.at(q), P0.at(i))
            return Seq(n=n, at=at)
        return f_
    ctx().defs += [Def('R.b.priority_sums.P.s', given(Ps)), Def('R.b.priority_mins.P.s', given(Pm)),
                   Def('R.b.max_priority', maxupto)]
    r, _ = raises(AssertionError, lambda: b.set_last_priority(PList(seq=pr)))
    w = z3.Int(core.CTX.name_('fneg'))
    core.CTX.in_quant += 1
    nonpos = zbool(pr.at(mk(w)) <= 0)
    core.CTX.in_quant -= 1
    bad = mk(z3.Exists([w], z3.And(w >= 0, w < zint(pr.n), nonpos)))
    if r:
        cover('refused')
        check(And(seq_same(b.priority_sums.P.s, Ps), seq_same(b.priority_mins.P.s, Pm), same(b.max_priority, mp)),
              'refused priorities change nothing')
        check(Or(And(wait, Not(pending)), Not(same(pr.n, k)), bad),
              'priorities are refused only when none are pending, or they are of the wrong number or not positive')
        return
    cover('accepted')
    check(same(pr.n, k), 'priorities in the wrong number are refused')
    check(Or(not wait, pending), 'priorities that are not awaited are refused')
    check(Not(bad), 'non-positive priorities are refused')
    a = fresh_int('a', 0)
    i = fresh_int('i', 0)
    for nm, P0 in (('sums', Ps), ('mins', Pm)):
        P = getattr(b, 'priority_' + nm).P.s
        check(same(P.n, n), 'no priority is added or lost')
        if a < k:
            check(same(P.at(ix.at(a)), pr.at(a)), 'each priority goes to its own sampled position (%s)' % nm)
        if i < n:
            q = mk(h(zint(i)))
            check(Or(And(q >= 0, q < k, same(ix.at(q), i)), same(P.at(i), P0.at(i))), 'no other priority changes (%s)' % nm)
    check(same(b.max_priority, maxupto(k)), 'the default priority is the largest one configured or given back')
    check(same(b.flag_wait_priority, False), 'nothing is pending any more')
    check(seq_same(b.data.s, D), 'the data are kept')


def p_set_priority_wait(): set_priority(True)
def p_set_priority_nowait(): set_priority(False)


PROOFS = [p_append, p_popleft, p_sample_prio_wait, p_sample_prio_nowait, p_sample_uniform_wait, p_sample_uniform_nowait, p_set_priority_wait,
          p_set_priority_nowait]


# ---- companion
def gen(rng):
    ops = []
    for _ in range(rng.randrange(1, 40)):
        x = rng.random()
        if x < 0.5:
            ops.append(['append', None if rng.random() < 0.6 else rng.randrange(1, 64) / 8])
        elif x < 0.58:
            ops.append(['popleft'])
        elif x < 0.9:
            ops.append(['sample', rng.randrange(1, 6), rng.choice([0, 0, 0, 0.25, 0.5, 1.0]),
                        [rng.randrange(1, 64) / 8 for _ in range(6)]])
        elif x < 0.95:
            ops.append(['again'])
        else:
            ops.append(['wrong', rng.choice(['twice', 'number', 'nonpos'])])
    return dict(ops=ops, cap=rng.choice([None, None, 1, 2, 3, 5, 8]), wait=rng.random() < 0.6, seed=rng.randrange(2 ** 31),
                maxp=rng.choice([None, None, 0.5, 2.0]))


def run(c):
    import numpy as np
    from chainerrl.misc.prioritized import PrioritizedBuffer
    np.random.seed(c['seed'])
    kw = {} if c['maxp'] is None else dict(initial_max_priority=c['maxp'])
    b = PrioritizedBuffer(capacity=c['cap'], wait_priority_after_sampling=c['wait'], **kw)
    mp = 1.0 if c['maxp'] is None else c['maxp']
    ref = []
    t = 0

    def refused(f):
        try:
            f()
        except AssertionError:
            return True
        return False

    def inspect(what):
        if len(b) != len(ref):
            return '%s: len %d, expected %d' % (what, len(b), len(ref))
        if list(b.data) != [v for v, _ in ref]:
            return '%s: data %r, expected %r' % (what, list(b.data), ref)
        if abs(b.priority_sums.sum() - sum(p for _, p in ref)) > 1e-9:
            return '%s: priority sum %r, expected %r' % (what, b.priority_sums.sum(), ref)
        if ref and b.priority_mins.min() != min(p for _, p in ref):
            return '%s: priority min %r, expected %r' % (what, b.priority_mins.min(), ref)
    for n, op in enumerate(c['ops']):
        what = 'after op %d %r' % (n, op)
        if op[0] == 'append':
            b.append(t, **({} if op[1] is None else dict(priority=op[1])))
            if c['cap'] is not None and len(ref) == c['cap']:
                del ref[0]
            ref.append((t, mp if op[1] is None else op[1]))
            t += 1
        elif op[0] == 'popleft':
            if ref:
                if b.popleft() != ref.pop(0)[0]:
                    return '%s: wrong value popped' % what
        elif op[0] == 'sample':
            k = min(op[1], len(ref))
            if not k:
                continue
            u = op[2]
            vals, probs, minp = b.sample(k, uniform_ratio=u) if u or n % 2 else b.sample(k)
            total = sum(p for _, p in ref)
            d = dict(ref)
            if len(vals) != k or len(set(vals)) != k or any(v not in d for v in vals):
                return '%s: sampled %r from %r' % (what, vals, ref)
            if len(probs) != k:
                return '%s: %d probabilities for %d values' % (what, len(probs), k)
            for v, p in zip(vals, probs):
                w = u / len(ref) + (1 - u) * d[v] / total
                if abs(p - w) > 1e-9:
                    return '%s: probability %r of %r, expected %r' % (what, p, v, w)
            w = u / len(ref) + (1 - u) * min(d.values()) / total
            if abs(minp - w) > 1e-9:
                return '%s: minimum probability %r, expected %r' % (what, minp, w)
            if c['wait']:
                if not refused(lambda: b.sample(1)):
                    return '%s: sampling again was not refused' % what
                if not refused(lambda: b.set_last_priority([1.0] * (k + 1))):
                    return '%s: too many priorities were accepted' % what
                if not refused(lambda: b.set_last_priority([1.0] * (k - 1))):
                    return '%s: too few priorities were accepted' % what
                for bad in (0.0, -1.0):
                    if not refused(lambda: b.set_last_priority([1.0] * (k - 1) + [bad])):
                        return '%s: priority %r was accepted' % (what, bad)
            new = op[3][:k]
            if c['wait'] or n % 3:
                b.set_last_priority(new)
                for v, p in zip(vals, new):
                    ref = [(x, p if x == v else q) for x, q in ref]
                mp = max([mp] + new)
                if c['wait'] and not refused(lambda: b.set_last_priority(new)):
                    return '%s: giving back twice was not refused' % what
        elif op[0] == 'again':
            if c['wait'] and not refused(lambda: b.set_last_priority([1.0])):
                return '%s: priorities accepted without a sample' % what
        s = inspect(what)
        if s:
            return s


CASES = [('history', gen, run)]
