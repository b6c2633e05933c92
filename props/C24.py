"""C24 Splitting sequences for recurrent updates loses and reorders nothing."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = ('any number of sequences of any positive length, any limit and any number of items; an arbitrary piece of the output and its neighbours '
              'are followed')
TRUSTED = ['Python list slicing: a slice of a sequence is the run of its elements between the clamped bounds']
ASSUMPTIONS = ['sequences are not empty', 'grouping: the items of all sequences together are a multiple of the subset size (callers arrange for it)']
PPO = 'chainerrl.agents.ppo'
from pyvc import models, chmodel
W = world('ch', models=lambda: chmodel.add(models.base_models()))


class Piece(loops.Handle):
    """elements [lo, hi) of sequence s"""

    def __pv_len__(self):
        return self.parts[2] - self.parts[1]

    def __pv_bool__(self):
        return self.parts[2] > self.parts[1]

    def __getitem__(self, k):
        s, lo, hi = self.parts
        n = hi - lo
        if not isinstance(k, slice):
            return fun_item(s, lo + ite(k < 0, k + n, k))
        if k.step not in (None, 1):
            raise Unsupported('slice step')

        def cl(x, d):
            if x is None:
                return d
            x = ite(x < 0, x + n, x)
            return ite(x < 0, 0, ite(x > n, n, x))
        a, b = cl(k.start, 0), cl(k.stop, n)
        b = ite(b < a, a, b)
        return Piece(s, lo + a, lo + b)

    def __pv_seq__(self):
        s, lo, hi = self.parts
        return Seq(n=hi - lo, at=lambda i: fun_item(s, lo + i))


def fun_item(s, i):
    return fun_obj('item', z3.IntSort(), z3.IntSort())(s, i)


class Input(Obj):
    def __init__(self):
        c = ctx()
        self._pvghost_len = z3.Function(c.name_('len'), z3.IntSort(), z3.IntSort())
        self._pvghost_off = z3.Function(c.name_('off'), z3.IntSort(), z3.IntSort())
        self.n = fresh_int('n', 0)

    def len(self, s):
        t = mk(self._pvghost_len(zint(s)))
        if not ctx().in_quant:
            assume(t > 0)
        return t

    def off(self, s):
        """number of elements before sequence s"""
        f = self._pvghost_off
        if not ctx().in_quant:
            assume(And(mk(f(zint(0)) == 0), mk(f(zint(s) + 1) == f(zint(s)) + zint(self.len(s)))))
        return mk(f(zint(s)))

    def all(self):
        return PList(seq=Seq(n=self.n, at=heap.memo_at(lambda s: Piece(s, 0, self.len(s)))))


def lists(L):
    """the lists of pieces that the loop changes"""
    for nm, v in L.loop.frame0.items():
        if isinstance(v, PList):
            try:
                s = L.get('L.%s.s' % nm)
            except KeyError:
                continue
            yield s


def grown(L):
    """the lists that were empty at the start of the loop"""
    for nm, v in L.loop.frame0.items():
        e = L.loop.S0.get('L.%s.s' % nm) if isinstance(v, PList) else None
        if e is not None and e.items == ():
            yield L.get('L.%s.s' % nm)


def p_limit():
    I = root('I', Input())
    m = fresh_int('max_len', 1)
    i = fresh_int('i', 0)

    def good(p):
        """a piece of the right size"""
        s, lo, hi = p.parts
        n = I.len(s)
        return And([s >= 0, s < I.n, lo >= 0, lo < hi, hi <= n, hi - lo <= m, Or(same(hi, n), same(hi - lo, m))])

    def link(p, q):
        """q follows p"""
        return ite(same(p.parts[2], I.len(p.parts[0])), And(same(q.parts[0], p.parts[0] + 1), same(q.parts[1], 0)),
                   And(same(q.parts[0], p.parts[0]), same(q.parts[1], p.parts[2])))

    def facts(s, k):
        p, q, r, z = s.at(i), s.at(i + 1), s.at(s.n - 1), s.at(0)
        return {'piece': Implies(i < s.n, good(p)), 'order': Implies(i + 1 < s.n, link(p, q)),
                'last': Implies(s.n > 0, And(same(r.parts[0], k - 1), same(r.parts[2], I.len(k - 1)))),
                'first': Implies(s.n > 0, And(same(z.parts[0], 0), same(z.parts[1], 0))), 'some': Implies(k > 0, s.n > 0), 'none': Implies(same(k, 0), same(s.n, 0))}

    def inv(L):
        d = {}
        if L.loop.seq is None:
            for p, v in L.loop.S0.items():
                if isinstance(v, Piece) and p.startswith('L.') and p.count('.') == 1:
                    d['left ' + p] = v.parts[1] + L.k * m < v.parts[2]
            return d
        for s in lists(L):
            if s.items is not None and not s.items:
                d.update({nm: True for nm in ('piece', 'order', 'last', 'first', 'none')}, some=same(L.k, 0))
                continue
            if isinstance(s.at(i), Piece):
                d.update(facts(s, L.k))
        return d
    ctx().invfuns.append(inv)

    def mkdef(L, p):
        v = L.loop.S0[p]
        if not isinstance(v, Piece) or L.loop.seq is not None:
            raise KeyError(p)
        return Piece(v.parts[0], v.parts[1] + L.k * m, v.parts[2])
    ctx().defs.append(loops.Def(lambda p: p.startswith('L.') and p.count('.') == 1, mkdef))
    r = W.load(PPO)._limit_sequence_length(I.all(), m)
    s = to_seq(r)
    if same(I.n, 0):
        check(same(s.n, 0), 'nothing from nothing')
        return
    for nm, f in facts(s, I.n).items():
        check(f, 'limit: ' + dict(piece='pieces are not empty, at most the limit, and all but the last of a sequence exactly the limit',
                                  order='every piece follows the one before it', last='the last piece ends the last sequence',
                                  first='the first piece begins the first sequence', some='nothing is lost', none='nothing is invented')[nm])


class Sink(Obj):
    """receives the subsets; (cs, cl) is where the next one has to begin"""

    def __init__(self, I, n_items):
        self.cs = self.cl = 0
        self._pvghost_I, self._pvghost_n = I, n_items

    def append(self, subset):
        heap.pure_guard('yield')
        I, n = self._pvghost_I, self._pvghost_n
        s = to_seq(subset)
        check(s.n > 0, 'subsets are not empty')
        p = s.at(0)
        check(And(same(p.parts[0], self.cs), same(p.parts[1], self.cl)), 'a subset begins where the one before it ended')
        i = fresh_int('i', 0)
        if i + 1 < s.n:
            p, q = s.at(i), s.at(i + 1)
            check(And(same(p.parts[2], I.len(p.parts[0])), same(q.parts[0], p.parts[0] + 1), same(q.parts[1], 0)),
                  'only the last sequence of a subset is split, and order is kept')
            check(p.parts[2] > p.parts[1], 'pieces are not empty')
        r = s.at(s.n - 1)
        a, lo, hi = r.parts
        check(And(hi > lo, hi <= I.len(a), a < I.n), 'the last piece is not empty')
        # the subset is a run of consecutive elements, so this is the number of its items
        check(same(I.off(a) + hi - (I.off(self.cs) + self.cl), n), 'exactly the given number of items')
        full = same(hi, I.len(a))
        self.cs = ite(full, a + 1, a)
        self.cl = ite(full, 0, hi)


def p_group():
    I = root('I', Input())
    n = fresh_int('n_items', 1)
    E = ctx().yield_sink = root('E', Sink(I, n))

    def stack(L, p):
        v = L.loop.S0[p]
        try:
            cs, cl = L.get('R.E.cs'), L.get('R.E.cl')
        except KeyError:
            raise KeyError(p)
        N = I.n - cs
        return Seq(n=N, at=lambda j: Piece(I.n - 1 - j, ite(same(j, N - 1), cl, 0), I.len(I.n - 1 - j)))
    ctx().defs.append(loops.Def(lambda p: p.endswith('.s'), stack))

    def inv(L):
        d = {}
        try:
            cs, cl = L.get('R.E.cs'), L.get('R.E.cl')
            if 'R.E.cs' not in L.loop.rec.mods:
                raise KeyError('cs')
            d['position'] = And([cs >= 0, cs <= I.n, cl >= 0, Implies(cs < I.n, cl < I.len(cs)), Implies(same(cs, I.n), same(cl, 0))])
            return d
        except KeyError:
            pass
        # the inner loop: items counted so far
        for nm in L.loop.names:
            try:
                v = L.get('L.' + nm)
            except KeyError:
                continue
            if core.isintlike(v) and core.is_sym(v) or v == 0 and isinstance(v, int):
                end = I.off(E.cs + L.k)
                d['needed'] = Implies(L.k > 0, I.off(E.cs + L.k - 1) - (I.off(E.cs) + E.cl) < n)
                for q in grown(L):
                    d['sum ' + nm] = same(0 if q.items == () else heap.pv_sum(PList(seq=q.map(heap.pv_len))), v)
                d['count ' + nm] = same(v, ite(same(L.k, 0), 0, end - (I.off(E.cs) + E.cl)))
        return d
    ctx().invfuns.append(inv)
    try:
        W.load(PPO)._yield_subset_of_sequences_with_fixed_number_of_items(I.all(), n)
    except IndexError:
        cover('ran out')
        # the assumption: never so when the items left are a multiple of n
        check(I.off(I.n) - (I.off(E.cs) + E.cl) < n, 'runs out only when fewer items than needed are left')
        check(E.cs < I.n, 'runs out only when some are left')
        return
    cover('done')
    check(same(E.cs, I.n), 'nothing is lost')


PROOFS = [p_limit, p_group]


# ---- companion
def gen(rng):
    lens = [rng.choice([1, 1, 2, 3, 4, 5, 7, 12, 20]) for _ in range(rng.randrange(0, 8))]
    return {'lens': lens, 'max_len': rng.choice([1, 2, 3, 4, 5, 8, 100]), 'k': rng.randrange(1, 50), 'limit_first': rng.random() < .5, 'tuple': rng.random() < .2}


def run(c):
    from chainerrl.agents import ppo
    it = iter(range(10 ** 6))
    seqs = [[{'id': next(it)} for _ in range(n)] for n in c['lens']]
    items = [x for s in seqs for x in s]
    copy = [list(s) for s in seqs]
    r = ppo._limit_sequence_length(tuple(seqs) if c['tuple'] else seqs, c['max_len'])
    want = [s[i:i + c['max_len']] for s in copy for i in range(0, len(s), c['max_len'])]
    if len(r) != len(want) or any(len(x) != len(y) or any(a is not b for a, b in zip(x, y)) for x, y in zip(r, want)):
        return 'limiting %r to %d gives %r instead of %r' % (c['lens'], c['max_len'], [[t['id'] for t in s] for s in r], [[t['id'] for t in s] for s in want])
    if seqs != copy:
        return 'limiting modifies its input'
    src = r if c['limit_first'] else seqs
    total = len(items)
    sizes = [d for d in range(1, total + 1) if total % d == 0]
    n = sizes[c['k'] % len(sizes)] if sizes else 1 + c['k'] % 5
    src = [list(s) for s in src]
    cp = [list(s) for s in src]
    subs = list(ppo._yield_subset_of_sequences_with_fixed_number_of_items(src, n))
    if [list(s) for s in src] != cp:
        return 'grouping modifies its input'
    what = 'grouping %r by %d' % ([len(s) for s in cp], n)
    exp, i, off, todo = [], 0, 0, 0
    for _ in range(total // n):
        sub, left = [], n
        while left:
            take = min(left, len(cp[i]) - off)
            sub.append(cp[i][off:off + take])
            left -= take
            off += take
            if off == len(cp[i]):
                i, off = i + 1, 0
        exp.append(sub)
    if len(subs) != len(exp):
        return '%s gives %d subsets' % (what, len(subs))
    for a, b in zip(subs, exp):
        if [[t['id'] for t in s] for s in a] != [[t['id'] for t in s] for s in b]:
            return '%s gives %r where %r is right' % (what, [[t['id'] for t in s] for s in a], [[t['id'] for t in s] for s in b])
    return None


CASES = [('sequences', gen, run)]
