"""C08 Sampling without replacement."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = 'sample_n_k and random_subseq for all n, k, lengths and draws; np.random.choice / randint by contract'
TRUSTED = ['np.random.choice(n, k) yields integers in [0, n), pairwise distinct with replace=False',
           'np.random.randint(lo, hi) yields an integer in [lo, hi)']
RND = 'chainerrl.misc.random'
RB = 'chainerrl.replay_buffer'
W = world('base')


def p_sample_n_k():
    ctx().np_random = Draws()
    f = W.load(RND).sample_n_k
    n, k = fresh_int('n'), fresh_int('k')

    def inv(L):
        out = {}
        try:
            sel = L.get('L.selected.m.s')
        except KeyError:
            sel = None
        try:
            r = L.get('L.result.a')
        except KeyError:
            return out
        if not hasattr(r, 'at'):
            return out
        # everything drawn is in range
        out['in range'] = forall(0, 2 * k, lambda i: And(r.at(i) >= 0, r.at(i) < n))
        if isinstance(sel, Seq):
            m = sel.n
            out['distinct'] = forall2(m, lambda i, j: Not(same(r.at(i), r.at(j))))
            out['selected'] = True if same(m, 0) is True else forall(0, m, lambda i: same(r.at(i), sel.at(i)))
            try:
                i, x = L.get('L.i'), L.get('L.x')
                if L.n is None:
                    out['x'] = And(same(r.at(i), x), x >= 0, x < n)
            except KeyError:
                pass
        out['shape'] = same(r.shape[0], 2 * k)
        return out
    ctx().invfuns.append(inv)
    r, v = raises(ValueError, lambda: f(n, k))
    check(Iff(r, Or(k < 0, k > n)), 'ValueError exactly for sizes outside [0, n]')
    if r:
        return
    v = to_seq(v)
    check(same(v.n, k), 'exactly k elements')
    a = fresh_int('a', 0)
    assume(a < k)
    cover('drawn')
    x = v.at(a)
    check(And(x >= 0, x < n), 'every element is in range')
    b = fresh_int('b', 0)
    assume(And(b < k, Not(same(a, b))))
    check(Not(same(x, v.at(b))), 'elements are pairwise distinct')


def p_random_subseq():
    D = ctx().np_random = Draws()
    f = W.load(RB).random_subseq
    s = sym_seq('s')
    L = fresh_int('L', 0)
    seq = PList(seq=s)
    r = to_seq(f(seq, L))
    if s.n <= L:
        check(seq_same(r, s), 'a sequence not longer than L is returned whole')
        return
    cover('cut')
    check(same(r.n, L), 'exactly L elements')
    check(len(D.randints) == 1, 'one draw')
    lo, hi, i = D.randints[0]
    check(seq_same(r, s.slice(i - lo, i - lo + L)), 'the piece is contiguous and starts at the drawn position')
    check(same(hi - lo, s.n - L + 1), 'every start position is possible')
    check(seq_same(seq.s, s), 'the sequence itself is unchanged')


PROOFS = [p_sample_n_k, p_random_subseq]


# ---- bounded companion
class Scripted(object):
    """Replaces np.random.* draws by adversarial in-contract ones."""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        if not np.isscalar(a):
            pop = list(a)
        else:
            pop = list(range(int(a)))
        if size is None:
            return self.rng.choice(pop)
        if not replace:
            return np.array(self.rng.sample(pop, int(size)), dtype=np.int64)
        if self.mode == 0:
            return np.array([self.rng.choice(pop) for _ in range(int(size))])
        hot = [self.rng.choice(pop) for _ in range(self.rng.choice([1, 2, 3]))]
        return np.array([self.rng.choice(hot) if self.rng.random() < 0.8 else self.rng.choice(pop)
                         for _ in range(int(size))])


def gen_nk(rng):
    n = rng.choice([0, 1, 2, 3, 5, 7, 8, 10, 13, 20, 40, 100])
    k = rng.choice([-1, 0, 1, 2, n // 4, n // 3, n // 3 - 1, n // 2, n - 1, n, n + 1])
    return dict(n=n, k=k, seed=rng.randrange(10 ** 6), mode=rng.choice([0, 1, 1, 2]))


def run_nk(c):
    import numpy as np, random
    from unittest import mock
    from chainerrl.misc.random import sample_n_k
    n, k = c['n'], c['k']
    np.random.seed(c['seed'])
    S = Scripted(random.Random(c['seed']), c['mode'])
    cm = mock.patch('numpy.random.choice', S.choice) if c['mode'] < 2 else mock.patch('numpy.random.seed')
    with cm:
        try:
            r = sample_n_k(n, k)
        except ValueError:
            return None if not 0 <= k <= n else 'ValueError for n=%d k=%d' % (n, k)
    if not 0 <= k <= n:
        return 'no ValueError for n=%d k=%d' % (n, k)
    r = [int(x) for x in r]
    if len(r) != k or len(set(r)) != k or any(not 0 <= x < n for x in r):
        return 'sample_n_k(%d, %d) = %r' % (n, k, r)


def gen_sub(rng):
    return dict(n=rng.randrange(0, 9), L=rng.randrange(0, 9), seed=rng.randrange(10 ** 6), tup=rng.random() < 0.3)


def run_sub(c):
    import numpy as np
    from chainerrl.replay_buffer import random_subseq
    np.random.seed(c['seed'])
    seq = list(range(10, 10 + c['n']))
    if c['tup']:
        seq = tuple(seq)
    starts = set()
    L = c['L']
    for _ in range(1 if c['n'] <= L or c['seed'] % 50 else 400):
        r = list(random_subseq(seq, L))
        if c['n'] <= L:
            if r != list(seq):
                return 'short sequence %r cut to %r for L=%d' % (seq, r, L)
        else:
            if len(r) != L:
                return 'piece %r of %r is not %d long' % (r, seq, L)
            if L:
                s = r[0] - 10
                if not 0 <= s or r != list(seq[s:s + L]):
                    return 'piece %r of %r is not contiguous' % (r, seq)
                starts.add(s)
    if c['n'] > L and L and not c['seed'] % 50 and starts != set(range(c['n'] - L + 1)):
        return 'start positions %r never drawn for n=%d L=%d' % (sorted(set(range(c['n'] - L + 1)) - starts), c['n'], L)


CASES = [('sample_n_k', gen_nk, run_nk), ('random_subseq', gen_sub, run_sub)]
