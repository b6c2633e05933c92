"""C06 Priorities from errors and importance weights follow the published formulas."""
from props.lib import *
from pyvc import npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('PriorityWeightError and both prioritized replay buffers for every error, probability list and configuration; the prioritized '
              'buffer by its contract (discharged under C03)')
TRUSTED = ['contract of PrioritizedBuffer (discharged under C03)', 'a ** b is an uninterpreted function with the laws of powers']
ASSUMPTIONS = ['numbers are mathematical reals', 'errors + eps is positive whenever alpha is not an integer (clipped errors are not negative)',
               'probabilities are positive']
RB = 'chainerrl.replay_buffers.prioritized'
EB = 'chainerrl.replay_buffers.prioritized_episodic'
W = world('base')
P = core.power


class Mem(Obj):
    """contract of PrioritizedBuffer: a sized store; sampling yields experiences, probabilities and the minimum probability"""

    def __init__(self, capacity=None, wait_priority_after_sampling=True, initial_max_priority=1.0):
        self.n = fresh_int('size', 1)
        self.probs, self.minp = None, None
        self.asked = self.samples = self.sets = 0
        self.ratio = None
        self.got = None
        self.w = None
        self.j = None
        self.lists = True
        self.capacity, self.wait = capacity, wait_priority_after_sampling

    def __len__(self):
        return self.n

    def sample(self, n, uniform_ratio=0):
        heap.pure_guard('sample')
        self.samples = self.samples + 1
        self.asked, self.ratio = n, uniform_ratio
        self.probs = ps = probs('P', n)
        self.minp = fresh_real('min_prob')
        assume(self.minp > 0)
        return PList(seq=Seq(n=n, at=heap.memo_at(lambda i: Exp(self, i)))), PList(seq=ps), self.minp

    def set_last_priority(self, ps):
        heap.pure_guard('set_last_priority')
        self.sets = self.sets + 1
        self.got = ps


class Exp(loops.Handle):
    """sampled experience number i: a non-empty list of transitions"""

    def __getitem__(self, k):
        if not same(k, 0):
            raise Unsupported('other transitions of an experience')
        return First(*self.parts)

    def __len__(self):
        return 1


class First(loops.Handle):
    """its first transition"""

    def __setitem__(self, k, v):
        heap.pure_guard('transition')
        check(k == 'weight', 'only the weight is written into sampled experiences')
        G, i = self.parts
        G = ctx().roots['G']
        hit = same(i, G.j)
        G.w = ite(hit, v, G.w)
        G.nw = G.nw + ite(hit, 1, 0)


def probs(nm, n):
    s = sym_seq(nm, 'real', n=n)
    raw = s.at

    def at(i):
        v = raw(i)
        if not core.CTX.in_quant:
            assume(Implies(And(i >= 0, i < n), v > 0))
        return v
    return Seq(n=n, at=at)


def conf(**k):
    al, b0, eps = fresh_real('alpha'), fresh_real('beta0'), fresh_real('eps')
    assume(And(al >= 0, b0 >= 0, b0 <= 1, eps > 0))
    steps = None if choose(2) else fresh_real('betasteps')
    if steps is not None:
        assume(steps > 0)
    lo = None if choose(2) else fresh_real('error_min')
    hi = None if choose(2) else fresh_real('error_max')
    if lo is not None and hi is not None:
        assume(lo <= hi)
    d = dict(alpha=al, beta0=b0, betasteps=steps, eps=eps, error_min=lo, error_max=hi)
    d.update(k)
    return d


def clipped(e, c):
    if c['error_min'] is not None:
        e = ite(e < c['error_min'], c['error_min'], e)
    if c['error_max'] is not None:
        e = ite(e > c['error_max'], c['error_max'], e)
    return e


def errors():
    s = sym_seq('error', 'real', lo=1)
    k = choose(3)
    return s, [PList(seq=s), N.Arr((s.n,), s.at, 'f'), PList(seq=s)][k]


def check_priorities(ps, s, c):
    x = to_seq(ps)
    j = fresh_int('j', 0)
    check(same(x.n, s.n), 'one priority per error')
    if j < s.n:
        check(same(x.at(j), P(clipped(s.at(j), c) + c['eps'], c['alpha'])), 'the priority of an error is (clip(error) + eps) ** alpha')
        cover('priority')


def next_beta(b, c):
    add = 0 if c['betasteps'] is None else (1 - c['beta0']) / c['betasteps']
    return ite(b + add > 1, 1, b + add)


def base(**k):
    c = conf(**k)
    o = W.load(RB).PriorityWeightError(c['alpha'], c['beta0'], c['betasteps'], c['eps'], k.get('norm', True), c['error_min'], c['error_max'])
    return o, c


def p_priority():
    o, c = base()
    s, es = errors()
    b0 = o.beta
    check_priorities(o.priority_from_errors(es), s, c)
    check(same(o.beta, b0), 'priorities do not anneal beta')


def _weights(norm):
    o, c = base(norm=norm)
    check(same(o.beta, c['beta0']), 'beta starts at beta0')
    b = fresh_real('beta')
    assume(And(b >= 0, b <= 1))
    o.beta = b
    n, N_ = fresh_int('k', 1), fresh_int('N', 1)
    ps = probs('P', n)
    minp = fresh_real('min_prob')
    assume(minp > 0)
    o.memory = Obj()
    type_len(o, N_)
    w = to_seq(o.weights_from_probabilities(PList(seq=ps), minp))
    check(same(w.n, n), 'one weight per probability')
    j = fresh_int('j', 0)
    if j < n:
        if norm in (True, 'batch'):
            m = N.np_min(PList(seq=ps))
            a = fresh_int('a', 0)
            if a < n:
                check(m <= ps.at(a), 'model: the minimum is a lower bound')
            check(same(w.at(j), P(ps.at(j) / m, -b)), 'weights are (P / batch minimum) ** -beta')
        elif norm == 'memory':
            check(same(w.at(j), P(ps.at(j) / minp, -b)), 'weights are (P / memory minimum) ** -beta')
        else:
            check(same(w.at(j), P(N_ * ps.at(j), -b)), 'weights are (N * P) ** -beta')
        cover('weight')
    check(same(o.beta, next_beta(b, c)), 'beta grows by (1 - beta0) / betasteps and never exceeds 1')
    check(And(o.beta >= b, o.beta <= 1), 'beta never exceeds 1')


class Sized(Obj):
    def __len__(self):
        return self.n


def type_len(o, n):
    o.memory = Sized(n=n)


def p_weights_true(): _weights(True)
def p_weights_batch(): _weights('batch')
def p_weights_memory(): _weights('memory')
def p_weights_off(): _weights(False)


def buffer(norm):
    """the real replay buffer over a prioritized memory under contract"""
    m = W.load(RB)
    patch(m, 'PrioritizedBuffer', Mem)
    c = conf()
    cap = None if choose(2) else fresh_int('capacity', 1)
    b = m.PrioritizedReplayBuffer(capacity=cap, normalize_by_max=norm, **c)
    check(same(b.memory.capacity, cap) and b.memory.wait is True, 'the memory has the configured capacity and waits for priorities')
    M = root('M', b.memory)
    return b, c, M


def weight_at(w, ps, j, minp, n, b, norm, what):
    if norm == 'memory':
        want = P(ps.at(j) / minp, -b)
    elif norm:
        want = P(ps.at(j) / N.np_min(PList(seq=ps)), -b)
    else:
        want = P(n * ps.at(j), -b)
    check(same(w, want), what)


def _sample(norm):
    b, c, M = buffer(norm)
    check(same(b.beta, c['beta0']), 'beta starts at beta0')
    b.beta = be = fresh_real('beta')
    assume(And(be >= 0, be <= 1))
    n = fresh_int('n', 1)
    assume(n <= M.n)
    j = fresh_int('j', 0)
    assume(j < n)
    G = root('G', Obj(j=j, w=fresh_real('w0'), nw=0))
    ctx().invfuns.append(lambda L: dict(
        never=Implies(L.k <= j, same(L.get('R.G.nw'), 0)), after=Implies(L.k > j, same(L.get('R.G.nw'), 1))))
    ctx().invfuns.append(lambda L: dict(value=Implies(L.k > j, same(L.get('R.G.w'), wj(L)))))

    def wj(L):
        ps = L.get('R.M.probs')
        ps = M.probs
        if norm == 'memory':
            return P(ps.at(j) / M.minp, -be)
        if norm:
            return P(ps.at(j) / N.np_min(PList(seq=ps)), -be)
        return P(M.n * ps.at(j), -be)
    got = to_seq(b.sample(n))
    check(And(same(M.samples, 1), same(M.asked, n)), 'one sample of the requested size is drawn')
    check(same(got.n, n) and same(got.at(j), Exp(M, j)), 'the sampled experiences are returned in order')
    check(same(G.nw, 1), 'each sampled experience gets one weight')
    weight_at(G.w, M.probs, j, M.minp, M.n, be, norm, 'each sampled experience carries its own weight')
    check(same(b.beta, next_beta(be, c)), 'beta grows once per sample')
    cover('sample')


def p_sample_batch(): _sample('batch')
def p_sample_memory(): _sample('memory')
def p_sample_off(): _sample(False)


def p_update_errors():
    b, c, M = buffer(True)
    s, es = errors()
    b.update_errors(es)
    check(same(M.sets, 1), 'priorities are given back once')
    check_priorities(M.got, s, c)


def episodic(norm, weights):
    m = W.load(EB)
    patch(m, 'PrioritizedBuffer', Mem)
    c = conf()
    cap = None if choose(2) else fresh_int('capacity', 1)
    u = fresh_real('uniform_ratio')
    assume(And(u >= 0, u <= 1))
    wait = choose(2) == 1
    b = m.PrioritizedEpisodicReplayBuffer(capacity=cap, normalize_by_max=norm, uniform_ratio=u, return_sample_weights=weights,
                                          wait_priority_after_sampling=wait, **c)
    check(b.episodic_memory.wait is wait, 'episodic: waiting as configured')
    return b, c, root('M', b.episodic_memory), u


def _episodes(norm):
    weights = choose(2) == 1
    b, c, M, u = episodic(norm, weights)
    b.beta = be = fresh_real('beta')
    assume(And(be >= 0, be <= 1))
    n = fresh_int('n', 1)
    assume(n <= M.n)
    got = b.sample_episodes(n)
    check(And(same(M.samples, 1), same(M.asked, n), same(M.ratio, u)), 'episodic: one sample with the configured uniform ratio')
    j = fresh_int('j', 0)
    if not weights:
        check(same(to_seq(got).n, n), 'episodic: the sampled episodes are returned')
        check(same(b.beta, be), 'episodic: no annealing without weights')
        return
    check(len(got) == 2, 'episodic: episodes and weights')
    ep, w = to_seq(got[0]), to_seq(got[1])
    check(And(same(ep.n, n), same(w.n, n)), 'episodic: one weight per episode')
    if j < n:
        check(same(ep.at(j), Exp(M, j)), 'episodic: the sampled episodes are returned in order')
        if norm is False:
            size = len(b.memory)
            check(same(w.at(j), P(size * M.probs.at(j), -be)), 'episodic: weights are (N * P) ** -beta')
        else:
            weight_at(w.at(j), M.probs, j, M.minp, None, be, norm, 'episodic: each episode has its own weight')
    check(same(b.beta, next_beta(be, c)), 'episodic: beta grows once per sample')
    cover('episodes')


def p_episodes_batch(): _episodes('batch')
def p_episodes_memory(): _episodes('memory')


def p_episodes_update():
    b, c, M, u = episodic(True, True)
    s, es = errors()
    b.update_errors(es)
    check(same(M.sets, 1), 'episodic: priorities are given back once')
    check_priorities(M.got, s, c)


PROOFS = [p_priority, p_weights_true, p_weights_batch, p_weights_memory, p_weights_off, p_sample_batch, p_sample_memory, p_sample_off,
          p_update_errors, p_episodes_batch, p_episodes_memory, p_episodes_update]


# ---------------------------------------------------------------------------------- concrete companion
def gen(rng):
    ep = rng.random() < 0.4
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append([rng.randint(1, 6), [rng.choice([0.0, 0.25, 0.5, 1.0, 3.0, 7.5, rng.random()]) * (1 if rng.random() < .8 else 4)
                                        for _ in range(6)]])
    lo = rng.choice([None, 0, 0.25])
    return dict(episodic=ep, ops=ops, alpha=rng.choice([0, 0.5, 0.6, 1, 2]), beta0=rng.choice([0.0, 0.4, 0.9, 1.0]),
                betasteps=rng.choice([None, 1, 3, 7.5, 20]), eps=rng.choice([1e-8, 0.01, 1.0]),
                norm=rng.choice([True, 'batch', 'memory', False]), lo=lo, hi=rng.choice([None, 1, 2.5]), num_steps=rng.randint(1, 3),
                cap=rng.choice([None, 4, 30]), n0=rng.randint(1, 12), seed=rng.randrange(2 ** 31), ratio=rng.choice([0, 0, 0.5]),
                arr=rng.random() < 0.5, weights=rng.random() < 0.8)


def run(c):
    import numpy as np
    from chainerrl.replay_buffers import PrioritizedReplayBuffer, PrioritizedEpisodicReplayBuffer
    np.random.seed(c['seed'])
    kw = dict(capacity=c['cap'], alpha=c['alpha'], beta0=c['beta0'], betasteps=c['betasteps'], eps=c['eps'], normalize_by_max=c['norm'],
              error_min=c['lo'], error_max=c['hi'])
    if c['episodic']:
        if c['norm'] is False:
            kw['normalize_by_max'] = 'memory'
        b = PrioritizedEpisodicReplayBuffer(uniform_ratio=c['ratio'],
            return_sample_weights=c['weights'], **kw)
        for i in range(c['n0']):
            b.append(i, 0, 0.0, next_state=i + 1, is_state_terminal=True)
        mem, u = b.episodic_memory, c['ratio']
    else:
        b = PrioritizedReplayBuffer(num_steps=c['num_steps'], **kw)
        for i in range(c['n0']):
            b.append(i, 0, 0.0, next_state=i + 1, is_state_terminal=i % 4 == 3)
        b.stop_current_episode()
        mem, u = b.memory, 0
    norm = kw['normalize_by_max']
    beta = c['beta0']
    log = []
    real = mem.sample
    mem.sample = lambda *a, **k: log.append(real(*a, **k)) or log[-1]
    given = []
    rset = mem.set_last_priority
    mem.set_last_priority = lambda p: (given.append(list(p)), rset(p))
    for t, (n, errs) in enumerate(c['ops']):
        n = min(n, len(mem))
        if abs(b.beta - beta) > 1e-9:
            return 'sample %d: beta %r instead of %r' % (t, b.beta, beta)
        if c['episodic']:
            got = b.sample_episodes(n)
            if c['weights']:
                got, w = got
            else:
                w = None
        else:
            got = b.sample(n)
            w = [e[0]['weight'] for e in got]
        vals, ps, minp = log[-1]
        if [id(x) for x in got] != [id(x) for x in vals]:
            return 'sample %d: the sampled experiences are not returned in order' % t
        for k, p in enumerate(ps if w is not None else ()):
            if norm in (True, 'batch'):
                want = (p / min(ps)) ** -beta
            elif norm == 'memory':
                want = (p / minp) ** -beta
            else:
                want = (len(mem) * p) ** -beta
            if abs(w[k] - want) > 1e-6 * max(1, abs(want)):
                return 'sample %d: weight %r of experience %d with probability %r instead of %r' % (t, w[k], k, p, want)
        if w is not None:
            beta = min(1.0, beta + (0 if c['betasteps'] is None else (1 - c['beta0']) / c['betasteps']))
        errs = errs[:n]
        b.update_errors(np.asarray(errs) if c['arr'] else list(errs))
        for k, e in enumerate(errs):
            x = e
            if c['lo'] is not None:
                x = max(x, c['lo'])
            if c['hi'] is not None:
                x = min(x, c['hi'])
            want = (x + c['eps']) ** c['alpha']
            if len(given[-1]) != n or abs(given[-1][k] - want) > 1e-9 * max(1, want):
                return 'sample %d: priority of error %r: %r instead of %r' % (t, e, given[-1], want)
    return None


CASES = [('weights and priorities', gen, run)]
