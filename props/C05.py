"""C05 Episodic buffers hold whole recent episodes, flat and episodic views agree."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = ('append, stop_current_episode and sampling of the real EpisodicReplayBuffer, and append/stop of the prioritized one, for every number '
              'and length of stored episodes, every current episode and capacity')
TRUSTED = ['representation contract of RandomAccessQueue (discharged under C01), FIFO contract of PrioritizedBuffer (C03)',
           'partial sums of positive episode lengths are monotone (discharged by harness p_lemma_offsets as an induction)']
EM = 'chainerrl.replay_buffers.episodic'
PM = 'chainerrl.replay_buffers.prioritized_episodic'
RB = 'chainerrl.replay_buffer'
W = world('base')
KEYS = ('state', 'action', 'reward', 'next_state', 'next_action', 'is_state_terminal', 'extra')


class Episodes(object):
    """N stored non-empty episodes given by the flat sequence F of all their transitions and offsets off(i)."""

    def __init__(self, name='off'):
        self.N = fresh_int('n_stored', 0)
        self.off = fun(name, z3.IntSort(), z3.IntSort())
        self.T = self._o(self.N)
        assume(And(same(mk(self.off(0)), 0), self.T >= self.N))
        self.flat = sym_seq('stored', 'obj', n=self.T)

    def _o(self, i):
        return mk(self.off(zint(i)))

    def o(self, i):
        a, b = self._o(i), self._o(i + 1)
        f = And(Implies(And(i >= 0, i < self.N), And(a >= i, b >= a + 1, b <= self.T - (self.N - i - 1))),
                Implies(And(i >= 0, i <= self.N), And(a >= i, a <= self.T - (self.N - i))))
        # valid for every integer i (p_lemma_offsets), hence also when i is a Skolem or bound index
        if f is not True:
            core.CTX.add(zbool(f))
        return a

    def episodes(self):
        def at(i):
            a = self.o(i)
            b = self._o(i + 1)
            return PList(seq=Seq(n=b - a, at=lambda j: self.flat.at(a + j)))
        return Seq(n=self.N, at=heap.memo_at(at))


def singles(s):
    return Seq(n=s.n, at=lambda i: PList([s.at(i)]))


def p_lemma_offsets():
    """offsets with positive increments: i <= off(i) <= off(N) - (N - i), by induction upwards and downwards."""
    off = fun('loff', z3.IntSort(), z3.IntSort())
    N, i = fresh_int('N', 0), fresh_int('i', 0)
    assume(i < N)
    o = lambda j: mk(off(zint(j)))
    assume(And(same(o(0), 0), o(i + 1) >= o(i) + 1))
    check(o(0) >= 0, 'offset lemma base')
    check(Implies(o(i) >= i, o(i + 1) >= i + 1), 'offset lemma step up')
    check(o(N) <= o(N) - (N - N), 'offset lemma base at the end')
    check(Implies(o(i + 1) <= o(N) - (N - (i + 1)), o(i) <= o(N) - (N - i)), 'offset lemma step down')


def state(cap):
    E = Episodes()
    rb = W.load(EM).EpisodicReplayBuffer(cap)
    check(And(same(raq_view(rb.memory).n, 0), same(raq_view(rb.episodic_memory).n, 0)), 'a new buffer is empty')
    check(And(same(rb.memory.maxlen, None), same(rb.episodic_memory.maxlen, None)), 'the queues themselves drop nothing')
    rb.memory = make_raq(W, singles(E.flat), None)
    rb.episodic_memory = make_raq(W, E.episodes(), None)
    other = sym_seq('otherep')
    cur = sym_seq('cur')
    for e, s in (('A', cur), ('B', other)):
        l = rb.current_episode[e]
        check(same(l.s.n, 0), 'a new environment has no pending transitions')
        l.s = s
    root('rb', rb)
    return rb, E, cur, other


def stop_post(rb, E, cur, cap, what):
    """flat' = flat ++ cur; stored' = (stored ++ [cur]) minus the d oldest, d least with total <= capacity"""
    N1, T1 = E.N + 1, E.T + cur.n
    flat1 = E.flat.concat(cur)
    eps1 = E.episodes().concat(Seq([PList(seq=cur)]))

    def o1(i):
        return ite(same(i, N1), T1, E.o(i))
    got_e, got_m = raq_view(rb.episodic_memory), raq_view(rb.memory)
    d = N1 - got_e.n
    check(And(d >= 0, d <= N1), what + ': evicted count in range')
    if And(d >= 0, d <= N1):
        check(seq_same(got_e, eps1.slice(d, N1)), what + ': stored episodes are the most recent ones, unchanged, oldest first')
        check(same(got_m.n, T1 - o1(d)), what + ': the flat view has as many transitions as the stored episodes')
        j = fresh_int('j', 0)
        if And(j < got_m.n, same(got_m.n, T1 - o1(d))):
            x = got_m.at(j)
            check(And(same(x.s.n, 1), same(x.s.at(0), flat1.at(o1(d) + j))),
                  what + ': the flat view is the concatenation of the stored episodes')
        if cap is None:
            check(same(d, 0), what + ': nothing is evicted without capacity')
        else:
            check(T1 - o1(d) <= cap, what + ': the number of transitions is within capacity')
            if d > 0:
                cover(what + ' evicts')
                check(T1 - o1(d - 1) > cap, what + ': no more episodes than needed are evicted')


def evict_inv(E, cur, cap):
    def o1(i):
        return ite(same(i, E.N + 1), E.T + cur.n, E.o(i))

    def f(L):
        out = {}
        try:
            m, e = L.get('R.rb.memory.view'), L.get('R.rb.episodic_memory.view')
        except KeyError:
            return out
        d = E.N + 1 - e.n
        T1 = E.T + cur.n
        out['evicted'] = And(d >= 0, d <= E.N + 1)
        if L.n is None:
            out['flat length'] = same(m.n, T1 - o1(d))
            out['needed'] = Implies(d > 0, T1 - o1(d - 1) > cap) if cap is not None else True
        return out
    return f


def p_stop():
    cap = None if choose(2) == 0 else fresh_int('capacity', 0)
    rb, E, cur, other = state(cap)
    if cap is not None:
        assume(E.T <= cap)
    ctx().invfuns.append(evict_inv(E, cur, cap))
    rb.stop_current_episode(env_id='A')
    if cur.n > 0:
        cover('stopped')
        stop_post(rb, E, cur, cap, 'stop')
    else:
        cover('nothing pending')
        check(And(seq_same(raq_view(rb.memory), singles(E.flat)), same(raq_view(rb.episodic_memory).n, E.N)),
              'stopping with nothing pending changes nothing')
    check(same(rb.current_episode['A'].s.n, 0), 'the environment starts a new episode')
    check(seq_same(rb.current_episode['B'].s, other), 'other environments keep their pending episode')
    check(same(rb.capacity, cap), 'capacity is kept')


def p_append():
    cap = None if choose(2) == 0 else fresh_int('capacity', 0)
    rb, E, cur, other = state(cap)
    calls = []
    rb.__dict__['stop_current_episode'] = lambda env_id=0: calls.append(env_id)
    t = {k: fresh_obj(k) for k in KEYS}
    term = fresh_bool('terminal')
    t['is_state_terminal'] = term
    live = rb.current_episode['A']
    rb.append(env_id='A', **t)
    check(rb.current_episode['A'] is live, 'append keeps the pending list')
    check(same(live.s.n, cur.n + 1), 'append adds one transition to the pending episode')
    new = live.s.at(cur.n)
    if not isinstance(new, PDict):
        raise Unsupported('transition representation')
    check(And([same(new[k], t[k]) for k in KEYS]), 'append stores every field unchanged')
    check(len(new.e) == len(KEYS), 'append stores nothing else')
    check(seq_same(live.s.slice(0, cur.n), cur), 'append keeps the earlier transitions')
    check(seq_same(rb.current_episode['B'].s, other), 'other environments keep their pending episode')
    check(And(seq_same(raq_view(rb.memory), singles(E.flat)), same(raq_view(rb.episodic_memory).n, E.N)),
          'nothing becomes visible before the episode ends')
    check(same(term, len(calls) == 1), 'the episode is stopped exactly at a terminal transition')
    check(len(calls) <= 1 and all(c == 'A' for c in calls), 'only this environment is stopped')
    cover('appended')


def p_sample():
    rb, E, cur, other = state(None)
    log, cuts = [], []
    patch(W.load(COLL), 'sample_n_k', sample_n_k_contract(log))
    n = fresh_int('n', 0)
    assume(n <= E.N)
    L = None if choose(2) == 0 else fresh_int('max_len', 1)
    starts = fun('cutstart', core.ObjSort, z3.IntSort())

    def random_subseq(seq, m):
        """contract discharged under C08"""
        heap.pure_guard('sub-sequence')
        s = to_seq(seq)
        if s.n <= m:
            return seq
        st = fresh_int('cut', 0)
        assume(st <= s.n - m)
        return PList(seq=s.slice(st, st + m))
    patch(W.load(EM), 'random_subseq', random_subseq)
    if L is None:
        v = to_seq(rb.sample_episodes(n))
        check(len(log) == 1, 'one set of positions is drawn')
        check(same(v.n, n), 'exactly n episodes')
        j = fresh_int('j', 0)
        if j < n:
            cover('episodes')
            check(seq_same(v.at(j).s, E.episodes().at(log[0][2].at(j)).s), 'each is the stored episode at its own drawn position')
    else:
        # any one of them (the comprehension treats elements independently)
        nn = 1
        assume(E.N >= 1)
        v = to_seq(rb.sample_episodes(1, L))
        check(same(v.n, 1), 'exactly n episodes')
        ep = E.episodes().at(log[0][2].at(0)).s
        g = v.at(0).s
        check(same(g.n, ite(ep.n <= L, ep.n, L)), 'cut to the requested maximum length')
        cover('cut')
    check(And(seq_same(raq_view(rb.memory), singles(E.flat)), same(raq_view(rb.episodic_memory).n, E.N)), 'sampling changes nothing')
    check(And(same(heap.pv_len(rb), E.T), same(rb.n_episodes, E.N)), 'len counts transitions, n_episodes episodes')


class EpMem(Obj):
    """FIFO of (episode, priority): contract of PrioritizedBuffer without capacity (C03)."""

    def __init__(self, s):
        self.q = PList(seq=s)
        self.pri = PList()

    def append(self, value, priority=None):
        draw_guard()
        check(isinstance(value, PList), 'an episode is stored as a whole')
        self.q.append(PList(seq=value.s))
        self.pri.append((priority is None, priority))

    def popleft(self):
        return self.q.popleft()


def p_prio_stop():
    cap = None if choose(2) == 0 else fresh_int('capacity', 0)
    E = Episodes()
    if cap is not None:
        assume(E.T <= cap)
    cls = W.load(PM).PrioritizedEpisodicReplayBuffer
    withdef = choose(2) == 1
    pf = fun_obj('priority', z3.IntSort())
    df = (lambda ep: mk(pf(zint(ep.s.n)))) if withdef else None
    rb = cls(cap, default_priority_func=df)
    check(same(rb.capacity_left, cap), 'all capacity is free at first')
    rb.episodic_memory = EpMem(E.episodes())
    if cap is not None:
        rb.capacity_left = cap - E.T
    class Mem(Obj):
        def extend(self, xs):
            pass

        def append(self, x):
            pass
    rb.memory = Mem()
    cur, other = sym_seq('cur'), sym_seq('otherep')
    rb.current_episode['A'].s = cur
    rb.current_episode['B'].s = other
    root('em', rb.episodic_memory)
    root('rb', rb)
    N1, T1 = E.N + 1, E.T + cur.n

    def o1(i):
        return ite(same(i, N1), T1, E.o(i))

    def inv(L):
        out = {}
        try:
            e = L.get('R.em.q.s')
            left = L.get('R.rb.capacity_left')
        except KeyError:
            return out
        d = N1 - e.n
        out['evicted'] = And(d >= 0, d <= N1)
        if cap is not None:
            out['left'] = same(left, cap - (T1 - o1(d)))
            out['needed'] = Implies(d > 0, T1 - o1(d - 1) > cap)
        return out
    ctx().invfuns.append(inv)
    rb.stop_current_episode(env_id='A')
    got = rb.episodic_memory.q.s
    if cur.n > 0:
        cover('stopped')
        d = N1 - got.n
        check(And(d >= 0, d <= N1), 'evicted count in range')
        if And(d >= 0, d <= N1):
            eps1 = E.episodes().concat(Seq([PList(seq=cur)]))
            check(seq_same(got, eps1.slice(d, N1)), 'prioritized: stored episodes are the most recent ones')
            if cap is None:
                check(same(d, 0), 'prioritized: nothing is evicted without capacity')
            else:
                check(same(rb.capacity_left, cap - (T1 - o1(d))), 'prioritized: free capacity is exact')
                check(T1 - o1(d) <= cap, 'prioritized: within capacity')
                check(Implies(d > 0, T1 - o1(d - 1) > cap), 'prioritized: no more episodes than needed are evicted')
        p = rb.episodic_memory.pri.s
        check(same(p.n, 1), 'one priority per episode')
        check(same(p.at(0), (False, mk(pf(zint(cur.n)))) if withdef else (True, None)), 'the priority is the configured one')
    else:
        check(same(got.n, E.N), 'prioritized: stopping with nothing pending changes nothing')
        if cap is not None:
            check(same(rb.capacity_left, cap - E.T), 'prioritized: free capacity unchanged')
    check(same(rb.current_episode['A'].s.n, 0), 'prioritized: the environment starts a new episode')
    check(seq_same(rb.current_episode['B'].s, other), 'prioritized: other environments keep their pending episode')


PROOFS = [p_lemma_offsets, p_stop, p_append, p_sample, p_prio_stop]


def gen(rng):
    envs = rng.choice([1, 1, 2, 3])
    kind = rng.choice(['plain', 'plain', 'prio'])
    ops = []
    for _ in range(rng.randrange(1, 40)):
        x = rng.random()
        if x < 0.15:
            ops.append(['stop', rng.randrange(envs)])
        elif x < 0.25:
            ops.append(['sample', rng.randrange(0, 4), rng.choice([None, 1, 2, 3])])
        else:
            ops.append(['append', rng.randrange(envs), rng.random() < 0.25])
    return dict(kind=kind, ops=ops, cap=rng.choice([None, None, 1, 2, 3, 5, 8, 20]), seed=rng.randrange(2 ** 31),
                default_env=envs == 1 and rng.random() < 0.5)


def run(c):
    import numpy as np
    from chainerrl.replay_buffers import EpisodicReplayBuffer, PrioritizedEpisodicReplayBuffer
    np.random.seed(c['seed'])
    prio = c['kind'] == 'prio'
    rb = (PrioritizedEpisodicReplayBuffer if prio else EpisodicReplayBuffer)(
        c['cap'], **(dict(wait_priority_after_sampling=False, return_sample_weights=False) if prio else {}))
    eps, pend, truth = [], {}, {}
    t = 0

    def stop(e):
        if pend.get(e):
            eps.append(list(pend[e]))
            pend[e] = []
            while c['cap'] is not None and sum(map(len, eps)) > c['cap']:
                del eps[0]

    def num(ep):
        return [int(x['reward']) for x in ep]
    for i, op in enumerate(c['ops']):
        if op[0] == 'sample':
            n, L = op[1], op[2]
            if n > len(eps) or (prio and n == 0) or not eps:
                continue
            got = rb.sample_episodes(n, L)
            if len(got) != n:
                return 'op %d: %d episodes sampled instead of %d' % (i, len(got), n)
            seen = set()
            for g in got:
                g = num(g)
                own = [k for k, ep in enumerate(eps) if g and g[0] in ep]
                if not own or own[0] in seen:
                    return 'op %d: sampled %r, not distinct stored episodes %r' % (i, g, eps)
                seen.add(own[0])
                ep = eps[own[0]]
                s = ep.index(g[0])
                if g != ep[s:s + len(g)] or len(g) != (len(ep) if L is None else min(L, len(ep))):
                    return 'op %d: sampled %r from episode %r with max_len %r' % (i, g, ep, L)
            continue
        e = op[1]
        kw = {} if c['default_env'] else dict(env_id=e)
        if op[0] == 'stop':
            rb.stop_current_episode(**kw)
            stop(e)
        else:
            tr = dict(state=('s', t), action=('a', t), reward=t * 1.0, next_state=('n', t), next_action=('b', t),
                      is_state_terminal=op[2], extra=('x', t))
            truth[t] = dict(tr)
            rb.append(**dict(tr, **kw))
            pend.setdefault(e, []).append(t)
            if op[2]:
                stop(e)
            t += 1
        if rb.n_episodes != len(eps):
            return 'after op %d %r: %d episodes, expected %d' % (i, op, rb.n_episodes, len(eps))
        got = [list(x) for x in (rb.episodic_memory.data if prio else rb.episodic_memory)]
        if [num(g) for g in got] != eps:
            return 'after op %d %r: stored episodes %r, expected %r' % (i, op, [num(g) for g in got], eps)
        for g in got:
            for x in g:
                if dict(x) != truth[int(x['reward'])]:
                    return 'after op %d: transition changed to %r' % (i, x)
        if not prio:
            flat = [x for ep in eps for x in ep]
            if len(rb) != len(flat):
                return 'after op %d: len %d, expected %d' % (i, len(rb), len(flat))
            g = [num(x) for x in rb.memory]
            if g != [[x] for x in flat]:
                return 'after op %d: flat view %r, expected %r' % (i, g, flat)
            if flat:
                s = rb.sample(len(flat))
                if sorted(num(x) for x in s) != [[x] for x in sorted(flat)]:
                    return 'after op %d: sample of all transitions %r' % (i, s)


CASES = [('history', gen, run)]
