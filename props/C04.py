"""C04 N-step replay buffer stores each window once and never mixes episodes."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = ('append and stop_current_episode of the real ReplayBuffer and PrioritizedReplayBuffer for every num_steps, window and transition; '
              'the memory is an arbitrary collaborator that records what it is given (its FIFO/capacity contract is C01/C03)')
TRUSTED = ['memory.append keeps the last maxlen values (discharged under C01 for RandomAccessQueue and C03 for PrioritizedBuffer)']
RBM = 'chainerrl.replay_buffers.replay_buffer'
PRM = 'chainerrl.replay_buffers.prioritized'
W = world('base')
FIELDS = ('state', 'action', 'reward', 'next_state', 'next_action', 'is_state_terminal')
KEYS = FIELDS + ('extra',)
EXP = ('dict', KEYS, (('obj',),) * 5 + (('bool',), ('obj',)), None)


class Memory(Obj):
    """Records the contents of every experience at the moment it is handed over."""

    def __init__(self):
        self.got = PList()

    def append(self, x):
        draw_guard()
        if not isinstance(x, PList) or x.kind != 'list':
            raise Unsupported('experience is not a list')
        for e in self.rb.last_n_transitions.e.values():
            check(x is not e, 'a stored experience is not the live window')
        self.got.append(PList(seq=x.s))


def buffer():
    n = fresh_int('num_steps', 1)
    if choose(2) == 0:
        rb = W.load(RBM).ReplayBuffer(num_steps=n)
    else:
        rb = W.load(PRM).PrioritizedReplayBuffer(num_steps=n)
    m = Memory()
    rb.memory = m
    m.__dict__['rb'] = rb
    win = {}
    for e in ('A', 'B'):
        s = sym_seq('window' + e, EXP)
        assume(s.n <= n)
        d = rb.last_n_transitions[e]          # the code's own way of creating a window
        if not isinstance(d, PDeque):
            raise Unsupported('window representation')
        check(And(same(d.s.n, 0), same(d.maxlen, n)), 'a new window is empty and bounded by num_steps')
        d.s = s
        win[e] = s
    root('got', m)
    root('rb', rb)
    return rb, m, n, win


def others(rb, m, win, n):
    check(seq_same(rb.last_n_transitions['B'].s, win['B']), 'other environments keep their windows')
    check(same(rb.num_steps, n), 'num_steps is kept')


def suffixes(m, w, lo, what):
    """experiences handed over are exactly w[lo:], w[lo+1:], ..., w[len-1:] in that order"""
    check(same(m.got.s.n, w.n - lo), what + ': number of stored experiences')
    j = fresh_int('j', 0)
    if And(j < w.n - lo, j < m.got.s.n):
        check(seq_same(m.got.s.at(j).s, w.slice(lo + j, w.n)), what + ': each is the run from its own transition to the end')
        cover(what)


def p_append():
    rb, m, n, win = buffer()
    t = {k: fresh_obj(k) for k in KEYS}
    term = fresh_bool('terminal')
    t['is_state_terminal'] = term
    r = rb.append(env_id='A', **t)
    w0 = win['A']
    new = PDict(base=None)
    for k in KEYS:
        new[k] = t[k]
    w = w0.concat(Seq([new]))
    if w.n > n:
        w = w.slice(1, w.n)
    if term:
        suffixes(m, w, 0, 'terminal append')
        check(same(rb.last_n_transitions['A'].s.n, 0), 'a terminal transition closes the window')
    else:
        check(seq_same(rb.last_n_transitions['A'].s, w), 'the window is the last num_steps transitions of the episode')
        if w.n >= n:
            cover('full window')
            check(same(m.got.s.n, 1), 'a full window is stored exactly once')
            check(seq_same(m.got.s.at(0).s, w), 'the stored experience is the window')
        else:
            check(same(m.got.s.n, 0), 'a window that is not full is not stored')
    check(same(rb.last_n_transitions['A'].maxlen, n), 'the window bound is kept')
    others(rb, m, win, n)


def p_stop():
    rb, m, n, win = buffer()
    w = win['A']
    rb.stop_current_episode(env_id='A')
    # a full window was already stored when it became full
    if w.n > 0:
        if w.n >= n:
            suffixes(m, w, 1, 'stop with full window')
        else:
            suffixes(m, w, 0, 'stop with partial window')
    else:
        cover('nothing pending')
        check(same(m.got.s.n, 0), 'stopping with nothing pending stores nothing')
    check(same(rb.last_n_transitions['A'].s.n, 0), 'stopping closes the window')
    others(rb, m, win, n)


def p_construct():
    cap = fresh_int('capacity', 0)
    n = fresh_int('num_steps', 1)
    c = None if choose(2) == 0 else cap
    rb = W.load(RBM).ReplayBuffer(c, num_steps=n)
    check(And(same(raq_view(rb.memory).n, 0), same(rb.memory.maxlen, c)), 'memory starts empty and is bounded by capacity')
    check(same(heap.pv_len(rb), 0), 'len is the number of stored experiences')
    rb2 = W.load(RBM).ReplayBuffer(c)
    check(same(rb2.num_steps, 1), 'one step by default')
    cover('constructed')


def p_len_sample():
    s = sym_seq('mem')
    rb = W.load(RBM).ReplayBuffer()
    rb.memory = make_raq(W, s, None)
    check(same(heap.pv_len(rb), s.n), 'len is the number of stored experiences')
    check(seq_same(raq_view(rb.memory), s), 'len changes nothing')


PROOFS = [p_append, p_stop, p_construct, p_len_sample]


# ---- companion: histories of several environments on the real classes, read back through sample/len
def gen(rng):
    n = rng.choice([1, 1, 2, 3, 4, 5])
    envs = rng.choice([1, 1, 2, 3])
    kind = rng.choice(['plain', 'plain', 'prio'])
    ops = []
    for _ in range(rng.randrange(1, 30)):
        if rng.random() < 0.2:
            ops.append(['stop', rng.randrange(envs)])
        else:
            ops.append(['append', rng.randrange(envs), rng.random() < 0.2])
    return dict(n=n, kind=kind, ops=ops, cap=rng.choice([None, None, 1, 2, 5, 20]), extra=rng.random() < 0.5,
                default_env=envs == 1 and rng.random() < 0.5)


def run(c):
    from chainerrl.replay_buffers import ReplayBuffer, PrioritizedReplayBuffer
    if c['kind'] == 'plain':
        rb = ReplayBuffer(c['cap'], num_steps=c['n'])
    else:
        rb = PrioritizedReplayBuffer(capacity=c['cap'], num_steps=c['n'])
    n = c['n']
    ref = []          # stored experiences as tuples of transition numbers
    pend = {}         # env -> transitions of the current episode not started yet
    truth = {}
    t = 0

    def flush(e):
        p = pend.get(e, [])
        while p:
            ref.append(tuple(p[:n]))
            del p[0]
    for i, op in enumerate(c['ops']):
        e = op[1]
        kw = {} if c['default_env'] else dict(env_id=e)
        if op[0] == 'stop':
            rb.stop_current_episode(**kw)
            flush(e)
        else:
            tr = dict(state=('s', t), action=('a', t), reward=t * 1.0, next_state=('s', t, 'n'), next_action=('a', t, 'n'),
                      is_state_terminal=op[2])
            if c['extra']:
                tr['recurrent_state'] = ('r', t)
            truth[t] = tr
            rb.append(**dict(tr, **kw))
            p = pend.setdefault(e, [])
            p.append(t)
            if op[2]:
                flush(e)
            elif len(p) == n:
                ref.append(tuple(p))
                del p[0]
            t += 1
        want = ref if c['cap'] is None else ref[max(0, len(ref) - c['cap']):]
        if len(rb) != len(want):
            return 'after op %d %r: %d experiences, expected %d' % (i, op, len(rb), len(want))
        mem = rb.memory if c['kind'] == 'plain' else rb.memory.data
        got = list(mem)
        if len(got) != len(want):
            return 'after op %d: %d stored' % (i, len(got))
        for g, w in zip(got, want):
            if [dict(x) for x in g] != [truth[k] for k in w]:
                return 'after op %d %r: stored experience %r, expected transitions %r' % (
                    i, op, [x['reward'] for x in g], list(w))
    if c['kind'] == 'plain' and len(rb):
        xs = rb.sample(len(rb))
        if sorted(tuple(int(d['reward']) for d in x) for x in xs) != sorted(want):
            return 'sampling everything gives %r, expected %r' % (xs, want)


CASES = [('history', gen, run)]
