"""C09 Replay updates happen exactly on schedule."""
from props.lib import *
LEVEL = 'proof'
LEVEL_NOTE = 'ReplayUpdater for every configuration, buffer size and step number; the buffer and the update function are arbitrary collaborators'
RB = 'chainerrl.replay_buffer'
W = world('base')


class Buf(Obj):
    """Arbitrary replay buffer: the i-th draw is an arbitrary object; every request is recorded."""

    def __init__(self):
        self.size = fresh_int('size', 0)
        self.episodes = fresh_int('episodes', 0)
        self.draws = 0
        self.asked = PList()
        self.updates = PList()
        self.F = fun_obj('draw', z3.IntSort())

    def __pv_len__(self):
        return self.size

    def __len__(self):
        return self.size

    @property
    def n_episodes(self):
        return self.episodes

    def _draw(self, *req):
        draw_guard()
        self.asked.append(req)
        r = mk(self.F(zint(self.draws)))
        self.draws = self.draws + 1
        return r

    def sample(self, n):
        return self._draw('transitions', n, None)

    def sample_episodes(self, n, max_len=None):
        return self._draw('episodes', n, max_len)

    def update(self, x):
        self.updates.append(x)


def updater(epi):
    b = root('b', Buf())
    bs, start = fresh_int('batchsize', 1), fresh_int('start')
    assume(bs <= start)
    times, interval = fresh_int('times', 0), fresh_int('interval', 1)
    L = None if choose(2) == 0 else fresh_int('eplen', 1)
    u = W.load(RB).ReplayUpdater(replay_buffer=b, update_func=lambda x: b.update(x), batchsize=bs, episodic_update=epi,
                                 n_times_update=times, replay_start_size=start, update_interval=interval,
                                 episodic_update_len=L)
    root('u', u)
    return b, u, bs, start, times, interval, L


def p_update():
    epi = choose(2) == 1
    b, u, bs, start, times, interval, L = updater(epi)
    it = fresh_int('iteration', 0)
    r = u.update_if_necessary(it)
    m = core.intdiv(it, interval)[1]
    due = And(b.size >= start, same(m, 0), (b.episodes >= bs) if epi else True)
    if due:
        cover('due')
        check(same(b.updates.s.n, times), 'exactly n_times_update updates when due')
        check(same(b.asked.s.n, times), 'one draw per update')
        j = fresh_int('j', 0)
        if j < times:
            check(same(b.asked.s.at(j), ('episodes', bs, L) if epi else ('transitions', bs, None)),
                  'each draw asks for exactly batchsize experiences (or episodes of the configured length)')
            check(same(b.updates.s.at(j), mk(b.F(zint(j)))), 'each update receives its own draw')
    else:
        cover('not due')
        check(And(same(b.updates.s.n, 0), same(b.asked.s.n, 0)), 'no update and no draw when not due')


def p_configuration():
    bs, start = fresh_int('batchsize', 1), fresh_int('start')
    r, v = raises(AssertionError, lambda: W.load(RB).ReplayUpdater(
        replay_buffer=None, update_func=None, batchsize=bs, episodic_update=False, n_times_update=1,
        replay_start_size=start, update_interval=1))
    check(Iff(r, bs > start), 'a batch larger than replay_start_size is refused')


PROOFS = [p_update, p_configuration]


def gen(rng):
    bs = rng.randrange(1, 5)
    return dict(bs=bs, start=bs + rng.randrange(0, 6), interval=rng.randrange(1, 5), times=rng.randrange(0, 4),
                epi=rng.random() < 0.5, L=rng.choice([None, 1, 2, 3]), seed=rng.randrange(10 ** 6),
                steps=rng.randrange(1, 40), offset=rng.choice([0, 0, 1, 7, 100]))


def run(c):
    import numpy as np, random
    from chainerrl.replay_buffer import ReplayUpdater
    from chainerrl.replay_buffers import ReplayBuffer, EpisodicReplayBuffer
    np.random.seed(c['seed'] % 2 ** 31)
    rng = random.Random(c['seed'])
    real = EpisodicReplayBuffer(10 ** 6) if c['epi'] else ReplayBuffer(10 ** 6)
    log, got = [], []

    class Spy(object):
        def __len__(self):
            return len(real)

        @property
        def n_episodes(self):
            return real.n_episodes

        def sample(self, n):
            s = real.sample(n)
            log.append(('t', n, None, s))
            return s

        def sample_episodes(self, n, max_len=None):
            s = real.sample_episodes(n, max_len)
            log.append(('e', n, max_len, s))
            return s
    u = ReplayUpdater(Spy(), lambda *a, **k: got.append((a, k)), batchsize=c['bs'], episodic_update=c['epi'],
                      n_times_update=c['times'], replay_start_size=c['start'], update_interval=c['interval'],
                      episodic_update_len=c['L'])
    for t in range(c['offset'], c['offset'] + c['steps']):
        real.append(t, 0, 0.0, next_state=t + 1, is_state_terminal=rng.random() < 0.3)
        del log[:], got[:]
        size, eps = len(real), (real.n_episodes if c['epi'] else None)
        u.update_if_necessary(t)
        due = size >= c['start'] and t % c['interval'] == 0 and (not c['epi'] or eps >= c['bs'])
        want = c['times'] if due else 0
        if len(got) != want or len(log) != want:
            return 'step %d (size %d, episodes %r): %d updates and %d draws, expected %d' % (t, size, eps, len(got), len(log), want)
        seen = set()
        for a, k in got:
            if len(a) != 1 or k:
                return 'step %d: update called with %r %r' % (t, a, k)
            m = [i for i, l in enumerate(log) if l[3] is a[0] or l[3] == a[0]]
            m = [i for i in m if i not in seen]
            if not m:
                return 'step %d: an update did not receive its own draw' % t
            seen.add(m[0])
            if len(a[0]) != c['bs']:
                return 'step %d: %d items in a batch of %d' % (t, len(a[0]), c['bs'])
            if c['epi'] and c['L'] is not None and any(len(e) > c['L'] for e in a[0]):
                return 'step %d: episode longer than the configured length' % t
        for kind, n, ml, s in log:
            if kind != ('e' if c['epi'] else 't') or n != c['bs'] or (c['epi'] and ml != c['L']):
                return 'step %d: draw %r of %r cut to %r' % (t, kind, n, ml)


CASES = [('schedule', gen, run)]
