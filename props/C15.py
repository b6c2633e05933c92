"""C15 Batch evaluation scores episodes in start order without length bias."""
from props.lib import *
from props.protocol import *
from props.C12 import Info
from pyvc import npmodel as N
LEVEL = 'bounded'
LEVEL_NOTE = ('batch_run_evaluation_episodes for 1 to 3 environments and a bounded number of vector steps, with arbitrary rewards, flags, limits '
              'and numbers of steps or episodes; rewards are real numbers (float rounding excluded)')
TRUSTED = ['reward arithmetic is exact', 'the collaborators (agent, vector environment) are arbitrary apart from their signatures']
EV = 'chainerrl.experiments.evaluator'
W = world('base')


class Mon(Obj):
    """the protocol; episodes are numbered by start (ties by environment index)"""

    def __init__(self, n, T, maxlen, kinds):
        self.n, self.T, self.maxlen, self.kinds = n, T, maxlen, kinds
        self.t = 0
        self.started = self.acted = self.to_observe = self.over = self.must_reset = False
        self.obss = self.action = None
        self.ret, self.len, self.num = [0] * n, [0] * n, list(range(n))
        self.next = n
        self.done = {}          # number -> (return, length) of finished episodes
        self.end = [False] * n
        self.rst = None
        self.dones = self.rs = None
        self.last = False

    def reset(self, mask=None):
        if not self.started:
            check(mask is None, 'all environments are reset first')
            self.started = True
        else:
            check(self.must_reset, 'environments restart once after each step but the last')
            for i in range(self.n):
                check(Iff(Not(N.lift(N._arrlike(mask)).at(i)), self.end[i]), 'exactly the ended environments are reset before acting again')
            self.must_reset = False
        self.obss = fresh_obj('obss')
        return self.obss

    def act(self, obss):
        check(And(self.started, not self.acted, not self.to_observe, not self.must_reset), 'acting after the previous step is processed')
        check(same(obss, self.obss), 'the agent acts on the latest observations')
        self.acted = True
        self.action = fresh_obj('a')
        return self.action

    def step(self, a):
        check(And(self.acted, same(a, self.action)), 'all environments are stepped with the actions just returned')
        if self.t >= self.T:
            assume(False)
        self.acted = False
        self.t += 1
        n = self.n
        self.obss = fresh_obj('obss')
        rs = [fresh_real('r%d' % i) for i in range(n)]
        dn = [fresh_bool('d%d' % i) if 'd' in self.kinds else False for i in range(n)]
        nr = [fresh_bool('n%d' % i) if 'n' in self.kinds else False for i in range(n)]
        self.rs = N.Arr((n,), lambda i: Seq(rs).at(i), 'f')
        self.dones = N.Arr((n,), lambda i: Seq(dn).at(i), 'b')
        self.rst = []
        for i in range(n):
            self.ret[i] = self.ret[i] + rs[i]
            self.len[i] += 1
            rst = Or(nr[i], False if self.maxlen is None else same(self.len[i], self.maxlen))
            self.rst.append(rst)
            self.end[i] = Or(rst, dn[i])
            if self.end[i]:
                self.done[self.num[i]] = (self.ret[i], self.len[i])
                self.num[i], self.next = self.next, self.next + 1
                self.ret[i], self.len[i] = 0, 0
        self.to_observe = self.must_reset = True
        infos = PList([Info('n' in self.kinds, nr[i]) for i in range(n)])
        return self.obss, self.rs, self.dones, infos

    def observe(self, obss, rs, dones, resets):
        check(self.to_observe, 'the agent observes each step exactly once')
        check(And(same(obss, self.obss), rs is self.rs, dones is self.dones), 'the agent observes exactly those results')
        self.to_observe = False
        fl = [resets.at(i) for i in range(self.n)]
        self.full = And(fl)
        self.exact = And([Iff(f, r) for f, r in zip(fl, self.rst)])


class Env(Obj):
    def __init__(self, m):
        self.m, self.num_envs = m, m.n

    def reset(self, mask=None):
        return self.m.reset(mask)

    def step(self, a):
        return self.m.step(a)


class Agent(Obj):
    def __init__(self, m):
        self.m = m

    def batch_act(self, obss):
        m = self.m
        if m.t:
            check(m.exact, 'before the last step the reset flags are exact')
        return m.act(obss)

    def batch_observe(self, *a):
        return self.m.observe(*a)

    def batch_act_and_train(self, *a):
        unreachable('evaluation never trains')

    def batch_observe_and_train(self, *a):
        unreachable('evaluation never trains')


def run(n, T, by_steps, limited, kinds):
    ctx().nocut = True
    lim = fresh_int('limit', 1) if by_steps else 1 + choose(n * T)
    maxlen = fresh_int('maxlen', 1) if limited else None
    m = Mon(n, T, maxlen, kinds)
    out = W.load(EV).batch_run_evaluation_episodes(Env(m), Agent(m), lim if by_steps else None, None if by_steps else lim, max_episode_len=maxlen)
    cover('done')
    got = heap.to_seq(out).force()
    check(And(not m.to_observe, not m.acted), 'the last step is observed')
    check(m.full, 'on the last step every reset flag is set')
    want = []
    k, tot = 0, 0
    if by_steps:
        while k in m.done:
            tot = tot + m.done[k][1]
            if tot > lim:
                break
            want.append(m.done[k][0])
            k += 1
        if not want:
            cover('partial')
            want = [m.ret[m.num.index(0)]]
    else:
        while k in m.done:
            if k >= lim:
                break
            want.append(m.done[k][0])
            k += 1
        check(same(k, lim), 'n episodes were finished')
    check(len(got) == len(want), 'the number of returns')
    for a, b in zip(got, want):
        check(same(a, b), 'the returns in start order')


def make(nm, n, T, by_steps, limited, kinds):
    def f():
        run(n, T, by_steps, limited, kinds)
    f.__name__ = 'p_' + nm
    f.bounded = '%d environments, at most %d vector steps' % (n, T)
    return f


def p_one_of():
    both = choose(2) == 1
    m = Mon(1, 1, None, 'd')
    r, _ = raises(AssertionError, lambda: W.load(EV).batch_run_evaluation_episodes(Env(m), Agent(m), 1 if both else None, 1 if both else None))
    check(r, 'exactly one of n_steps and n_episodes must be given')


PROOFS = [p_one_of]
for _s in (True, False):
    _k = 'steps' if _s else 'episodes'
    PROOFS += [make(_k + '_1', 1, 4, _s, True, 'dn'), make(_k + '_2', 2, 4 if not _s else 3, _s, False, 'd'), make(_k + '_2_limited', 2, 4, _s, True, ''),
               make(_k + '_2_reset', 2, 2, _s, False, 'n'), make(_k + '_3', 3, 2, _s, False, 'd')]


# ---- companion
def gen_b(rng):
    n = rng.randrange(1, 5)
    return {'n': n, 'seed': rng.randrange(10 ** 6), 'steps': rng.random() < .5, 'lim': rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 30]),
            'maxlen': rng.choice([None, None, 1, 2, 3, 5, 8]), 'pd': [rng.choice([0, .1, .3, .7]) for _ in range(n)],
            'pn': rng.choice([0, 0, .1, .3])}


def run_b(c):
    import numpy as np
    import logging
    from chainerrl.experiments.evaluator import batch_run_evaluation_episodes
    n = c['n']
    rs = np.random.RandomState(c['seed'])
    pd = list(c['pd'])
    if c['maxlen'] is None and c['pn'] == 0:
        pd = [x or .2 for x in pd]
    st = {'t': 0, 'started': False, 'phase': 'reset', 'bad': None}
    num, ret, ln, nxt = list(range(n)), [0.0] * n, [0] * n, n
    fin = {}

    class Stop(Exception):
        pass

    def bad(msg):
        st['bad'] = st['bad'] or msg
        raise Stop()

    def finished():
        k, tot, out = 0, 0, []
        while k in fin:
            if c['steps'] and tot + fin[k][1] > c['lim']:
                break
            if not c['steps'] and k == c['lim']:
                break
            tot += fin[k][1]
            out.append(fin[k][0])
            k += 1
        return out

    class E(object):
        num_envs = n

        def reset(self, mask=None):
            if st['phase'] != 'reset':
                bad('reset in phase %s' % st['phase'])
            if mask is None:
                if st['t']:
                    bad('full reset')
                st['obs'] = [('o', 0, i) for i in range(n)]
            else:
                if [bool(x) for x in mask] != [not e for e in st['end']]:
                    bad('mask %r for ends %r' % (mask, st['end']))
                st['obs'] = [('n', st['t'], i) if e else st['obs'][i] for i, e in enumerate(st['end'])]
            st['phase'] = 'act'
            return list(st['obs'])

        def step(self, a):
            nonlocal nxt
            if st['phase'] != 'step' or a != st['a']:
                bad('step')
            st['t'] += 1
            if st['t'] > 3000:
                bad('evaluation does not end')
            st['obs'] = [('o', st['t'], i) for i in range(n)]
            r = rs.randint(-8, 9, n) / 4.0
            d = [bool(rs.rand() < pd[i]) for i in range(n)]
            nr = [bool(rs.rand() < c['pn']) for i in range(n)]
            st['end'], st['rst'] = [], []
            for i in range(n):
                ret[i] += r[i]
                ln[i] += 1
                x = nr[i] or ln[i] == c['maxlen']
                st['rst'].append(x)
                st['end'].append(x or d[i])
                if x or d[i]:
                    fin[num[i]] = (ret[i], ln[i])
                    num[i], ret[i], ln[i], nxt = nxt, 0.0, 0, nxt + 1
            st['r'], st['d'] = tuple(r), tuple(d)
            st['phase'] = 'observe'
            return list(st['obs']), tuple(r), tuple(d), tuple({'needs_reset': True} if x else {} for x in nr)

    class A(object):
        def batch_act(self, obss):
            if st['phase'] != 'act' or list(obss) != st['obs']:
                bad('act on %r instead of %r' % (obss, st['obs']))
            st['a'] = ['a%d' % st['t']] * n
            st['phase'] = 'step'
            return st['a']

        def batch_observe(self, obss, r, d, resets):
            if st['phase'] != 'observe':
                bad('observe in phase %s' % st['phase'])
            if list(obss) != st['obs'] or tuple(r) != st['r'] or tuple(d) != st['d']:
                bad('the agent does not observe the results')
            st['flags'] = [bool(x) for x in resets]
            if st['flags'] != st['rst'] and not all(st['flags']):
                bad('reset flags %r instead of %r' % (st['flags'], st['rst']))
            st['phase'] = 'reset'
    lg = logging.getLogger('pv.null')
    lg.disabled = True
    try:
        got = batch_run_evaluation_episodes(E(), A(), c['lim'] if c['steps'] else None, None if c['steps'] else c['lim'],
                                            max_episode_len=c['maxlen'], logger=lg)
    except Stop:
        return st['bad']
    if st['phase'] != 'reset':
        return 'ended in phase %s' % st['phase']
    if not all(st['flags']):
        return 'last step without all reset flags: %r' % st['flags']
    want = finished()
    if c['steps'] and not want:
        want = [ret[num.index(0)]]
    if not c['steps'] and len(want) != c['lim']:
        return 'stopped after %d of %d episodes' % (len(want), c['lim'])
    if got != want:
        return 'returns %r instead of %r' % (got, want)
    return None


CASES = [('vector evaluation histories', gen_b, run_b)]
