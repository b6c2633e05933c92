"""C22 Off-policy agents record every transition exactly once, correctly labelled."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, npmodel as N
from props.recording import RS, Batch, Masked, RModel, lists, masked_ok, harnesses as _h
LEVEL = 'proof'
LEVEL_NOTE = ('any agent state, any number of environments, any observations, actions, rewards and flags; an arbitrary environment is followed; histories by '
              'induction over calls (each call is verified from an arbitrary state)')
TRUSTED = ['models, explorers, the replay buffer and the replay updater are arbitrary apart from their signatures (their own contracts: C01-C03, C05)',
           'cuda.to_cpu of a numpy array is the array']
ASSUMPTIONS = ['observations and actions are not None (documented protocol)', 'the batch interface is called in the documented order: act, then observe']
W = world('ch22', models=lambda: chmodel.add(models.base_models()))
AG = 'chainerrl.agents.'
SERIAL = [(AG + 'dqn', 'DQN'), (AG + 'ddpg', 'DDPG'), (AG + 'td3', 'TD3'), (AG + 'soft_actor_critic', 'SoftActorCritic'), (AG + 'pgt', 'PGT')]
BATCH = SERIAL[:4]
SYNC = ('DQN', 'DDPG', 'PGT')           # agents that synchronise the target network while acting
DONT = object()


class Interval(Obj):
    """an arbitrary positive number; remainders by it are some function of the dividend"""

    def __rmod__(self, t):
        return mk(z3.Function('rem', z3.IntSort(), z3.IntSort())(zint(t)))

    def due(self, t):
        return same(self.__rmod__(t), 0)


class Quiet(Obj):
    def debug(self, *a, **k):
        pass
    info = warning = error = debug


class Num(Obj):
    """an output of a network"""

    def __init__(self):
        self.array = N.Arr((1,), N.memo_nd(lambda *ix: fresh_real('out')), 'f')

    def __float__(self):
        raise Unsupported('float of an output')


class AV(Obj):
    @property
    def max(self):
        return Num()

    @property
    def greedy_actions(self):
        return Num()

    def sample(self):
        return Num()

    @property
    def most_probable(self):
        return Num()


def new_agent(mod, cls, rec=False):
    M = W.load(mod)
    C = getattr(M, cls)
    a = C.__new__(C)
    a.recurrent = rec
    a.logger = Quiet()
    a.t = root('t', Obj(v=fresh_int('t', 0))).v
    a.target_update_interval = Interval()
    a.train_recurrent_states = a.train_prev_recurrent_states = a.test_recurrent_states = None
    a.average_q = fresh_real('q')
    a.average_q_decay = fresh_real('decay')
    a.phi = fresh_obj('phi')
    a.xp = N.NP
    a.batch_last_obs = a.batch_last_action = None
    a.last_state = a.last_action = None
    a.batch_states = lambda states, xp, phi: fresh_obj('features')
    a.burnin_action_func = None
    a.act_deterministically = False
    return a


class Buffer(Obj):
    """replay buffer of a serial agent"""

    def __init__(self):
        self.items, self.stops = (), 0

    def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
        heap.pure_guard('recording')
        check(same(self.stops, 0), 'the last step belongs to the episode it ends')
        check(same(env_id, 0), 'a single environment')
        d = dict(kw)
        d.update(state=state, action=action, reward=reward, next_state=next_state, next_action=next_action, done=is_state_terminal)
        self.items = self.items + (d,)

    def stop_current_episode(self, env_id=0):
        heap.pure_guard('end of an episode')
        check(same(env_id, 0), 'a single environment')
        self.stops = self.stops + 1


class Serial(object):
    def __init__(self, mod, cls, first=False):
        self.cls = cls
        self.rec = bool(choose(2)) if cls == 'DQN' else False
        a = self.a = new_agent(mod, cls, self.rec)
        self.t0 = a.t
        self.buf = a.replay_buffer = root('buffer', Buffer())
        self.obs0, self.act0, self.obs, self.r = fresh_obj('obs0'), fresh_obj('act0'), fresh_obj('obs'), fresh_real('r')
        a.model = RModel()
        if not first:
            a.last_state, a.last_action = self.obs0, self.act0
            if self.rec:
                a.train_prev_recurrent_states, a.train_recurrent_states = Batch(0), Batch(1)

    def recorded(self, done, nxt=DONT):
        check(len(self.buf.items) == 1, 'the step is recorded exactly once')
        t = self.buf.items[0]
        check(And(same(t['state'], self.obs0), same(t['action'], self.act0)), 'the observation acted on and the action returned for it')
        check(And(same(t['reward'], self.r), same(t['next_state'], self.obs)), 'the reward and observation that followed')
        check(same(t['done'], done), 'terminal exactly if the step was reported done')
        if nxt is not DONT and t['next_action'] is not None:
            check(same(t['next_action'], nxt), 'the next action, if recorded, is the one just chosen')
        if self.rec:
            check(And(same(t['recurrent_state'], RS(0, 0)), same(t['next_recurrent_state'], RS(1, 0))), 'the hidden state before and after the step')


def act(mod, cls):
    first = bool(choose(2))
    S = Serial(mod, cls, first)
    a = S.a
    log = []

    class Net(RModel):
        def __call__(self, x, *st):
            if S.rec:
                return AV(), Batch(2)
            return AV()
    a.model = Net()
    a.policy = Net()
    a.q_function = lambda *x: Num()
    chosen = fresh_obj('chosen')
    a.sync_target_network = lambda: log.append(('sync', a.t))
    def pol(obs, *x, **k):
        check(same(obs, S.obs), 'the policy sees the current observation')
        return chosen
    if cls != 'DQN':
        # the stochastic policies are collaborators: any action
        for nm in ('act', 'select_onpolicy_action', 'select_greedy_action'):
            if hasattr(type(a), nm):
                setattr(a, nm, pol)
    opt = Obj(t=fresh_int('optimizer_t', 0))
    a.actor_optimizer = a.policy_optimizer = opt
    burn = bool(choose(2)) if cls not in ('DQN', 'PGT') else False
    if burn:
        a.burnin_action_func = lambda: chosen
    expl = []

    class Explorer(Obj):
        def select_action(self, t, greedy_action_func, action_value=None):
            expl.append(t)
            return chosen
    a.explorer = Explorer()

    class Updater(Obj):
        def update_if_necessary(self, it):
            log.append(('update', it))
            check(len(S.buf.items) == (0 if first else 1), 'the pending step is recorded before the update')
    a.replay_updater = Updater()
    r = a.act_and_train(S.obs, S.r)
    if first:
        check(S.buf.items == (), 'nothing to record at the first step of an episode')
    else:
        S.recorded(False, r)
    check(same(S.buf.stops, 0), 'the episode goes on')
    check(same(a.t, S.t0 + 1), 'one step is counted')
    ups = [x for x in log if x[0] == 'update']
    check(len(ups) == 1, 'the updater is consulted once')
    t = S.t0 if cls == 'DQN' else S.t0 + 1
    check(same(ups[0][1], t), 'with the step count')
    syncs = [x for x in log if x[0] == 'sync']
    due = a.target_update_interval.due(t) if cls in SYNC else False
    check(Implies(due, len(syncs) == 1), 'the target network is synchronised when due')
    check(Implies(Not(due), len(syncs) == 0), 'and only then')
    check(And(same(a.last_state, S.obs), same(a.last_action, r), same(r, chosen)), 'observation and action are remembered for the next call')
    cover('act')


def stop(mod, cls):
    S = Serial(mod, cls)
    a = S.a
    done = fresh_bool('done')
    resets = []
    a.stop_episode_and_train(S.obs, S.r, done)
    S.recorded(done)
    check(same(S.buf.stops, 1), 'the buffer is told of the end of the episode, once')
    check(a.last_state is None and a.last_action is None, 'nothing is pending')
    check(same(a.t, S.t0), 'no step is counted')
    if S.rec:
        check(a.train_prev_recurrent_states is None and a.train_recurrent_states is None, 'the hidden state is cleared at the end of the episode')
    cover('stop')


# ------------------------------------------------------------------ several environments
class Ghost(Obj):
    """the replay buffer and what is pending, environment w followed"""

    def __init__(self, n, I, rec, t0, interval):
        self.n, self.rec = n, rec
        self.w = fresh_int('w', 0)
        assume(self.w < n)
        self._pvghost_in = I
        self.added = self.stops = self.cleared = self.updates = self.syncs = 0
        self.t0, self.interval = t0, interval

    def hit(self, i, k, what):
        self.__dict__  # plain counters
        setattr(self, k, getattr(self, k) + ite(same(i, self.w), 1, 0))

    def end(self, i):
        return Or(self._pvghost_in['done'].at(i), self._pvghost_in['reset'].at(i))

    def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
        heap.pure_guard('recording')
        i = env_id
        I = self._pvghost_in
        check(And(i >= 0, i < self.n), 'a known environment')
        f = {k: v.at(i) for k, v in I.items()}
        check(And(same(state, f['obs0']), same(action, f['act0'])), 'each environment records the observation acted on and its own action')
        check(And(same(reward, f['reward']), same(next_state, f['obs'])), 'and the reward and observation that followed in this environment')
        check(same(is_state_terminal, f['done']), 'terminal exactly if this environment was reported done')
        if self.rec:
            check(And(same(kw['recurrent_state'], RS(0, i)), same(kw['next_recurrent_state'], RS(1, i))), 'the hidden state of this environment before and after its step')
        check(Implies(same(i, self.w), And(same(self.added, 0), same(self.stops, 0))), 'a step belongs to the episode it ends')
        self.added = self.added + ite(same(i, self.w), 1, 0)

    def stop_current_episode(self, env_id=0):
        heap.pure_guard('end of an episode')
        i = env_id
        check(And(i >= 0, i < self.n), 'a known environment')
        check(self.end(i), 'only episodes of environments that were done or reset end')
        check(Implies(same(i, self.w), And(same(self.added, 1), same(self.stops, 0))), 'the end is announced once, after the last step was recorded')
        self.stops = self.stops + ite(same(i, self.w), 1, 0)

    def update_if_necessary(self, t):
        heap.pure_guard('update')
        check(And(t > self.t0, t <= self.t0 + self.n), 'the updater is given a step count of this batch')
        check(Implies(same(t, self.t0 + self.w + 1), same(self.added, 1)), 'the step is recorded before the update')
        self.updates = self.updates + ite(same(t, self.t0 + self.w + 1), 1, 0)

    def sync(self, t):
        heap.pure_guard('synchronisation')
        check(self.interval.due(t), 'the target network is synchronised at multiples of the interval only')
        self.syncs = self.syncs + ite(same(t, self.t0 + self.w + 1), 1, 0)


class Pending(Obj):
    """batch_last_obs / batch_last_action"""

    def __init__(self, G, seq):
        self.G = G
        self._pvghost_seq = seq
        self.gone = False          # of environment w
        self.last = -1             # the environment cleared last

    def __pv_len__(self):
        return self.G.n

    def __getitem__(self, i):
        check(And(i >= 0, i < self.G.n), 'a known environment')
        if Or(And(same(i, self.G.w), self.gone), same(i, self.last)):
            return None
        return self._pvghost_seq.at(i)

    def __setitem__(self, i, v):
        heap.pure_guard('clearing')
        check(And(i >= 0, i < self.G.n), 'a known environment')
        check(v is None, 'what is pending is only cleared')
        check(Implies(same(i, self.G.w), And(same(self.G.added, 1), self.G.end(i))), 'only steps that were recorded and ended an episode are cleared')
        self.gone = Or(self.gone, same(i, self.G.w))
        self.last = i

    def __iter__(self):
        raise Unsupported('iteration over what is pending')


def observe(mod, cls):
    rec = bool(choose(2)) if cls == 'DQN' else False
    a = new_agent(mod, cls, rec)
    a.model = RModel()
    n = fresh_int('n', 1)
    I = lists(n, obs0='obj', act0='obj', reward='real', obs='obj', done='bool', reset='bool')
    t0 = a.t
    G = a.replay_buffer = a.replay_updater = root('G', Ghost(n, I, rec, t0, a.target_update_interval))
    w = G.w
    po, pa = root('po', Pending(G, I['obs0'])), root('pa', Pending(G, I['act0']))
    a.batch_last_obs, a.batch_last_action = po, pa
    a.sync_target_network = lambda: G.sync(a.t)
    if rec:
        a.train_prev_recurrent_states, a.train_recurrent_states = Batch(0), Batch(1)
    A = root('agent', a)
    end = Or(I['done'].at(w), I['reset'].at(w))
    due = a.target_update_interval.due(t0 + w + 1) if cls in SYNC else False

    def inv(L):
        if L.loop.seq is None or 'R.G.added' not in L.loop.S0:
            return {}
        past = L.k > w
        d = {'added': same(L.get('R.G.added'), ite(past, 1, 0)), 'updates': same(L.get('R.G.updates'), ite(past, 1, 0)),
             'stops': same(L.get('R.G.stops'), ite(And(past, end), 1, 0)), 'syncs': same(L.get('R.G.syncs'), ite(And(past, due), 1, 0)),
             't': same(L.get('R.agent.t'), t0 + L.k)}
        for p in ('po', 'pa'):
            d[p] = Implies(L.get('R.%s.gone' % p), past)
            d[p + ' last'] = L.get('R.%s.last' % p) < L.k
        d['obs gone'] = Implies(And(past, end), L.get('R.po.gone'))
        return d
    ctx().invfuns.append(inv)
    a.batch_observe_and_train(PList(seq=I['obs']), PList(seq=I['reward']), PList(seq=I['done']), PList(seq=I['reset']))
    check(same(G.added, 1), 'every environment records its step exactly once')
    check(same(G.stops, ite(end, 1, 0)), 'the buffer is told of the end of an episode exactly when the environment was done or reset')
    check(same(a.t, t0 + n), 'one step per environment is counted')
    check(same(G.updates, 1), 'the updater is consulted once per step, with the step count')
    check(same(G.syncs, ite(due, 1, 0)), 'the target network is synchronised exactly at multiples of the interval')
    check(Implies(end, a.batch_last_obs[w] is None), 'nothing of an ended episode is pending')
    if rec:
        check(a.train_prev_recurrent_states is None, 'the states before the step are used up')
        masked_ok(a.train_recurrent_states, Batch(1), n, I['done'], I['reset'], w)
    cover('observe')


class Picked(loops.Handle):
    """what the explorer makes of a greedy action"""


def batch_act(mod, cls):
    """each environment gets its own action, and observation and action are remembered"""
    rec = bool(choose(2)) if cls == 'DQN' else False
    a = new_agent(mod, cls, rec)
    n = fresh_int('n', 1)
    obs = lists(n, obs='obj')['obs']
    w = fresh_int('w', 0)
    assume(w < n)
    old = Batch(0)
    if rec:
        a.train_recurrent_states = old
    burn = bool(choose(2)) if cls != 'DQN' else False
    a.actor_optimizer = a.policy_optimizer = Obj(t=0 if burn else fresh_int('optimizer_t', 0))
    nm = ctx().name_('greedy')
    greedy = Seq(n=n, at=heap.memo_at(lambda i: mk(z3.Function(nm, z3.IntSort(), z3.IntSort())(zint(i)))))
    batch = PList(seq=obs)

    class Values(Obj):
        def __init__(self, lo, hi):
            self.lo, self.hi = lo, hi

        @property
        def max(self):
            o = Num()
            o.array = N.Arr((n,), N.memo_nd(lambda *ix: fresh_real('out')), 'f')
            return o

        @property
        def greedy_actions(self):
            o = Num()
            o.array = N.Arr((n,), lambda i: greedy.at(i), 'i')
            return o

        def __getitem__(self, s):
            check(isinstance(s, slice) and s.step is None, 'rows of the action values')
            return Values(s.start, s.stop)

    class Net(RModel):
        def __call__(self, x, *st):
            if rec:
                check(isinstance(st[0], Batch) and same(st[0], old), 'the model continues from the states after the previous step')
                return Values(0, n), Batch(1)
            return Values(0, n)
    a.model = Net()

    class Explorer(Obj):
        def select_action(self, t, greedy_action_func, action_value=None):
            g = greedy_action_func()
            check(same(t, a.t), 'exploration at the current step count')
            if action_value is not None:
                check(And(same(greedy.at(action_value.lo), g), same(action_value.hi, action_value.lo + 1)), 'the action values of the same environment')
            return Picked(g)
    a.explorer = Explorer()
    if cls != 'DQN':
        for f in ('batch_act', 'batch_select_onpolicy_action', 'batch_select_greedy_action'):
            if hasattr(type(a), f):
                def pol(b, *x, **k):
                    s = to_seq(b)
                    check(And(same(s.n, n), same(s.at(w), obs.at(w))), 'the policy sees all current observations')
                    return PList(seq=greedy)
                setattr(a, f, pol)
    if burn:
        nb = ctx().name_('burnin')
        a.burnin_action_func = lambda: fresh_obj(nb)
    r = a.batch_act_and_train(batch)
    s = to_seq(r)
    check(same(s.n, n), 'one action per environment')
    if not burn:
        want = greedy.at(w)
        check(same(s.at(w), want if cls == 'SoftActorCritic' else Picked(want)), 'each environment gets the action chosen for it')
    lo, la = to_seq(a.batch_last_obs), to_seq(a.batch_last_action)
    check(And(same(lo.n, n), same(lo.at(w), obs.at(w))), 'the observations acted on are remembered')
    check(And(same(la.n, n), same(la.at(w), s.at(w))), 'so are the actions returned')
    check(a.batch_last_obs is not batch, 'in a list of its own')
    if rec:
        p, q = a.train_prev_recurrent_states, a.train_recurrent_states
        check(isinstance(p, Batch) and isinstance(q, Batch) and same(p, old) and same(q, Batch(1)), 'the hidden states before and after this step are kept')
    cover('batch_act')


def p_updater():
    """the updater samples and updates as configured, when due"""
    M = W.load('chainerrl.replay_buffer')
    U = root('U', Obj(calls=0))
    size, neps = fresh_int('size', 0), fresh_int('episodes', 0)
    bs, start, times, it = fresh_int('batchsize', 1), fresh_int('start', 0), fresh_int('times', 0), fresh_int('it', 0)
    iv = Interval()
    epi = bool(choose(2))
    ln = fresh_int('len', 1)
    got = root('got', Obj(v=None))

    class Buf(Obj):
        n_episodes = neps

        def __pv_len__(self):
            return size

        def sample(self, n):
            check(not epi and same(n, bs), 'a minibatch of the configured size')
            return Batch(7)

        def sample_episodes(self, n, max_len=None):
            check(epi and same(n, bs) and same(max_len, ln), 'episodes as configured')
            return Batch(8)

    def upd(x):
        heap.pure_guard('update')
        check(isinstance(x, Batch) and same(x, Batch(8 if epi else 7)), 'the update uses what was sampled')
        U.calls = U.calls + 1
    assume(bs <= start)
    u = M.ReplayUpdater(replay_buffer=Buf(), update_func=upd, batchsize=bs, episodic_update=epi, n_times_update=times, replay_start_size=start,
                        update_interval=iv, episodic_update_len=ln)
    ctx().invfuns.append(lambda L: {'calls': same(L.get('R.U.calls'), L.k)} if L.loop.seq is not None else {})
    u.update_if_necessary(it)
    due = And(size >= start, iv.due(it), Or(not epi, neps >= bs))
    check(same(U.calls, ite(due, times, 0)), 'updates happen exactly when the buffer is large enough and the step count is a multiple of the interval')
    cover('updater')


def harnesses(fns):
    out = []
    for f, L in fns:
        for mod, cls in L:
            def h(f=f, mod=mod, cls=cls):
                f(mod, cls)
            h.__name__ = 'p_%s_%s' % (f.__name__, cls)
            out.append(h)
    return out


PROOFS = harnesses([(act, SERIAL), (stop, SERIAL), (observe, BATCH), (batch_act, BATCH)]) + [p_updater]

# ---------------------------------------------------------------- concrete companion
def gen_rec(rng):
    ne = rng.choice([0, 0, 1, 2, 3])
    T = rng.randint(2, 12)
    cls = rng.choice(['DQN', 'DQN', 'DoubleDQN', 'SARSA', 'DDPG', 'TD3', 'SoftActorCritic', 'PGT'])
    if cls == 'PGT':
        ne = 0
    return dict(cls=cls, n=ne, steps=[[[round(rng.uniform(-2, 2), 2), rng.random() < .2, rng.random() < .2] for _ in range(max(ne, 1))] for _ in range(T)],
                rec=cls == 'DQN' and rng.random() < .4, sync=rng.choice([1, 2, 3, 7]), up=rng.choice([1, 2, 3]), times=rng.choice([1, 1, 2]),
                burn=rng.random() < .3, nstep=rng.choice([1, 1, 2, 3]), start=rng.choice([1, 2, 5, 100]), evals=rng.random() < .3, seed=rng.randrange(1000),
                extra=[rng.random() < .3 for _ in range(T)], real=rng.random() < .5)


def run_rec(c):
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    import chainer
    import chainer.links as L
    import chainer.functions as F
    from chainerrl import agents, action_value, links, replay_buffer, explorers, q_functions, policies
    chainer.config.use_ideep = 'never'
    np.random.seed(c['seed'])
    cls, serial = c['cls'], c['n'] == 0
    dqn = cls in ('DQN', 'DoubleDQN', 'SARSA')
    log = []
    agent = [None]

    class Rb(replay_buffer.ReplayBuffer):
        def append(self, state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            log.append(('append', env_id, state, action, reward, next_state, next_action, is_state_terminal))
            super().append(state, action, reward, next_state=next_state, next_action=next_action, is_state_terminal=is_state_terminal, env_id=env_id, **kw)
            inner[0] += 1

        def stop_current_episode(self, env_id=0):
            if not nested[0]:
                log.append(('stop', env_id))
            super().stop_current_episode(env_id=env_id)
    inner, nested = [0], [False]
    orig = replay_buffer.ReplayBuffer.append

    rb = (replay_buffer.EpisodicReplayBuffer if c['rec'] else Rb)(1000, **({} if c['rec'] else dict(num_steps=c['nstep'])))
    if c['rec']:
        o_app, o_stop = rb.append, rb.stop_current_episode

        def app(state, action, reward, next_state=None, next_action=None, is_state_terminal=False, env_id=0, **kw):
            log.append(('append', env_id, state, action, reward, next_state, next_action, is_state_terminal))
            nested[0] = True
            o_app(state, action, reward, next_state=next_state, next_action=next_action, is_state_terminal=is_state_terminal, env_id=env_id, **kw)
            nested[0] = False

        def stp(env_id=0):
            if not nested[0]:
                log.append(('stop', env_id))
            o_stop(env_id=env_id)
        rb.append, rb.stop_current_episode = app, stp
    else:
        o_app = rb.append

        def app(*a, **k):
            nested[0] = True
            o_app(*a, **k)
            nested[0] = False
        rb.append = app

    class Ex(object):
        """a different action every time; remembers what it was given"""
        k = 0

        def select_action(self, t, greedy_action_func, action_value=None):
            g = greedy_action_func()
            if action_value is not None and int(action_value.greedy_actions.array[0]) != int(g):
                problems.append('the explorer is given the action values of one environment and the greedy action of another')
            log.append(('explore', t))
            Ex.k += 1
            if dqn:
                return (Ex.k * 7) % 3 if Ex.k % 2 else g
            return np.asarray([Ex.k * .001, .5], 'f')
    problems = []
    ex = Ex()
    burn = None
    if c['burn'] and not dqn and cls != 'PGT':
        cnt = [0]

        def burn():
            cnt[0] += 1
            return np.asarray([cnt[0] * .001, -.5], 'f')

    class Opt(object):
        t = 0

        def setup(self, link):
            return self

        def update(self, f=None, *a, **k):
            if f is not None:
                f(*a, **k)
            self.t += 1
    gam = .9
    if dqn:
        if c['rec']:
            q = links.StatelessRecurrentSequential(L.NStepLSTM(1, 2, 3, 0), action_value.DiscreteActionValue)
        else:
            q = chainer.Sequential(L.Linear(2, 3), action_value.DiscreteActionValue)
        for p_ in q.params():
            p_.array[...] = np.random.normal(size=p_.array.shape)
        A = getattr(agents, cls)(q, Opt(), rb, gam, ex, replay_start_size=c['start'], minibatch_size=1, update_interval=c['up'], n_times_update=c['times'],
                                 target_update_interval=c['sync'], recurrent=c['rec'])
    else:
        pi = policies.FCDeterministicPolicy(2, 1, 4, 2, bound_action=False) if cls in ('DDPG', 'TD3') else policies.FCGaussianPolicy(2, 2, 1, 4)
        qf = lambda: q_functions.FCSAQFunction(2, 2, n_hidden_channels=4, n_hidden_layers=1)
        kw = dict(replay_start_size=c['start'], minibatch_size=1, update_interval=c['up'])
        if cls in ('DDPG', 'PGT'):
            if cls == 'DDPG':
                from chainerrl.agents.ddpg import DDPGModel
                model = DDPGModel(pi, qf())
                kw.update(burnin_action_func=burn)
            else:
                model = chainer.Chain()
                with model.init_scope():
                    model.policy, model.q_function = pi, qf()
            A = getattr(agents, cls)(model, Opt(), Opt(), rb, gam, ex, target_update_interval=c['sync'], n_times_update=c['times'], **kw)
        elif cls == 'TD3':
            A = agents.TD3(pi, qf(), qf(), Opt(), Opt(), Opt(), rb, gam, ex, burnin_action_func=burn, **kw)
        else:
            A = agents.SoftActorCritic(pi, qf(), qf(), Opt(), Opt(), Opt(), rb, gam, burnin_action_func=burn, **kw)
    agent[0] = A
    o_sync, o_up = getattr(A, 'sync_target_network', None), A.replay_updater.update_if_necessary
    if cls in ('DQN', 'DoubleDQN', 'SARSA', 'DDPG', 'PGT'):
        A.sync_target_network = lambda: (log.append(('sync', A.t)), o_sync())[1]
    A.replay_updater.update_if_necessary = lambda it: (log.append(('up', it)), o_up(it))[1]
    o_f = A.replay_updater.update_func
    updates = []
    sizes = []
    A.replay_updater.update_func = (lambda e, *a, **k: (updates.append(len(rb)), o_f(e, *a, **k))[1]) if c['real'] else (lambda e, *a, **k: updates.append(len(rb)))

    uid = [0]

    def new_obs():
        uid[0] += 1
        return np.asarray([uid[0] * .01, np.random.normal()], 'f')
    n = max(c['n'], 1)
    obs = [new_obs() for _ in range(n)]
    t = 0
    r = 0.
    pend = [None] * n

    def eq(a, b):
        return np.array_equal(np.asarray(a), np.asarray(b))

    def expect(rows, what):
        """rows: appends and stops that must be in the log, in order; then clears it"""
        got = [x for x in log if x[0] in ('append', 'stop')]
        if problems:
            return problems[0]
        if len(got) != len(rows):
            return '%s: the replay buffer saw %s, expected %s' % (what, [g[:2] for g in got], [g[:2] for g in rows])
        for g, w in zip(got, rows):
            if g[:2] != w[:2]:
                return '%s: the replay buffer saw %s, expected %s' % (what, [g[:2] for g in got], [g[:2] for g in rows])
            if g[0] == 'append':
                for nm, a, b in zip(('state', 'action', 'reward', 'next_state'), g[2:6], w[2:6]):
                    if not eq(a, b):
                        return '%s: environment %d recorded %s %s, was %s' % (what, g[1], nm, a, b)
                if bool(g[7]) != w[7]:
                    return '%s: environment %d recorded terminal=%s, done was %s' % (what, g[1], g[7], w[7])
                if g[6] is not None and w[6] is not None and not eq(g[6], w[6]):
                    return '%s: environment %d recorded next action %s, was %s' % (what, g[1], g[6], w[6])
        return None

    def counts(ts, what):
        ups = [x[1] for x in log if x[0] == 'up']
        if ups != ts:
            return '%s: the updater was consulted with %s, expected %s' % (what, ups, ts)
        if o_sync is not None and cls not in ('TD3', 'SoftActorCritic'):
            sy = [x[1] for x in log if x[0] == 'sync']
            want = [x for x in ts if x % c['sync'] == 0]
            if sy != want:
                return '%s: the target network was synchronised at %s, expected %s (interval %d)' % (what, sy, want, c['sync'])
        if A.t != t:
            return '%s: the agent counts %d steps, there were %d' % (what, A.t, t)
        del log[:]
        return None
    for k, row in enumerate(c['steps']):
        what = '%s step %d' % (cls, k)
        if serial:
            rew, done, reset = row[0]
            a = A.act_and_train(obs[0], r)
            ts = [t] if dqn else [t + 1]
            t += 1
            bad = expect([('append', 0, pend[0][0], pend[0][1], r, obs[0], a, False)] if pend[0] is not None else [], what) or counts(ts, what)
            if bad:
                return bad
            pend[0] = (obs[0], a)
            o2 = new_obs()
            if c['evals'] and dqn:
                A.act(o2)
            if done or reset:
                A.stop_episode_and_train(o2, rew, done)
                bad = expect([('append', 0, pend[0][0], pend[0][1], rew, o2, None, bool(done)), ('stop', 0)], what + ' end')
                if bad:
                    return bad
                bad = counts([], what + ' end')
                if bad:
                    return bad
                pend[0] = None
                if c['evals']:
                    A.act(o2)
                    A.stop_episode()
                    del log[:]
                obs[0], r = new_obs(), 0.
            else:
                obs[0], r = o2, rew
        else:
            acts = A.batch_act_and_train(list(obs))
            if len(acts) != n:
                return '%s: %d actions for %d environments' % (what, len(acts), n)
            bad = expect([], what + ' act') or counts([], what + ' act')
            if bad:
                return bad
            nxt = [new_obs() for _ in range(n)]
            if c['evals']:
                A.batch_act([new_obs() for _ in range(n)])
            A.batch_observe_and_train(list(nxt), [x[0] for x in row], [x[1] for x in row], [x[2] for x in row])
            rows = []
            for i in range(n):
                rows.append(('append', i, obs[i], acts[i], row[i][0], nxt[i], None, bool(row[i][1])))
                if row[i][1] or row[i][2]:
                    rows.append(('stop', i))
            ts = list(range(t + 1, t + n + 1))
            t += n
            bad = expect(rows, what) or counts(ts, what)
            if bad:
                return bad
            if c['evals']:
                A.batch_observe([new_obs() for _ in range(n)], [0.] * n, [False] * n, [c['extra'][k]] * n)
                bad = expect([], what + ' evaluation') or counts([], what + ' evaluation')
                if bad:
                    return bad
            obs = [new_obs() if x[1] or x[2] else o for x, o in zip(row, nxt)]
    return None


def gen_upd(rng):
    return dict(size=rng.randint(0, 8), eps=rng.randint(0, 5), bs=rng.randint(1, 4), start=rng.randint(0, 6), iv=rng.randint(1, 5), times=rng.randint(0, 3),
                epi=rng.random() < .5, ln=rng.choice([None, 1, 3]), its=[rng.randint(0, 20) for _ in range(4)])


def run_upd(c):
    from chainerrl.replay_buffer import ReplayUpdater
    if c['start'] < c['bs']:
        return None
    calls = []

    class B(object):
        capacity = None
        n_episodes = c['eps']

        def __len__(self):
            return c['size']

        def sample(self, n):
            return ('sample', n)

        def sample_episodes(self, n, max_len=None):
            return ('episodes', n, max_len)
    u = ReplayUpdater(B(), calls.append, c['bs'], c['epi'], c['times'], c['start'], c['iv'], c['ln'])
    for it in c['its']:
        del calls[:]
        u.update_if_necessary(it)
        due = c['size'] >= c['start'] and it % c['iv'] == 0 and (not c['epi'] or c['eps'] >= c['bs'])
        want = [('episodes', c['bs'], c['ln']) if c['epi'] else ('sample', c['bs'])] * (c['times'] if due else 0)
        if calls != want:
            return 'at step %d the updates were %s, expected %s' % (it, calls, want)
    return None


run_rec.weight = 3
CASES = [('record', gen_rec, run_rec), ('updater', gen_upd, run_upd)]
