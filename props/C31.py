"""C31 Agents act by their model: explored while training, unexplored in evaluation, and evaluation changes nothing."""
from props.lib import *
from pyvc import models, chmodel, npmodel as N
from pyvc.core import ObjSort
LEVEL = 'proof'
LEVEL_NOTE = ('any observations, any number of environments, any agent state; feature extraction, normalisation, networks, distributions and explorers are '
              'arbitrary functions; an arbitrary row is followed')
TRUSTED = ['networks, distributions and action values map row i of their input to row i of their output',
           'cuda.to_cpu of a numpy array is the array; sampling from a distribution by contract']
ASSUMPTIONS = ['one action is one value (its components are not told apart)', 'batch_states stacks phi of the observations in order (its own contract)']
W = world('ch31', models=lambda: chmodel.add(models.base_models()))
AG = 'chainerrl.agents.'
DQNS = [('dqn', 'DQN'), ('iqn', 'IQN')]
ALL = DQNS + [('ddpg', 'DDPG'), ('td3', 'TD3'), ('soft_actor_critic', 'SoftActorCritic'), ('pgt', 'PGT'), ('a2c', 'A2C'), ('a3c', 'A3C'), ('acer', 'ACER'),
              ('ppo', 'PPO'), ('trpo', 'TRPO'), ('reinforce', 'REINFORCE'), ('pcl', 'PCL'), ('nsq', 'NSQ')]
BATCH = [x for x in ALL if x[1] in ('DQN', 'IQN', 'DDPG', 'TD3', 'SoftActorCritic', 'A2C', 'PPO', 'TRPO')]
SERIAL = [x for x in ALL if x[1] != 'A2C']
REC = ('DQN', 'IQN', 'PPO', 'TRPO')
NORM = ('PPO', 'TRPO')
DET = ('SoftActorCritic', 'PGT', 'A2C', 'A3C', 'ACER', 'PPO', 'TRPO', 'REINFORCE', 'PCL', 'IQN')
BURN = ('DDPG', 'TD3', 'SoftActorCritic')
I_ = z3.IntSort()


def fn(nm, *sorts):
    return z3.Function(nm, *sorts)


def phi_(o):
    return mk(fn('phi_of', ObjSort, I_)(o.t))


def norm_(x):
    return mk(fn('normalised', I_, I_)(zint(x)))


def row_(kind, x, d=0):
    return mk(fn(kind, I_, I_, I_)(zint(x), zint(d)))


class Feats(Obj):
    """a batch of features; row i belongs to observation i"""

    def __init__(self, n, at):
        self._pvghost_at, self.n = at, n
        self.shape = (n, 3)

    def at(self, i):
        return self._pvghost_at(i)

    def __getitem__(self, i):
        return self._pvghost_at(i)


class Out(Obj):
    """an output of a network that is only logged or stored"""

    def __init__(self, n):
        self.n = n

    @property
    def array(self):
        return N.Arr((self.n,), N.memo_nd(lambda *ix: fresh_real('out')), 'f')

    def __getitem__(self, i):
        return Out(self.n)


class Acts(Obj):
    """actions of the rows of a batch (a variable)"""

    def __init__(self, n, at):
        self.n, self._pvghost_at = n, at

    @property
    def array(self):
        at = self._pvghost_at
        return N.Arr((self.n,), lambda i: at(i), 'i')

    def __pv_seq__(self):
        at = self._pvghost_at
        return Seq(n=self.n, at=lambda i: ActRow(at(i)))


class ActRow(loops.Handle):
    """one row of a variable of actions"""
    @property
    def array(self):
        return self.parts[0]


class Env(object):
    """what the agent is wired to"""

    def __init__(self, mod, cls, batch, training):
        self.cls, self.training = cls, training
        M = W.load(AG + mod)
        C = getattr(M, cls)
        a = self.a = C.__new__(C)
        self.n = n = fresh_int('n', 1) if batch else 1
        self.w = fresh_int('w', 0)
        assume(self.w < n)
        if batch:
            nm = ctx().name_('obs')
            self.obs = Seq(n=n, at=heap.memo_at(lambda i: core.SObj(fn(nm, I_, ObjSort)(zint(i)))))
        else:
            o = fresh_obj('obs')
            self.obs = Seq([o])
        self.norm = cls in NORM and bool(choose(2))
        self.rec = cls in REC and bool(choose(2))
        self.det = cls in DET and bool(choose(2))
        self.draws, self.picks = [], []
        E = self

        a.phi = fresh_obj('phi')
        a.xp = N.NP
        a.logger = Quiet()
        a.t = fresh_int('t', 1)
        a.t_start = fresh_int('t_start', 0)
        a.act_deterministically = self.det
        a.recurrent = self.rec
        a.train_recurrent_states = a.test_recurrent_states = a.train_prev_recurrent_states = None

        def batch_states(states, xp, phi):
            check(phi is a.phi, 'observations go through the feature extractor of the agent')
            s = to_seq(states)
            return Feats(s.n, lambda i: phi_(s.at(i)))
        a.batch_states = batch_states
        # ACER applies phi itself
        if cls == 'ACER':
            a.phi = lambda o: One(phi_(o))
            M.np.expand_dims if hasattr(M, 'np') else None

        def normalizer(x, update=True):
            check(update is False, 'acting leaves the statistics of the normaliser alone')
            return Feats(x.n, lambda i: norm_(x.at(i)))
        a.obs_normalizer = Callable(normalizer) if self.norm else None

        class Dist(Obj):
            def __init__(self, x):
                self.x = x

            def sample(self):
                x, d = self.x, len(E.draws)
                E.draws.append(x)
                return Acts(x.n, lambda i: row_('sample', x.at(i), d))

            @property
            def most_probable(self):
                x = self.x
                return Acts(x.n, lambda i: row_('mode', x.at(i)))

            def log_prob(self, x):
                return Out(self.x.n)

            @property
            def entropy(self):
                return Out(self.x.n)

            def copy(self):
                return self

        class Values(Obj):
            def __init__(self, x, lo=0, hi=None, taus=0):
                self.x, self.lo, self.hi, self.taus = x, lo, x.n if hi is None else hi, taus

            @property
            def max(self):
                return Out(self.hi - self.lo)

            @property
            def greedy_actions(self):
                x, lo, t = self.x, self.lo, self.taus
                return Acts(self.hi - lo, lambda i: row_('greedy', x.at(lo + i), t))

            def evaluate_actions(self, acts):
                return Out(self.hi - self.lo)

            def __getitem__(self, s):
                check(isinstance(s, slice) and s.step is None, 'rows of the action values')
                return Values(self.x, self.lo + s.start, self.lo + s.stop, self.taus)
        self.Values = Values

        def net(make):
            def f(x, *st):
                check(isinstance(x, Feats), 'the network sees the features of the observations')
                E.seen = x
                r = make(x)
                return (r, Obj()) if E.rec else r
            return Callable(f)
        self.net, self.Dist = net, Dist
        V = lambda x: Out(x.n)
        if cls == 'DQN':
            a.model = net(lambda x: Values(x))
        elif cls == 'IQN':
            a.quantile_thresholds_K = fresh_int('K', 2)
            a.model = net(lambda x: Callable(lambda taus: Values(x, taus=E.taus(taus))))
        elif cls in ('DDPG', 'TD3', 'SoftActorCritic', 'PGT'):
            a.policy = net(lambda x: Dist(x))
            a.q_function = Callable(lambda x, b: Out(x.n))
            a.model = Obj()
            a.q_func1 = a.q_func2 = a.q_function
        elif cls in ('A2C', 'A3C'):
            a.model = Obj(pi_and_v=lambda x: (Dist(x), Vals(x.n)))
        elif cls == 'ACER':
            a.model = net(lambda x: (Dist(x), Values(x), V(x)))
            a.shared_average_model = net(lambda x: (Dist(x), Values(x), V(x)))
        elif cls in ('PPO', 'TRPO', 'PCL'):
            a.model = net(lambda x: (Dist(x), V(x)))
            if cls == 'TRPO':
                a.policy = net(lambda x: Dist(x))
        elif cls == 'REINFORCE':
            a.model = net(lambda x: Dist(x))
        elif cls == 'NSQ':
            a.q_function = net(lambda x: Values(x))
        # what is learned from, and by
        if not training:
            for nm in ('replay_buffer', 'replay_updater', 'explorer', 'optimizer', 'memory', 'last_episode', 'past_rewards', 'past_states', 'past_values',
                       'past_actions', 'past_action_log_prob', 'past_action_entropy', 'past_action_values', 'past_action_distrib', 'reward_sequences',
                       'log_prob_sequences', 'entropy_sequences', 'value_record', 'entropy_record', 'batch_last_obs', 'batch_last_action', 'batch_last_state',
                       'last_state', 'last_action', 'states', 'actions', 'rewards', 'value_preds', 'actor_optimizer', 'policy_optimizer', 't_global',
                       'burnin_action_func'):
                setattr(a, nm, Forbidden(nm))
        if cls in ('DQN', 'IQN', 'DDPG', 'PGT'):
            a.average_q, a.average_q_decay = fresh_real('q'), fresh_real('decay')

    def taus(self, t):
        """the thresholds are spread evenly when acting deterministically, drawn otherwise"""
        if not self.training and self.det:
            check(isinstance(t, Even), 'evenly spaced quantile thresholds when acting deterministically')
            return 0
        check(isinstance(t, Drawn), 'drawn quantile thresholds')
        return t.no

    def features(self, i):
        x = phi_(self.obs.at(i))
        return norm_(x) if self.norm else x

    def want(self, i, deterministic):
        """what the model prescribes for observation i"""
        x = self.features(i)
        if self.cls in ('DQN', 'NSQ'):
            return row_('greedy', x)
        if self.cls == 'IQN':
            return row_('greedy', x, 0 if deterministic else 1)
        if deterministic:
            return row_('mode', x)
        return row_('sample', x, max(len(self.draws) - 1, 0))


class Vals(Out):
    @property
    def array(self):
        return N.Arr((self.n, 1), N.memo_nd(lambda *ix: fresh_real('v')), 'f')


class Quiet(Obj):
    def debug(self, *a, **k):
        pass
    info = warning = error = debug


class One(Obj):
    """the features of one observation"""

    def __init__(self, v):
        self.v = v


class Callable(Obj):
    def __init__(self, f):
        self._pvghost_f = f

    def __call__(self, *a, **k):
        return self._pvghost_f(*a, **k)


class Forbidden(object):
    """evaluation does not touch it"""
    __pv_obj__ = False

    def __init__(self, nm):
        object.__setattr__(self, 'nm', nm)

    def _no(self, *a, **k):
        unreachable('evaluation neither records nor updates nor explores')
    __getattr__ = __setattr__ = __getitem__ = __setitem__ = __call__ = __len__ = __iter__ = _no


class Even(Obj):
    pass


class Drawn(Obj):
    def __init__(self, no):
        self.no = no

    def astype(self, t):
        return self


class TauNP(object):
    """numpy as IQN uses it when acting"""

    def __init__(self, E):
        self.E = E
        self.float32 = 'f'
        self.random = self
        self.no = 0

    def linspace(self, lo, hi, num, dtype=None):
        check(And(same(lo, 0), same(hi, 1), same(num, self.E.a.quantile_thresholds_K)), 'equally spaced from 0 to 1')
        return Even()

    def broadcast_to(self, x, shape):
        check(And(same(shape[0], self.E.n), same(shape[1], self.E.a.quantile_thresholds_K)), 'the same thresholds for every row')
        return x

    def uniform(self, lo, hi, size):
        check(And(same(lo, 0), same(hi, 1), same(size[0], self.E.n), same(size[1], self.E.a.quantile_thresholds_K)), 'uniform thresholds for every row')
        self.no += 1
        return Drawn(self.no)


def setup(mod, cls, batch, training):
    E = Env(mod, cls, batch, training)
    if cls == 'IQN':
        E.a.xp = TauNP(E)
    if cls == 'ACER':
        class NP2(object):
            def __getattr__(self, nm):
                return getattr(N.NP, nm)

            def expand_dims(self, x, axis):
                check(axis == 0, 'a batch of one observation')
                return Feats(1, lambda i: x.v)
        patch(W.load(AG + mod), 'np', NP2())
    return E


ALLOWED = ('average_q', 'test_recurrent_states')


def frame(a):
    return dict(a.__dict__)


def unchanged(a, before):
    for k in sorted(set(a.__dict__) | set(before)):
        if k in ALLOWED:
            continue
        check(k in a.__dict__ and k in before and a.__dict__[k] is before[k], 'evaluation changes nothing the agent learned or counts')


def evaluate(mod, cls, batch):
    E = setup(mod, cls, batch, False)
    a = E.a
    before = frame(a)
    if batch:
        r = to_seq(a.batch_act(PList(seq=E.obs)))
        check(same(r.n, E.n), 'one action per observation')
        r = r.at(E.w)
    else:
        r = a.act(E.obs.at(0))
    det = E.det
    check(len(E.draws) <= 1, 'one draw per action')
    check(same(r, E.want(E.w, det)), 'the action the model prescribes for this very observation')
    unchanged(a, before)
    cover('deterministic' if det else 'acted')


class Picked(loops.Handle):
    """what the explorer makes of a greedy action"""


class Sink(Obj):
    """a place the agent records in (what is recorded is the business of other properties)"""

    def append(self, *a, **k):
        pass

    def extend(self, *a, **k):
        pass

    def __setitem__(self, k, v):
        pass

    def __getitem__(self, k):
        return Sink()

    def update_if_necessary(self, t):
        pass


def train(mod, cls, batch):
    E = setup(mod, cls, batch, True)
    a = E.a
    burn = cls in BURN and bool(choose(2))
    for nm in ('replay_buffer', 'replay_updater', 'past_rewards', 'past_states', 'past_values', 'past_actions', 'past_action_log_prob', 'past_action_entropy',
               'past_action_values', 'past_action_distrib', 'past_avg_action_distrib', 'reward_sequences', 'log_prob_sequences', 'entropy_sequences',
               'value_record', 'entropy_record', 'last_episode', 'states', 'actions', 'value_preds'):
        setattr(a, nm, Sink())
    a.last_state = a.last_action = a.last_action_distrib = None
    a.t0 = a.t
    a.target_update_interval = fresh_int('interval', 1)
    a.sync_target_network = lambda: None
    a._update_if_dataset_is_ready = lambda: None
    a.update = a.update_on_policy = a.update_from_replay = lambda *x: None
    a.n_times_replay = 0
    a.process_idx = 1
    a.t_max = a.update_steps = fresh_int('t_max', 1)
    a.online_batch_losses = ()
    for nm in ('value', 'entropy', 'q'):
        setattr(a, 'average_' + nm, fresh_real(nm))
        setattr(a, 'average_%s_decay' % nm, fresh_real(nm + '_decay'))
    if batch and cls in NORM:
        n = E.n
        a.batch_last_episode = a.batch_last_state = a.batch_last_action = PList(seq=Seq(n=n, at=lambda i: None))
    opt_t = fresh_int('updates', 0)
    a.actor_optimizer = a.policy_optimizer = Obj(t=opt_t)
    a.burnin_action_func = None
    if burn:
        a.burnin_action_func = Callable(lambda: row_('burnin', 0))
    expl = []
    counted = a.t

    class Explorer(Obj):
        def select_action(self, t, greedy_action_func, action_value=None):
            g = greedy_action_func()
            check(same(t, counted), 'exploration at the current step count')
            if action_value is not None:
                check(same(action_value.greedy_actions.array.at(0), g), 'the action values given to the explorer are those of the same observation')
                check(same(action_value.hi - action_value.lo, 1), 'of one observation')
            expl.append(1)
            return Picked(g)
    a.explorer = Explorer()
    if cls == 'PCL' and choose(2):
        a.explorer = None
    a.action_shape = ()
    if cls == 'NSQ':
        a.target_q_function = Obj()
        a.i_target = fresh_int('i_target', 1)

        class Lock(Obj):
            def __enter__(self):
                pass

            def __exit__(self, *x):
                return False
        a.t_global = Obj(value=counted, get_lock=lambda: Lock())
        patch(W.load(AG + mod), 'copy_param', Obj(copy_param=lambda t, s: None))
    if batch:
        r = to_seq(a.batch_act_and_train(PList(seq=E.obs)))
        check(same(r.n, E.n), 'one action per observation')
        r = r.at(E.w)
    else:
        r = a.act_and_train(E.obs.at(0), fresh_real('r'))
    if burn and same(opt_t, 0):
        check(same(r, row_('burnin', 0)), 'burn-in actions until the first update')
        cover('burn-in')
        return
    det = E.det and cls == 'PGT'
    want = E.want(E.w, det)
    explored = cls in ('DQN', 'IQN', 'DDPG', 'TD3', 'PGT', 'NSQ') or (cls == 'PCL' and a.explorer is not None)
    check(same(r, Picked(want) if explored else want), "the explorer's choice for this very observation" if explored else 'a sample of the policy for this very observation')
    cover('trained')


def harnesses(fns):
    out = []
    for nm, f, L, b in fns:
        for mod, cls in L:
            def h(f=f, mod=mod, cls=cls, b=b):
                f(mod, cls, b)
            h.__name__ = 'p_%s_%s' % (nm, cls)
            out.append(h)
    return out


PROOFS = harnesses([('act', evaluate, ALL, False), ('batch_act', evaluate, BATCH, True), ('train', train, SERIAL, False), ('batch_train', train, BATCH, True)])


def p_batch_states():
    """the default batch maker stacks phi of the observations in order"""
    M = W.load('chainerrl.misc.batch_states')
    n = fresh_int('n', 1)
    w = fresh_int('w', 0)
    assume(w < n)
    nm = ctx().name_('obs')
    obs = Seq(n=n, at=heap.memo_at(lambda i: core.SObj(fn(nm, I_, ObjSort)(zint(i)))))
    got = []

    def concat(feats, device=None):
        got.append(to_seq(feats))
        check(device in (None, -1), 'no transfer between devices')
        return 'batch'
    patch(M, 'chainer', Obj(cuda=Obj(available=False, cupy=None), dataset=Obj(concat_examples=concat)))
    r = M.batch_states(PList(seq=obs), N.NP, lambda o: phi_(o))
    check(r == 'batch' and len(got) == 1, 'one batch')
    check(same(got[0].n, n), 'one row per observation')
    check(same(got[0].at(w), phi_(obs.at(w))), 'row i is phi of observation i')
    cover('batch')


PROOFS.append(p_batch_states)


# ---------------------------------------------------------------- companion: real agents
DISCRETE_Q = ('DQN', 'DoubleDQN', 'AL', 'PAL', 'DoublePAL', 'DPP', 'SARSA', 'ResidualDQN', 'CategoricalDQN', 'CategoricalDoubleDQN', 'IQN', 'DoubleIQN')
KINDS = DISCRETE_Q + ('DQN-continuous', 'DDPG', 'DDPG-gaussian', 'TD3', 'SoftActorCritic', 'PGT', 'A2C', 'A2C-gaussian', 'A3C', 'A3C-gaussian', 'ACER', 'PPO',
                      'PPO-gaussian', 'TRPO', 'TRPO-gaussian', 'REINFORCE', 'PCL', 'NSQ')
NO_BATCH = ('PGT', 'A3C', 'A3C-gaussian', 'ACER', 'REINFORCE', 'PCL', 'NSQ')
NO_SERIAL_TRAINING = ('A2C', 'A2C-gaussian')


def gen_acts(rng):
    kind = rng.choice(KINDS)
    n = rng.choice([1, 2, 3, 4])
    batch = kind not in NO_BATCH and rng.random() < .6
    ops = []
    for _ in range(rng.randrange(1, 8)):
        ops.append(rng.choice(['eval', 'eval', 'train', 'train', 'other', 'end']))
    return dict(kind=kind, n=n, batch=batch, ops=ops, seed=rng.randrange(10 ** 6), det=rng.random() < .5, norm=rng.random() < .5,
                burn=rng.random() < .4, explorer=rng.random() < .5, t0=rng.choice([0, 0, 3]))


def run_acts(c):
    import random as rnd
    import warnings
    import numpy as np
    import chainer
    import chainer.links as L
    import chainer.functions as F
    from chainerrl import agents, q_functions, policies, replay_buffer, distribution, links, q_function
    from chainerrl.agents import a3c, a2c, acer, pcl, ddpg, pgt, dpp, al, pal, double_pal
    rnd.seed(c['seed'])
    np.random.seed(c['seed'])
    kind = c['kind']
    base, _, var = kind.partition('-')
    D, A = 3, 4
    batch, n = c['batch'], c['n'] if c['batch'] else 1
    det = c['det']
    big = 10 ** 6
    phi = lambda x: (np.asarray(x) * 2 - 1).astype(np.float32)
    expl = []

    class Spy(object):
        """hands out marked actions and remembers what it was asked"""

        def select_action(self, t, greedy_action_func, action_value=None):
            g = np.array(greedy_action_func())
            out = (g + 1) % A if g.dtype.kind in 'iu' else g + np.float32(10)
            out = out.astype(g.dtype) if g.ndim else g.dtype.type(out)
            expl.append((t, g, action_value, out))
            return out
    spy = Spy()
    burned = []

    def burnin():
        burned.append(np.float32([len(burned) + 100, 7]))
        return burned[-1]
    burn = burnin if c['burn'] else None

    class Space(object):
        low, high = np.float32([-.5, -.5]), np.float32([.5, .5])

    def opt(m):
        o = chainer.optimizers.SGD(0)
        o.setup(m)
        return o
    rb = replay_buffer.ReplayBuffer(100)
    off = dict(phi=phi, replay_start_size=100)
    gauss = var == 'gaussian'
    nact = 2 if gauss else A

    def policy():
        if gauss:
            return policies.FCGaussianPolicy(D, 2, n_hidden_layers=1, n_hidden_channels=5)
        return policies.FCSoftmaxPolicy(D, A, n_hidden_layers=1, n_hidden_channels=5)
    dist_of = None
    norm = None
    learned = []
    if base in DISCRETE_Q:
        C = getattr(agents, base, None) or getattr(dpp, base, None)
        if var == 'continuous':
            net = q_functions.FCQuadraticStateQFunction(D, 2, n_hidden_channels=5, n_hidden_layers=1, action_space=Space())
        elif 'Categorical' in base:
            net = q_functions.DistributionalFCStateQFunctionWithDiscreteAction(D, A, 5, -2, 2, 6, 1)
        elif 'IQN' in base:
            net = agents.iqn.ImplicitQuantileQFunction(
                psi=links.Sequence(L.Linear(D, 5), F.relu), phi=links.Sequence(agents.iqn.CosineBasisLinear(4, 5), F.relu), f=L.Linear(5, A))
        else:
            net = q_functions.FCStateQFunctionWithDiscreteAction(D, A, n_hidden_channels=5, n_hidden_layers=1)
        kw = dict(off)
        if 'IQN' in base:
            kw.update(act_deterministically=det, quantile_thresholds_K=7)
        ag = C(net, opt(net), rb, 0.9, spy, target_update_interval=1000, **kw)
        model = ag.model
    elif base in ('DDPG', 'PGT', 'TD3', 'SoftActorCritic'):
        if base == 'DDPG' and not gauss:
            pi = policies.FCDeterministicPolicy(D, 1, 5, 2, bound_action=False)
        elif base == 'TD3':
            pi = policies.FCDeterministicPolicy(D, 1, 5, 2, bound_action=False)
        elif base == 'SoftActorCritic':
            def squashed(x):
                m, v = F.split_axis(x, 2, axis=1)
                return distribution.SquashedGaussianDistribution(m, F.exp(v))
            pi = chainer.Sequential(L.Linear(D, 5), F.relu, L.Linear(5, 4), squashed)
        else:
            pi = policies.FCGaussianPolicy(D, 2, n_hidden_layers=1, n_hidden_channels=5)
        q = lambda: q_functions.FCSAQFunction(D, 2, n_hidden_channels=5, n_hidden_layers=1)
        if base in ('DDPG', 'PGT'):
            m = (ddpg.DDPGModel if base == 'DDPG' else pgt.PGTModel)(pi, q()) if hasattr(pgt, 'PGTModel') or base == 'DDPG' else ddpg.DDPGModel(pi, q())
            kw = dict(off)
            if base == 'PGT':
                kw['act_deterministically'] = det
            else:
                kw['burnin_action_func'] = burn
            ag = getattr(agents, base)(m, opt(m.policy), opt(m.q_function), rb, 0.9, spy, target_update_interval=1000, **kw)
        else:
            a_, b_ = q(), q()
            args = [pi, a_, b_, opt(pi), opt(a_), opt(b_), rb, 0.9] + ([spy] if base == 'TD3' else [])
            kw = dict(off, burnin_action_func=burn)
            if base == 'SoftActorCritic':
                kw['act_deterministically'] = det
            ag = getattr(agents, base)(*args, **kw)
        dist_of = lambda x: pi(x)
    else:
        pi = policy()
        v = L.Linear(D, 1)
        if base == 'A2C':
            class M2(chainer.Chain, a2c.A2CModel):
                def __init__(self):
                    super(M2, self).__init__(pi=pi, v=v)

                def pi_and_v(self, x):
                    return self.pi(x), self.v(x)
            m = M2()
            ag = agents.A2C(m, opt(m), gamma=.9, num_processes=n, phi=phi, act_deterministically=det, update_steps=50)
            dist_of = lambda x: ag.model.pi(x)
        elif base == 'A3C':
            m = a3c.A3CSeparateModel(pi, v)
            ag = agents.A3C(m, opt(m), t_max=big, gamma=.9, phi=phi, act_deterministically=det)
            dist_of = lambda x: ag.model.pi(x)
        elif base == 'ACER':
            m = acer.ACERSeparateModel(pi, q_functions.FCStateQFunctionWithDiscreteAction(D, A, n_hidden_channels=5, n_hidden_layers=1))
            ag = agents.ACER(m, opt(m), t_max=big, gamma=.9, replay_buffer=replay_buffer.EpisodicReplayBuffer(100), phi=phi, act_deterministically=det, n_times_replay=0)
            dist_of = lambda x: ag.model.pi(x)
        elif base in ('PPO', 'TRPO'):
            if c['norm']:
                norm = links.EmpiricalNormalization(D, clip_threshold=5)
                norm.experience(np.random.uniform(-2, 3, (6, D)).astype(np.float32))
            kw = dict(obs_normalizer=norm, gamma=.9, phi=phi, act_deterministically=det, update_interval=big)
            if base == 'PPO':
                m = links.Branched(pi, v)
                ag = agents.PPO(m, opt(m), **kw)
            else:
                ag = agents.TRPO(pi, v, opt(v), **kw)
            dist_of = lambda x: pi(x)
        elif base == 'REINFORCE':
            ag = agents.REINFORCE(pi, opt(pi), phi=phi, act_deterministically=det, batchsize=big)
            dist_of = lambda x: pi(x)
        elif base == 'PCL':
            m = pcl.PCLSeparateModel(pi, v) if hasattr(pcl, 'PCLSeparateModel') else a3c.A3CSeparateModel(pi, v)
            ag = agents.PCL(m, opt(m), replay_buffer=replay_buffer.EpisodicReplayBuffer(100), t_max=big, phi=phi, act_deterministically=det, n_times_replay=0,
                            explorer=spy if c['explorer'] else None)
            dist_of = lambda x: ag.model.pi(x)
        elif base == 'NSQ':
            q = q_functions.FCStateQFunctionWithDiscreteAction(D, A, n_hidden_channels=5, n_hidden_layers=1)
            ag = agents.NSQ(q, opt(q), t_max=big, gamma=.9, i_target=1000, explorer=spy, phi=phi)
    if base not in ('A2C', 'A3C', 'PPO', 'TRPO', 'NSQ') and hasattr(ag, 't') and base in DISCRETE_Q + ('DDPG', 'TD3', 'SoftActorCritic', 'PGT'):
        ag.t = c['t0']
    if base in ('DDPG', 'TD3', 'SoftActorCritic') and c['t0'] and burn:
        o_ = ag.actor_optimizer if base == 'DDPG' else ag.policy_optimizer
        o_.t = c['seed'] % 3
    # every link gets its own random values
    seen_links = set()
    for v_ in list(ag.__dict__.values()):
        if isinstance(v_, chainer.Link) and v_ is not norm and id(v_) not in seen_links:
            seen_links.add(id(v_))
            for p in v_.params():
                p.array[...] = np.random.uniform(-1, 1, p.shape)
    rows_of = []
    samples = []
    for Dn in ('SoftmaxDistribution', 'GaussianDistribution', 'SquashedGaussianDistribution', 'ContinuousDeterministicDistribution'):
        pass
    # draws from distributions are recorded
    real = {}

    def watch(K):
        f = K.__dict__.get('sample')
        if f is None:
            return

        def sample(self):
            r = f(self)
            samples.append((self, r))
            return r
        real[K] = f
        K.sample = sample

    def subclasses(K):
        out = [K]
        for x in K.__subclasses__():
            out += subclasses(x)
        return out

    def feats(obs):
        x = np.stack([phi(o) for o in obs])
        if norm is not None:
            x = norm(x, update=False)
            x = x.array if isinstance(x, chainer.Variable) else np.asarray(x)
        return x

    def params(d):
        out = []
        for k in ('logits', 'mean', 'var', 'x'):
            z = d.__dict__.get(k, None) if k != 'mean' else getattr(d, 'mean', None)
            if isinstance(z, chainer.Variable):
                out.append(z.array)
        return out

    def same_dist(a, b):
        x, y = params(a), params(b)
        return len(x) == len(y) and len(x) > 0 and all(p.shape == q.shape and np.allclose(p, q, atol=1e-5, rtol=1e-4) for p, q in zip(x, y))

    def greedy(obs, evaluation, state):
        """independent evaluation of the network"""
        x = feats(obs)
        if 'IQN' in base:
            K = ag.quantile_thresholds_K
            if evaluation and det:
                taus = np.stack([np.linspace(0, 1, K, dtype=np.float32)] * len(obs))
            else:
                keep = np.random.get_state()
                np.random.set_state(state)
                taus = np.random.uniform(0, 1, size=(len(obs), K)).astype('f')
                np.random.set_state(keep)
            return np.array(ag.model(x)(taus).greedy_actions.array)
        return np.array((ag.q_function if base == 'NSQ' else ag.model)(x).greedy_actions.array)

    def state_of(x, depth=0):
        if isinstance(x, chainer.Link):
            out = [(k, p.array.tobytes()) for k, p in sorted(x.namedparams()) if p.array is not None]
            for l in x.links():
                for nm in getattr(l, '_persistent', ()):
                    q = l.__dict__[nm]
                    out.append((nm, q.tobytes() if isinstance(q, np.ndarray) else q))
            return out
        if isinstance(x, chainer.Optimizer):
            return x.t
        if isinstance(x, (bool, int, float, str, type(None))):
            return repr(x)
        if isinstance(x, np.ndarray):
            return (id(x), x.tobytes())
        if isinstance(x, replay_buffer.ReplayBuffer) or type(x).__name__.endswith('ReplayBuffer'):
            return ('buffer', len(x)) + tuple((k, state_of(v, depth + 1)) for k, v in sorted(x.__dict__.items()) if isinstance(v, (list, dict)))
        if isinstance(x, (list, tuple)) or type(x).__name__ == 'deque':
            return [id(x), len(x)] + [state_of(y, depth + 1) if depth < 3 else id(y) for y in x]
        if isinstance(x, dict):
            return [id(x), sorted((str(k), str(state_of(y, depth + 1)) if depth < 3 else id(y)) for k, y in x.items())]
        if type(x).__name__ == 'Synchronized':
            return x.value
        return id(x)

    def snapshot():
        return {k: state_of(v) for k, v in ag.__dict__.items() if k not in ('average_q', 'test_recurrent_states', 'average_value', 'average_entropy')}

    rs = np.random.RandomState(c['seed'])
    new = lambda: [rs.uniform(0, 1, D) for _ in range(n)]
    obs = new()
    started = False
    eq = lambda a, b: np.asarray(a).shape == np.asarray(b).shape and np.allclose(a, b, atol=1e-4, rtol=1e-3)

    def check_rows(got, want, what, os_):
        if len(got) != len(os_):
            return '%s: %d actions for %d observations' % (what, len(got), len(os_))
        for i in range(len(os_)):
            if not eq(got[i], want[i]):
                return '%s: action %r for observation %d, expected %r' % (what, got[i], i, want[i])

    def evaluate(os_):
        what = '%s.%s' % (kind, 'batch_act' if batch else 'act')
        before = snapshot()
        del samples[:], expl[:]
        state = np.random.get_state()
        got = ag.batch_act(list(os_)) if batch else [ag.act(os_[0])]
        drawn = list(samples)
        after = snapshot()
        for k in before:
            if before[k] != after.get(k):
                return '%s: evaluation changes %s' % (what, k)
        if set(before) != set(after):
            return '%s: evaluation changes the attributes %r' % (what, sorted(set(before) ^ set(after)))
        if expl:
            return '%s: evaluation explores' % what
        if dist_of is None:
            return check_rows(got, greedy(os_, True, state), what, os_)
        with chainer.using_config('train', False):
            d = dist_of(feats(os_))
        if det and base not in ('DDPG', 'TD3'):
            return check_rows(got, d.most_probable.array, what + ' (deterministic)', os_)
        if len(drawn) != 1:
            return '%s: %d draws' % (what, len(drawn))
        if not same_dist(drawn[0][0], d):
            return '%s: drawn from the distribution of other observations' % what
        return check_rows(got, drawn[0][1].array, what, os_)

    def train(os_, reward):
        nonlocal started
        what = '%s.%s' % (kind, 'batch_act_and_train' if batch else 'act_and_train')
        del samples[:], expl[:]
        nb = len(burned)
        t = getattr(ag, 't', None) if base != 'NSQ' else ag.t_global.value
        early = False
        if burn is not None and base in ('DDPG', 'TD3', 'SoftActorCritic'):
            early = (ag.actor_optimizer if base == 'DDPG' else ag.policy_optimizer).t == 0
        state = np.random.get_state()
        got = ag.batch_act_and_train(list(os_)) if batch else [ag.act_and_train(os_[0], reward)]
        got = [np.array(g) for g in got]
        drawn = list(samples)
        if early:
            if expl or len(burned) - nb != len(os_):
                return '%s: before the first update, %d burn-in actions for %d observations' % (what, len(burned) - nb, len(os_))
            return check_rows(got, burned[nb:], what + ' (burn-in)', os_)
        if len(burned) != nb:
            return '%s: burn-in action after an update' % what
        explored = base in DISCRETE_Q + ('DDPG', 'TD3', 'PGT', 'NSQ') or (base == 'PCL' and c['explorer'])
        if dist_of is None:
            want = greedy(os_, False, state)
        else:
            with chainer.using_config('train', False):
                d = dist_of(feats(os_))
            if base == 'PGT' and det:
                want = d.most_probable.array
            else:
                if not drawn or not same_dist(drawn[-1][0], d):
                    return '%s: not drawn from the distribution of these observations' % what
                want = drawn[-1][1].array
        if explored:
            if len(expl) != len(os_):
                return '%s: the explorer is consulted %d times for %d observations' % (what, len(expl), len(os_))
            if any(e[0] != t for e in expl):
                return '%s: exploration at step %r instead of %r' % (what, [e[0] for e in expl], t)
            bad = check_rows([e[1] for e in expl], want, what + ' (given to the explorer)', os_)
            if bad:
                return bad
            for i, e in enumerate(expl):
                if e[2] is not None and not eq(e[2].greedy_actions.array, np.asarray(want[i])[None]):
                    return '%s: action values of another observation are given to the explorer' % what
            want = [e[3] for e in expl]
        elif expl:
            return '%s: unexpected exploration' % what
        return check_rows(got, want, what, os_)

    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for K in subclasses(distribution.Distribution):
            watch(K)
        try:
            for op in c['ops']:
                if op == 'other':
                    r = evaluate(new())
                elif op == 'eval':
                    r = evaluate(obs)
                elif op == 'train' and kind in NO_SERIAL_TRAINING and not batch:
                    r = None
                elif op == 'train':
                    r = train(obs, float(rs.randint(-3, 4)))
                    started = True
                    obs = new()
                    if batch:
                        ag.batch_observe_and_train(list(obs), rs.randint(-3, 4, n).astype(float), rs.rand(n) < .2, rs.rand(n) < .2)
                else:
                    r = None
                    if started and not batch:
                        ag.stop_episode_and_train(obs[0], 1.0, bool(rs.rand() < .7))
                        started = False
                        obs = new()
                if r:
                    return r
        finally:
            for K, f in real.items():
                K.sample = f
    return None


CASES = [('actions of real agents', gen_acts, run_acts)]
