"""C20 Value targets follow each algorithm and never bootstrap past terminals."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, sums, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('any batch size, any number of actions, any rewards, discounts, flags, actions and network outputs; an arbitrary batch entry is followed '
              '(losses of the actor-critic agents: as whole sums over the batch)')
TRUSTED = ['numpy and chainer.functions semantics (pyvc/npmodel.py, pyvc/chmodel.py)',
           'a network is a function of the row it is given (and of the recurrent state); action values are consistent (proved in C30)',
           'the categorical projection is the one proved in C21; batch_experiences labels batches as proved in C07']
ASSUMPTIONS = ['numbers are mathematical (no float32 rounding)', 'action indices lie in the range of actions',
               'two components per observation and action stand for any number of them']
AG = 'chainerrl.agents.'
W = world('ch20', models=lambda: chmodel.add(models.base_models()))
R, Z = z3.RealSort(), z3.IntSort()


def arr(name, sh, kind='f'):
    nm = ctx().name_(name)
    t = ('real',) if kind == 'f' else ('int',)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix))), kind)


def rf(name, args, sort=R):
    """value of an unknown function of numbers"""
    f = z3.Function(name, *([R] * len(args) + [sort]))
    return mk(f(*[zreal(a) for a in args]))


def V(sh, at, kind='f'):
    return chmodel.wrap(Arr(sh, N.memo_nd(at), kind))


class Rec(object):
    """recurrent input: a batch of sequences, known by name only"""

    def __init__(self, name, B):
        self.name, self.B = name, B


class Row(object):
    """what a network may depend on for batch entry b"""

    def __init__(self, x, rs=None):
        self.x, self.rs = x, rs

    def at(self, b):
        if isinstance(self.x, Rec):
            return ['%s/%s' % (self.x.name, self.rs.name if self.rs is not None else None), b]
        return ['', self.x.at(b, 0), self.x.at(b, 1)]

    def B(self):
        return self.x.B if isinstance(self.x, Rec) else self.x.shape[0]


def val(net, what, row, b, *more, **k):
    r = row.at(b)
    return rf('%s.%s.%s' % (net, what, r[0]), list(r[1:]) + list(more), **k)


class AV(Obj):
    """discrete action values of a network: any values, consistent with their maximum"""

    def __init__(self, net, row, off=0, n=None, tau=None):
        self.net, self.row, self.off, self.n, self.tau = net, row, off, row.B() if n is None else n, tau

    def more(self, b):
        return [] if self.tau is None else [self.tau.at(b + self.off)]

    def q(self, b, a):
        return val(self.net, 'q', self.row, b + self.off, a, *self.more(b))

    def g(self, b):
        g = val(self.net, 'greedy', self.row, b + self.off, *self.more(b), sort=Z)
        if not ctx().in_quant:
            assume(And(g >= 0, g < ctx()._nact))
        return g

    def mx(self, b):
        return self.q(b, self.g(b))

    @property
    def greedy_actions(self):
        return V((self.n,), self.g, 'i')

    @property
    def max(self):
        return V((self.n,), self.mx)

    def of(self, actions, f):
        a = chmodel.as_arr(actions).snapshot()
        check(And(a.ndim == 1, same(a.shape[0], self.n)), 'one action per batch entry')
        return V((self.n,), lambda b: f(b, a.at(b)))

    def evaluate_actions(self, actions):
        return self.of(actions, self.q)

    def compute_advantage(self, actions):
        return self.of(actions, lambda b, a: self.q(b, a) - self.mx(b))

    def compute_double_advantage(self, actions, argmax_actions):
        m = chmodel.as_arr(argmax_actions).snapshot()
        return self.of(actions, lambda b, a: self.q(b, a) - self.q(b, m.at(b)))

    def compute_expectation(self, beta):
        return V((self.n,), lambda b: val(self.net, 'expect', self.row, b + self.off, beta, *self.more(b)))

    @property
    def q_values(self):
        return V((self.n, ctx()._nact), self.q)

    def __getitem__(self, k):
        check(isinstance(k, slice) and k.step is None, 'action values are sliced by rows')
        lo = 0 if k.start is None else k.start
        hi = self.n if k.stop is None else k.stop
        hi = ite(hi > self.n, self.n, hi)
        return AV(self.net, self.row, self.off + lo, hi - lo, self.tau)

    # distributional
    @property
    def z_values(self):
        return ctx()._z

    def p(self, b, a, j):
        return val(self.net, 'p', self.row, b + self.off, a, j)

    def evaluate_actions_as_distribution(self, actions):
        a = chmodel.arr_of(actions).snapshot()
        return V((self.n, ctx()._z.shape[0]), lambda b, j: self.p(b, a.at(b), j))

    @property
    def max_as_distribution(self):
        return V((self.n, ctx()._z.shape[0]), lambda b, j: self.p(b, self.g(b), j))

    def quant(self, b, a, j):
        return val(self.net, 'z', self.row, b + self.off, a, self.tau.x.at(b + self.off, j))

    def evaluate_actions_as_quantiles(self, actions):
        a = chmodel.as_arr(actions).snapshot()
        return V((self.n, self.tau.x.shape[1]), lambda b, j: self.quant(b, a.at(b), j))


class Taus(object):
    """quantile thresholds: an array, and its rows as single values"""

    def __init__(self, x):
        self.x = x
        self.id = None

    def at(self, b):
        # the whole row, named by its first entries (rows of different draws differ by name of the draw)
        return self.x.at(b, 0)


class Net(Obj):
    xp = N.NP

    def __init__(self, name, iqn=False):
        self.name, self.iqn = name, iqn

    def out(self, row):
        if self.iqn:
            return lambda taus: AV(self.name, row, tau=Taus(chmodel.as_arr(taus).snapshot()))
        return AV(self.name, row)

    def __call__(self, x):
        if isinstance(x, Rec):
            check(False, 'recurrent models are unrolled over sequences')
        return self.out(Row(chmodel.as_arr(x).snapshot()))

    def n_step_forward(self, x, rs, output_mode):
        check(And(isinstance(x, Rec), output_mode == 'concat'), 'sequences are unrolled and concatenated')
        return self.out(Row(x, rs)), ('state after',)


class Explorer(Obj):
    """any explorer: picks an action from the time, the greedy action and the action values offered"""

    def __init__(self, t, av, b):
        self.t, self._pvghost_av = t, av

    def pick(self, g, av, i=0):
        return val(av.net, 'explored', av.row, av.off + i, g, sort=Z)

    def select_action(self, t, greedy_action_func, action_value=None):
        check(same(t, self.t), "the explorer is given the agent's step count")
        check(same(action_value.n, 1), 'the explorer is given the action values of one batch entry')
        a = self.pick(greedy_action_func(), action_value)
        assume(And(a >= 0, a < ctx()._nact))
        return a


class Batch(object):
    """an arbitrary batch, and the values the property speaks of for an arbitrary entry b"""

    def __init__(self, recurrent=False):
        self.B = B = fresh_int('B', 1)
        ctx()._nact = fresh_int('n_actions', 1)
        self.b = fresh_int('b', 0)
        assume(self.b < B)
        self.r, self.term, self.disc = arr('r', (B,)), arr('term', (B,)), arr('disc', (B,))
        nm, na = ctx().name_('act'), ctx()._nact

        def act(i):
            a = loops.fresh_of(('int',), nm, (zint(i),))
            if not ctx().in_quant:
                assume(And(a >= 0, a < na))
            return a
        self.act = Arr((B,), N.memo_nd(act), 'i')
        self.recurrent = recurrent
        if recurrent:
            self.s, self.n, self.rs, self.nrs = [Rec(x, B) for x in ('states', 'next_states', 'rs', 'next_rs')]
            self.rows, self.rown = Row(self.s, self.rs), Row(self.n, self.nrs)
        else:
            self.s, self.n = arr('s', (B, 2)), arr('s_next', (B, 2))
            self.rows, self.rown = Row(self.s), Row(self.n)
        self.d = {'state': self.s, 'next_state': self.n, 'reward': self.r, 'is_state_terminal': self.term, 'discount': self.disc, 'action': self.act}
        if recurrent:
            self.d.update(recurrent_state=self.rs, next_recurrent_state=self.nrs)

    def bellman(self, v, b=None):
        b = self.b if b is None else b
        return self.r.at(b) + self.disc.at(b) * (1 - self.term.at(b)) * v

    def dict(self):
        return PDict([(k, v) for k, v in self.d.items()])


def agent(mod, cls, S, iqn=False, **kw):
    M = W.load(AG + mod)
    c = getattr(M, cls)
    o = c.__new__(c)
    o.model, o.target_model = Net('model', iqn), Net('target', iqn)
    o.q_function, o.target_q_function = o.model, o.target_model
    o.recurrent, o.xp, o.t = S.recurrent, N.NP, fresh_int('t', 0)
    o.gamma = fresh_real('gamma')
    o.explorer = Explorer(o.t, None, None)
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def column(v, S, what):
    """entry b of a target or prediction, for arrays of shape (B,) or (B, 1)"""
    a = chmodel.as_arr(v)
    check(And(same(a.shape[0], S.B), a.ndim in (1, 2), True if a.ndim == 1 else same(a.shape[1], 1)), '%s: one value per batch entry' % what)
    return a.at(S.b) if a.ndim == 1 else a.at(S.b, 0)


def kept(S):
    """the batch is not modified"""
    old = {k: v.snapshot() for k, v in S.d.items() if isinstance(v, Arr)}

    def verify():
        for k, o in old.items():
            n = S.d[k]
            check(same(n.at(S.b) if o.ndim == 1 else n.at(S.b, 0), o.at(S.b) if o.ndim == 1 else o.at(S.b, 0)), 'the batch is not modified')
    return verify


def y_and_t(mod, cls, spec, y_spec=None, independent=True, **kw):
    S = Batch(bool(choose(2)))
    A = agent(mod, cls, S, **{k: v() for k, v in kw.items()})
    done = kept(S)
    y, t = A._compute_y_and_t(S.dict())
    y, t = column(y, S, 'prediction'), column(t, S, 'target')
    M, T = AV('model', S.rows), AV('target', S.rows)
    a = S.act.at(S.b)
    check(same(y, M.q(S.b, a)), "prediction: the online network's value of the action taken")
    want, extra = spec(A, S, AV('model', S.rown), AV('target', S.rown), T, a)
    check(same(t, S.bellman(want) + extra), 'target: reward + discount * (1 - terminal) * prescribed next value')
    check(Implies(same(S.term.at(S.b), 1), same(t, S.r.at(S.b) + extra)), 'terminal entries do not bootstrap')
    done()
    cover('target')


def p_dqn():
    y_and_t('dqn', 'DQN', lambda A, S, Mn, Tn, T, a: (Tn.mx(S.b), 0))


def p_double_dqn():
    y_and_t('double_dqn', 'DoubleDQN', lambda A, S, Mn, Tn, T, a: (Tn.q(S.b, Mn.g(S.b)), 0))


def p_sarsa():
    y_and_t('sarsa', 'SARSA', lambda A, S, Mn, Tn, T, a: (Tn.q(S.b, A.explorer.pick(Tn.g(S.b), Tn, S.b)), 0))


def p_residual():
    y_and_t('residual_dqn', 'ResidualDQN', lambda A, S, Mn, Tn, T, a: (Mn.mx(S.b), 0), grad_scale=lambda: fresh_real('grad_scale'))


def p_al():
    y_and_t('al', 'AL', lambda A, S, Mn, Tn, T, a: (Tn.mx(S.b), A.alpha * (T.q(S.b, a) - T.mx(S.b))), alpha=lambda: fresh_real('alpha'))


def pal_extra(A, S, Tn, T, a):
    x, y = T.q(S.b, a) - T.mx(S.b), Tn.q(S.b, a) - Tn.mx(S.b)
    return A.alpha * ite(x > y, x, y)


def p_pal():
    y_and_t('pal', 'PAL', lambda A, S, Mn, Tn, T, a: (Tn.mx(S.b), pal_extra(A, S, Tn, T, a)), alpha=lambda: fresh_real('alpha'))


def p_double_pal():
    y_and_t('double_pal', 'DoublePAL', lambda A, S, Mn, Tn, T, a: (Tn.q(S.b, Mn.g(S.b)), pal_extra(A, S, Tn, T, a)), alpha=lambda: fresh_real('alpha'))


def p_dpp():
    ex = lambda A, S, v: val(v.net, 'expect', v.row, S.b, A.eta)
    y_and_t('dpp', 'DPP', lambda A, S, Mn, Tn, T, a: (ex(A, S, Tn), T.q(S.b, a) - ex(A, S, T)), eta=lambda: fresh_real('eta'))


def p_dpp_l():
    def eta():
        e = fresh_real('eta')
        assume(e > 0)
        return e

    def l(A, S, v):
        return chmodel.as_arr(chmodel.logsumexp(A.eta * v.q_values, axis=1)).at(S.b) / A.eta
    y_and_t('dpp', 'DPPL', lambda A, S, Mn, Tn, T, a: (l(A, S, Tn), T.q(S.b, a) - l(A, S, T)), eta=eta)


def p_dpp_greedy():
    y_and_t('dpp', 'DPPGreedy', lambda A, S, Mn, Tn, T, a: (Tn.mx(S.b), T.q(S.b, a) - T.mx(S.b)))


# ------------------------------------------------------------------ distributional
def categorical(mod, cls, greedy):
    S = Batch(bool(choose(2)))
    A = agent(mod, cls, S)
    n = fresh_int('n_atoms', 2)
    ctx()._z = z = arr('z', (n,))
    calls = []

    def projection(y, y_probs, z):
        a, p = chmodel.arr_of(y), chmodel.arr_of(y_probs)
        calls.append((a.snapshot(), p.snapshot(), chmodel.arr_of(z)))
        nm = ctx().name_('projected')
        return Arr((S.B, n), N.memo_nd(lambda b, j: loops.fresh_of(('real',), nm, (zint(b), zint(j)))), 'f')
    for m in ('categorical_dqn', 'categorical_double_dqn'):
        patch(W.load(AG + m), '_apply_categorical_projection', projection)
    done = kept(S)
    y, t = A._compute_y_and_t(S.dict())
    check(len(calls) == 1, 'the target distribution is projected once')
    Y, P, zz = calls[0]
    M, Mn, Tn = AV('model', S.rows), AV('model', S.rown), AV('target', S.rown)
    b, j = S.b, fresh_int('j', 0)
    assume(j < n)
    for x in (Y, P, chmodel.as_arr(y), chmodel.as_arr(t)):
        check(And([x.ndim == 2, same(x.shape[0], S.B), same(x.shape[1], n)]), 'one value per batch entry and atom')
    check(same(Y.at(b, j), S.bellman(z.at(j))), 'target atoms: reward + discount * (1 - terminal) * atom')
    check(Implies(same(S.term.at(b), 1), same(Y.at(b, j), S.r.at(b))), 'terminal entries do not bootstrap')
    check(same(P.at(b, j), Tn.p(b, greedy(b, Mn, Tn), j)), "target probabilities: the target network's, of the prescribed action")
    check(And(same(zz.shape[0], n), same(zz.at(j), z.at(j))), "projected onto the network's atoms")
    check(same(chmodel.as_arr(y).at(b, j), M.p(b, S.act.at(b), j)), "prediction: the online network's distribution of the action taken")
    done()
    cover('target')


def p_categorical():
    categorical('categorical_dqn', 'CategoricalDQN', lambda b, Mn, Tn: Tn.g(b))


def p_categorical_double():
    categorical('categorical_double_dqn', 'CategoricalDoubleDQN', lambda b, Mn, Tn: Mn.g(b))


class Rng(Obj):
    """uniform draws: fresh numbers, remembered in order"""

    def __init__(self):
        self._pvghost_draws = []

    def uniform(self, low=0.0, high=1.0, size=None):
        check(And(same(low, 0), same(high, 1)), 'thresholds are drawn from [0, 1]')
        sh = tuple(size)
        a = arr('tau', sh)
        self._pvghost_draws.append(a)
        return a


def quantile(mod, cls, double):
    S = Batch(bool(choose(2)))
    A = agent(mod, cls, S, iqn=True)
    A.quantile_thresholds_N, A.quantile_thresholds_N_prime, A.quantile_thresholds_K = n, n1, k = [fresh_int(x, 1) for x in ('N', 'N_prime', 'K')]
    ctx().np_random = rng = Rng()
    done = kept(S)
    t = chmodel.as_arr(A._compute_target_values(S.dict()))
    check(And([t.ndim == 2, same(t.shape[0], S.B), same(t.shape[1], n1)]), 'one target per batch entry and threshold')
    draws = rng._pvghost_draws
    b, j = S.b, fresh_int('j', 0)
    assume(j < n1)
    # some draw of K thresholds chose the action, another draw of N' is evaluated
    ok = []
    for x in draws:
        for y in draws:
            if x is y:
                continue
            G = AV('model' if double else 'target', S.rown, tau=Taus(x))
            T = AV('target', S.rown, tau=Taus(y))
            ok.append(And([same(x.shape[0], S.B), same(x.shape[1], k), same(y.shape[0], S.B), same(y.shape[1], n1),
                           same(t.at(b, j), S.bellman(T.quant(b, G.g(b), j)))]))
    check(Or(ok), 'target: reward + discount * (1 - terminal) * quantile of the prescribed action')
    check(Implies(same(S.term.at(b), 1), same(t.at(b, j), S.r.at(b))), 'terminal entries do not bootstrap')
    # prediction
    n0 = len(draws)
    y, taus = A._compute_y_and_taus(S.dict())
    y, taus = chmodel.as_arr(y), chmodel.as_arr(taus)
    check(And([y.ndim == 2, same(y.shape[0], S.B), same(y.shape[1], n), same(taus.shape[0], S.B), same(taus.shape[1], n)]), 'one prediction per entry and threshold')
    i = fresh_int('i', 0)
    assume(i < n)
    check(same(y.at(b, i), AV('model', S.rows, tau=Taus(taus)).quant(b, S.act.at(b), i)), "prediction: the online network's quantiles of the action taken")
    done()
    cover('target')


def p_iqn():
    quantile('iqn', 'IQN', False)


def p_double_iqn():
    quantile('double_iqn', 'DoubleIQN', True)


# ------------------------------------------------------------------ actor-critic
class Dist(Obj):
    """distribution over actions: every draw is a new function of the row"""

    def __init__(self, net, row, calls):
        self.net, self.row, self._pvghost_calls = net, row, calls

    def sample(self):
        k = len(self._pvghost_calls)
        self._pvghost_calls.append((self.net, self.row, k))
        return drawn(self.net, self.row, k)

    def sample_with_log_prob(self):
        a = self.sample()
        k = len(self._pvghost_calls) - 1
        return a, V((self.row.B(),), lambda b: log_prob_of_draw(self.net, self.row, k, b))

    @property
    def most_probable(self):
        return drawn(self.net, self.row, -1)

    def log_prob(self, x):
        x = chmodel.as_arr(x)
        return V((self.row.B(),), lambda b: val(self.net, 'logprob_of', self.row, b, x.at(b, 0), x.at(b, 1)))

    @property
    def entropy(self):
        return V((self.row.B(),), lambda b: val(self.net, 'entropy', self.row, b))


def drawn(net, row, k):
    return V((row.B(), 2), lambda b, c: val(net, 'action', row, b, c, k))


def log_prob_of_draw(net, row, k, b):
    return val(net, 'logprob', row, b, k)


class Versioned(Obj):
    """a network with parameters: another version after every change"""
    xp = N.NP

    def __init__(self, name):
        self.name = name
        self._pvghost_version = 0
        self._pvghost_log = []

    @property
    def vname(self):
        return '%s@%d' % (self.name, self._pvghost_version)

    def changed(self):
        self._pvghost_version += 1


class Policy(Versioned):
    def __call__(self, x):
        return Dist(self.vname, Row(chmodel.as_arr(x).snapshot()), self._pvghost_log)


class Critic(Versioned):
    def q(self, row, a, b, version=0):
        return val('%s@%d' % (self.name, version), 'Q', row, b, a.at(b, 0), a.at(b, 1))

    def __call__(self, s, a):
        row, a = Row(chmodel.as_arr(s).snapshot()), chmodel.as_arr(a).snapshot()
        check(And([a.ndim == 2, same(a.shape[0], row.B()), same(a.shape[1], 2)]), 'one action per state')
        v = self._pvghost_version
        self._pvghost_log.append((row, a))
        return V((row.B(), 1), lambda b, j: self.q(row, a, b, v))


class Optim(Obj):
    """optimizer: evaluates the loss and changes the parameters of its network"""

    def __init__(self, net, losses):
        self.net, self._pvghost_losses = net, losses
        self.t = fresh_int('updates', 0)

    def update(self, f=None, *a, **k):
        self._pvghost_losses.append((self.net.name, f(*a, **k)))
        self.net.changed()
        self.t = self.t + 1


class Record(Obj):
    """statistics: whatever is recorded"""

    def append(self, x):
        pass

    def extend(self, x):
        pass


def ac_agent(mod, cls, nets, policies, **kw):
    """an agent whose batches are those of experiences batched with its own phi and gamma (C07), its networks and its optimizers' losses"""
    ctx().abstract = 'som'
    S = Batch(False)
    S.act = S.d['action'] = arr('acts', (S.B, 2))
    c = getattr(W.load(AG + mod), cls)
    o = c.__new__(c)
    losses = []
    o.xp, o.t, o.gamma = N.NP, fresh_int('t', 0), fresh_real('gamma')
    o.phi, o.batch_states = fresh_obj('phi'), fresh_obj('batch_states')
    for k in ('average_critic_loss', 'average_actor_loss', 'average_loss_decay'):
        setattr(o, k, fresh_real(k))
    for k in ('q1_record', 'q2_record', 'q_func1_loss_record', 'q_func2_loss_record', 'policy_loss_record', 'entropy_record'):
        setattr(o, k, Record())
    G = {}
    for a, (ty, opt) in dict(nets, **policies).items():
        G[a] = root(a, ty(a))
        setattr(o, a, G[a])
        if opt:
            setattr(o, opt, root(opt, Optim(G[a], losses)))
    for k, v in kw.items():
        setattr(o, k, v)

    def sync():
        for a, g in G.items():
            if a.startswith('target_'):
                g.changed()
    o.sync_target_network = sync
    E = PList(seq=sym_seq('experiences', n=S.B))
    patch(W.load(AG + mod), 'batch_experiences', batcher(o, E, S))
    return S, o, G, losses, E


def batcher(o, E, S, seen=None):
    def batch_experiences(experiences, xp, phi, gamma, batch_states=None):
        check(experiences is E, 'the given experiences are batched')
        check(And(same(phi, o.phi), same(gamma, o.gamma)), "experiences are batched with the agent's feature extractor and discount factor")
        if seen is not None:
            seen.append(S)
        return S.dict()
    return batch_experiences


def mean_square(S, target, predict):
    sq = lambda b: (target(b) - predict(b)) * (target(b) - predict(b))
    return N.np_sum(Arr((S.B,), sq, 'f')) / S.B


def of(losses, name):
    ls = [l for n, l in losses if n == name]
    check(len(ls) == 1, 'one loss for %s' % name)
    a = chmodel.as_arr(ls[0])
    check(a.ndim == 0, 'a scalar loss')
    return a.at()


WHAT = 'critic loss: mean squared difference of the prediction and the prescribed target'


def ddpg_like(mod, cls):
    names = dict(q_function=(Critic, 'critic_optimizer'), target_q_function=(Critic, None))
    S, A, G, losses, E = ac_agent(mod, cls, names, dict(policy=(Policy, 'actor_optimizer'), target_policy=(Policy, None)), beta=fresh_real('beta'))
    done = kept(S)
    A.update(E)
    got = of(losses, 'q_function')
    calls = G['target_policy']._pvghost_log
    check(len(calls) > 0, "the target policy's action is judged")
    # some action drawn from the target policy at the next state
    ok = []
    for net, row, k in calls:
        a = chmodel.as_arr(drawn('target_policy@0', S.rown, k))
        ok.append(same(got, mean_square(S, lambda b: S.bellman(G['target_q_function'].q(S.rown, a, b), b), lambda b: G['q_function'].q(S.rows, S.act, b))))
    check(Or(ok), WHAT)
    done()
    cover('target')


def p_ddpg():
    ddpg_like('ddpg', 'DDPG')


def p_pgt():
    ddpg_like('pgt', 'PGT')


def twin(mod, cls, value, factor, policies, **kw):
    names = dict(q_func1=(Critic, 'q_func1_optimizer'), q_func2=(Critic, 'q_func2_optimizer'), target_q_func1=(Critic, None), target_q_func2=(Critic, None))
    S, A, G, losses, E = ac_agent(mod, cls, names, policies, **kw)
    done = kept(S)
    A.update(E)
    for net in ('q_func1', 'q_func2'):
        got = of(losses, net)
        ok = [same(got, factor * mean_square(S, lambda b: S.bellman(value(A, S, G, k, b), b), lambda b: G[net].q(S.rows, S.act, b))) for k in value.draws(G)]
        check(Or(ok), WHAT + ' (%s)' % net)
    done()
    cover('target')


def smaller(G, S, a, b):
    x, y = [G[k].q(S.rown, a, b) for k in ('target_q_func1', 'target_q_func2')]
    return ite(x < y, x, y)


def smooth(x):
    """the smoothed action: any function of the actions"""
    x = chmodel.arr_of(x).snapshot()
    return Arr((x.shape[0], 2), N.memo_nd(lambda b, c: rf('smoothed', [x.at(b, 0), x.at(b, 1), c])), 'f')


def p_td3():
    def value(A, S, G, k, b):
        return smaller(G, S, smooth(drawn('target_policy@0', S.rown, k)), b)
    value.draws = lambda G: [k for _, _, k in G['target_policy']._pvghost_log]
    delay = fresh_int('delay', 1)
    twin('td3', 'TD3', value, 1, dict(policy=(Policy, 'policy_optimizer'), target_policy=(Policy, None)),
         target_policy_smoothing_func=smooth, policy_update_delay=delay)


class Temperature(Versioned):
    def __call__(self):
        return chmodel.wrap(mk(z3.Real('temperature@%d' % self._pvghost_version)))


def p_sac():
    fixed = bool(choose(2))
    t0 = fresh_real('initial_temperature')

    def value(A, S, G, k, b):
        t = t0 if fixed else mk(z3.Real('temperature@0'))
        return smaller(G, S, chmodel.as_arr(drawn('policy@0', S.rown, k)), b) - t * log_prob_of_draw('policy@0', S.rown, k, b)
    value.draws = lambda G: [k for _, _, k in G['policy']._pvghost_log]
    kw = dict(initial_temperature=t0, entropy_target=None if fixed else fresh_real('entropy_target'))
    pol = dict(policy=(Policy, 'policy_optimizer'))
    if fixed:
        kw.update(temperature_holder=None, temperature_optimizer=None)
    else:
        pol['temperature_holder'] = (Temperature, 'temperature_optimizer')
    twin('soft_actor_critic', 'SoftActorCritic', value, Fraction(1, 2), pol, **kw)


# ------------------------------------------------------------------ the batch is that of the experiences
class Loss(Obj):
    def __init__(self):
        self.array = fresh_real('loss')

    def backward(self):
        pass


class Updatable(Obj):
    t = 0

    def update(self, f=None, *a, **k):
        if f is not None:
            f(*a, **k)

    def cleargrads(self):
        pass

    def update_errors(self, e):
        pass


def p_discount():
    """the loss is computed from the experiences batched with the agent's own discount factor"""
    S = Batch(False)
    A = agent('dqn', 'DQN', S)
    M = W.load(AG + 'dqn')
    A.phi, A.batch_states = fresh_obj('phi'), fresh_obj('batch_states')
    A.average_loss, A.average_loss_decay = fresh_real('l'), fresh_real('d')
    A.optimizer = A.model = A.replay_buffer = root('upd', Updatable())
    got, seen = [], []
    A._compute_loss = lambda exp_batch, errors_out=None: (got.append(exp_batch), Loss())[1]
    if choose(2):
        E = PList([PList([PDict([('weight', fresh_real('w'))])])]) if choose(2) else PList([PList([PDict([('state', 0)])])])
        patch(M, 'batch_experiences', batcher(A, E, S, seen))
        A.update(E)
    else:
        E = PList(seq=sym_seq('episodes', n=S.B))

        def batch_recurrent_experiences(experiences, model, xp, phi, gamma, batch_states=None):
            check(model is A.model, "the agent's model")
            return batcher(A, E, S, seen)(experiences, xp, phi, gamma, batch_states)
        patch(M, 'batch_recurrent_experiences', batch_recurrent_experiences)
        A.update_from_episodes(E)
    check(And(len(got) == 1, len(seen) == 1), 'one loss from one batch')
    for k, v in S.d.items():
        check(got[0][k] is v, 'the loss sees the batch')
    cover('batched')


PROOFS = [p_dqn, p_double_dqn, p_sarsa, p_residual, p_al, p_pal, p_double_pal, p_dpp, p_dpp_l, p_dpp_greedy, p_categorical, p_categorical_double,
          p_iqn, p_double_iqn, p_ddpg, p_pgt, p_td3, p_sac, p_discount]


# ------------------------------------------------------------------ concrete companion: real agents, oracle in plain numpy
DISCRETE = ['DQN', 'DoubleDQN', 'SARSA', 'ResidualDQN', 'AL', 'PAL', 'DoublePAL', 'DPP', 'DPPL', 'DPPGreedy', 'CategoricalDQN', 'CategoricalDoubleDQN', 'IQN', 'DoubleIQN']
CONT = ['DDPG', 'PGT', 'TD3', 'SoftActorCritic']


def gen_t(rng):
    kind = rng.randrange(2)
    c = dict(cls=rng.choice(DISCRETE) if kind == 0 or rng.random() < .4 else rng.choice(CONT), seed=rng.randrange(10 ** 6), gamma=rng.choice([1.0, .9, .5, 0.0]),
             exps=[dict(n=rng.choice([1, 1, 2, 3]), term=rng.random() < .4) for _ in range(rng.choice([1, 2, 3, 5]))], tgt=rng.random() < .5)
    c['rec'] = c['cls'] in DISCRETE and 'IQN' not in c['cls'] and rng.random() < .3
    return c


def _experiences(c, r, act, rec=None):
    E = []
    for e in c['exps']:
        w = []
        for k in range(e['n']):
            last = k == e['n'] - 1
            d = dict(state=r.uniform(-1, 1, 3).astype('f'), action=act(), reward=float(r.uniform(-2, 2)), next_state=r.uniform(-1, 1, 3).astype('f'),
                     next_action=None, is_state_terminal=bool(e['term'] and last))
            if rec is not None:
                d['recurrent_state'], d['next_recurrent_state'] = rec(), rec()
            w.append(d)
        E.append(w)
    return E


class _Opt(object):
    """collects the losses it is asked to minimise"""

    def __init__(self):
        self.t, self.losses = 0, []

    def setup(self, link):
        return self

    def update(self, f=None, *a, **k):
        if f is not None:
            self.losses.append(float(f(*a, **k).array))
        self.t += 1


def run_t(c):
    import warnings
    import logging
    warnings.simplefilter('ignore')
    import numpy as np
    import chainer
    chainer.config.use_ideep = 'never'
    r = np.random.RandomState(c['seed'])
    np.random.seed(c['seed'])
    return (_run_discrete if c['cls'] in DISCRETE else _run_cont)(c, r, np, chainer)


def _shake(link, r):
    for p in link.params():
        p.array[...] = r.uniform(-1, 1, p.array.shape)


def _run_discrete(c, r, np, chainer):
    import chainerrl
    from chainerrl import agents, action_value, links, replay_buffer, explorers
    import chainer.functions as F
    import chainer.links as L
    nact, natoms, cls = 3, 5, c['cls']
    zs = np.linspace(-2, 2, natoms).astype('f')
    cat, iqn, rec = 'Categorical' in cls, 'IQN' in cls, c['rec']

    def head(x):
        if cat:
            return action_value.DistributionalDiscreteActionValue(F.softmax(F.reshape(x, (-1, nact, natoms)), axis=2), zs)
        return action_value.DiscreteActionValue(x)
    nout = nact * natoms if cat else nact
    if rec:
        q = links.StatelessRecurrentSequential(L.NStepLSTM(1, 3, nout, 0), head)
    elif iqn:
        class Q(chainer.Chain):
            """quantile z(tau) = base + slope * tau with the same slope for all actions"""
            def __init__(self):
                super().__init__()
                with self.init_scope():
                    self.l = L.Linear(3, nact)
                self.taus = []

            def __call__(self, x):
                h = self.l(x)

                def f(taus):
                    self.taus.append(np.array(taus))
                    b, n = taus.shape
                    return action_value.QuantileDiscreteActionValue(
                        F.broadcast_to(h[:, None, :], (b, n, nact)) + F.broadcast_to(chainer.Variable(np.asarray(taus, 'f'))[:, :, None], (b, n, nact)))
                return f
        q = Q()
    else:
        class Q(chainer.Chain):
            def __init__(self):
                super().__init__()
                with self.init_scope():
                    self.l = L.Linear(3, nout)

            def __call__(self, x):
                return head(self.l(x))
        q = Q()
    _shake(q, r)

    class Ex(object):
        def select_action(self, t, greedy_action_func, action_value=None):
            # depends on everything it is offered
            return int((int(greedy_action_func()) + 1 + (float(action_value.max.array.ravel()[0]) > 0)) % nact)
    kw = {}
    if iqn:
        kw = dict(quantile_thresholds_N=4, quantile_thresholds_N_prime=3, quantile_thresholds_K=5)
    if cls in ('AL', 'PAL', 'DoublePAL'):
        kw = dict(alpha=.7)
    if cls in ('DPP', 'DPPL'):
        kw = dict(eta=1.5)
    opt = _Opt()
    rb = replay_buffer.EpisodicReplayBuffer(10 ** 3) if rec else replay_buffer.ReplayBuffer(10 ** 3)
    import chainerrl.agents.dpp
    A = getattr(agents, cls, None) or getattr(agents.dpp, cls)
    A = A(q, opt, rb, c['gamma'], Ex(), replay_start_size=100, minibatch_size=10, clip_delta=False, recurrent=rec, **kw)
    if cls != 'ResidualDQN':
        _shake(A.target_model, r)
    model, target = A.model, A.target_model if cls != 'ResidualDQN' else A.model
    E = _experiences(c, r, lambda: int(r.randint(nact)), (lambda: (tuple(r.uniform(-1, 1, (1, nout)).astype('f') for _ in range(2)),)) if rec else None)

    # --- the batch of entries the property speaks of
    g = c['gamma']
    flat = []
    for w in E:
        if rec:
            for d in w:
                flat.append((d['state'], d['action'], d['reward'], d['next_state'], d['is_state_terminal'], g))
        else:
            flat.append((w[0]['state'], w[0]['action'], sum(g ** k * d['reward'] for k, d in enumerate(w)), w[-1]['next_state'],
                         any(d['is_state_terminal'] for d in w), g ** len(w)))
    n = len(flat)

    def outs(m, which):
        """raw outputs of a network for all entries"""
        with chainer.no_backprop_mode(), chainer.using_config('train', False):
            if not rec:
                x = np.array([f[0 if which == 's' else 3] for f in flat], 'f')
                return m.l(x).array
            key, rk = ('state', 'recurrent_state') if which == 's' else ('next_state', 'next_recurrent_state')
            res = []
            for w in E:
                lstm = m[0]
                h, cc = [np.array(x) for x in w[0][rk][0]]
                _, _, ys = lstm(h[:, None, :], cc[:, None, :], [np.array([d[key] for d in w], 'f')])
                res.append(ys[0].array)
            return np.concatenate(res)
    sm = lambda x: np.exp(x - x.max(-1, keepdims=True)) / np.exp(x - x.max(-1, keepdims=True)).sum(-1, keepdims=True)
    Qs, Qn, Ts, Tn = outs(model, 's'), outs(model, 'n'), outs(target, 's'), outs(target, 'n')
    batcher_ = replay_buffer.batch_recurrent_experiences if rec else replay_buffer.batch_experiences
    bk = dict(model=model) if rec else {}
    batch = batcher_(E, xp=np, phi=lambda x: x, gamma=g, **bk)
    if iqn:
        A.target_model.taus, A.model.taus = [], []
        with chainer.no_backprop_mode():
            t = A._compute_target_values(batch)
        t = np.asarray(getattr(t, 'array', t))
        used = [x for x in A.target_model.taus if x.shape == (n, 3)]
        if len(used) < 1:
            return '%s: no N\' thresholds were evaluated by the target network' % cls
        a = (Qn if cls == 'DoubleIQN' else Tn).argmax(1)
        for i in range(n):
            _, _, R, _, term, d = flat[i]
            want = R + d * (0. if term else 1.) * (Tn[i, a[i]] + used[-1][i])
            if t.shape != (n, 3) or not np.allclose(t[i], want, atol=1e-3):
                return '%s: target quantiles of entry %d %s, prescribed %s' % (cls, i, t[i] if t.shape == (n, 3) else t.shape, want)
        return None
    want = []
    for i in range(n):
        _, a, R, _, term, d = flat[i]
        m = 0. if term else 1.
        if cat:
            P = sm((Tn[i]).reshape(nact, natoms))
            O = P if cls == 'CategoricalDQN' else sm(Qn[i].reshape(nact, natoms))
            b = int((O * zs).sum(1).argmax())
            out = np.zeros(natoms)
            dz = zs[1] - zs[0]
            for j in range(natoms):
                v = min(max(R + d * m * zs[j], zs[0]), zs[-1])
                for k in range(natoms):
                    out[k] += P[b, j] * max(0., 1 - abs(v - zs[k]) / dz)
            y = np.clip(sm(Qs[i].reshape(nact, natoms))[a], 1e-10, 1)
            want.append((out, y))
            continue
        T1, T0, O1 = Tn[i].astype(float), Ts[i].astype(float), Qn[i].astype(float)
        ex = 0.
        lse = lambda x: float(np.log(np.exp(1.5 * x).sum()) / 1.5)
        expect = lambda x: float((sm(1.5 * x) * x).sum())
        if cls in ('DQN', 'AL', 'PAL', 'DPPGreedy', 'ResidualDQN'):
            v = T1.max()
        elif cls in ('DoubleDQN', 'DoublePAL'):
            v = T1[O1.argmax()]
        elif cls == 'SARSA':
            v = T1[(int(T1.argmax()) + 1 + (T1.max() > 0)) % nact]
        elif cls == 'DPP':
            v = expect(T1)
        elif cls == 'DPPL':
            v = lse(T1)
        if cls == 'AL':
            ex = .7 * (T0[a] - T0.max())
        if cls in ('PAL', 'DoublePAL'):
            ex = .7 * max(T0[a] - T0.max(), T1[a] - T1.max())
        if cls.startswith('DPP'):
            ex = T0[a] - {'DPP': expect, 'DPPL': lse, 'DPPGreedy': lambda x: x.max()}[cls](T0)
        want.append((R + d * m * v + ex, Qs[i, a]))
    y, t = A._compute_y_and_t(batch)
    y, t = [np.asarray(getattr(x, 'array', x)) for x in (y, t)]
    if cat:
        for i in range(n):
            if not np.allclose(t[i], want[i][0], atol=1e-4):
                return '%s: target distribution of entry %d %s, prescribed %s (%s)' % (cls, i, t[i], want[i][0], flat[i][2:])
        return None
    y, t = y.ravel(), t.ravel()
    if len(y) != n or len(t) != n:
        return '%s: %d targets for %d entries' % (cls, len(t), n)
    for i in range(n):
        if abs(t[i] - want[i][0]) > 1e-3 * (1 + abs(want[i][0])):
            return '%s%s: target of entry %d is %g, prescribed %g (reward %g, terminal %s, discount %g)' % (
                (cls, ' (recurrent)' if rec else '', i, t[i], want[i][0]) + (flat[i][2], flat[i][4], flat[i][5]))
        if abs(y[i] - want[i][1]) > 1e-3:
            return '%s: prediction of entry %d is %g, not %g' % (cls, i, y[i], want[i][1])
    # and the loss that is minimised is that of these targets
    losses = []
    if rec:
        A.update_from_episodes(E)
        losses = opt.losses
    else:
        errors = []
        A.update(E, errors_out=errors)
        losses = [A.average_loss / (1 - A.average_loss_decay)]
        for i in range(n):
            if abs(errors[i] - abs(want[i][0] - want[i][1])) > 2e-3 * (1 + abs(want[i][0])):
                return '%s: update reports the error %g for entry %d, not %g' % (cls, errors[i], i, abs(want[i][0] - want[i][1]))
    wl = float(np.mean([(a - b) ** 2 for a, b in want]) / 2)
    if len(losses) != 1 or abs(losses[0] - wl) > 2e-3 * (1 + wl):
        return '%s: update minimises the loss %s, not %g' % (cls, losses, wl)


def _run_cont(c, r, np, chainer):
    from chainerrl import agents, q_functions, policies, replay_buffer, explorers, distribution
    cls, g = c['cls'], c['gamma']

    class Pi(chainer.Chain):
        """policy whose draws are a fixed function of the state"""
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.l = chainer.links.Linear(3, 2)

        def __call__(self, x):
            m = chainer.functions.tanh(self.l(x))
            outer = self

            class D(distribution.ContinuousDeterministicDistribution):
                def sample_with_log_prob(s):
                    return m, chainer.functions.sum(m, axis=1) * 2

                def log_prob(s, x):
                    return chainer.functions.sum(m, axis=1) * 2

                @property
                def entropy(s):
                    return chainer.functions.sum(m, axis=1)
            return D(m)

    def critic():
        q = q_functions.FCSAQFunction(3, 2, n_hidden_channels=4, n_hidden_layers=1)
        _shake(q, r)
        return q
    pi = Pi()
    _shake(pi, r)
    E = _experiences(c, r, lambda: r.uniform(-1, 1, 2).astype('f'))
    rb = replay_buffer.ReplayBuffer(100)
    o = [_Opt() for _ in range(4)]
    ex = explorers.Greedy()
    smooth = lambda a: a * .5 + .1
    if cls in ('DDPG', 'PGT'):
        model = chainer.Chain()
        with model.init_scope():
            model.policy, model.q_function = pi, critic()
        if cls == 'DDPG':
            from chainerrl.agents.ddpg import DDPGModel
            model = DDPGModel(pi, model.q_function)
        A = getattr(agents, cls)(model, o[0], o[1], rb, g, ex, replay_start_size=50, minibatch_size=10)
        tq, tp, qs, qopt = [A.target_q_function], A.target_policy, [A.q_function], [o[1]]
    elif cls == 'TD3':
        A = agents.TD3(pi, critic(), critic(), o[0], o[1], o[2], rb, g, ex, replay_start_size=50, minibatch_size=10, target_policy_smoothing_func=smooth)
        tq, tp, qs, qopt = [A.target_q_func1, A.target_q_func2], A.target_policy, [A.q_func1, A.q_func2], [o[1], o[2]]
    else:
        kw = dict(initial_temperature=.3)
        if c['tgt']:
            kw.update(entropy_target=-1., temperature_optimizer=o[3])
        A = agents.SoftActorCritic(pi, critic(), critic(), o[0], o[1], o[2], rb, g, replay_start_size=50, minibatch_size=10, **kw)
        tq, tp, qs, qopt = [A.target_q_func1, A.target_q_func2], A.policy, [A.q_func1, A.q_func2], [o[1], o[2]]
    for l in tq + [tp]:
        _shake(l, r)
    with chainer.no_backprop_mode(), chainer.using_config('train', False):
        s0 = np.array([w[0]['state'] for w in E], 'f')
        a0 = np.array([w[0]['action'] for w in E], 'f')
        s1 = np.array([w[-1]['next_state'] for w in E], 'f')
        a1 = np.tanh(tp.l(s1).array)
        lp = a1.sum(1) * 2
        if cls == 'TD3':
            a1 = smooth(a1)
        v = np.min([q(s1, a1).array[:, 0] for q in tq], axis=0)
        if cls == 'SoftActorCritic':
            v = v - .3 * lp
        preds = [q(s0, a0).array[:, 0] for q in qs]
    want = []
    for i, w in enumerate(E):
        R = sum(g ** k * d['reward'] for k, d in enumerate(w))
        want.append(R + g ** len(w) * (0. if any(d['is_state_terminal'] for d in w) else 1.) * float(v[i]))
    A.update(E)
    for k, (p, op) in enumerate(zip(preds, qopt)):
        wl = float(np.mean([(a - b) ** 2 for a, b in zip(want, p)])) * (.5 if cls == 'SoftActorCritic' else 1)
        if len(op.losses) != 1 or abs(op.losses[0] - wl) > 2e-3 * (1 + wl):
            return '%s: critic %d minimises the loss %s, not %g (targets %s)' % (cls, k + 1, op.losses, wl, want)


run_t.noshrink = True
run_t.max_cases = 2500
CASES = [('targets', gen_t, run_t)]
