"""C23 Advantages and value targets are exact GAE over each episode."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, sums, npmodel as N
LEVEL = 'proof'
LEVEL_NOTE = ('any number of episodes of any positive length, any rewards, predictions, flags, gamma and lambda; an arbitrary transition of an arbitrary '
              'episode is followed')
TRUSTED = ['itertools.chain.from_iterable, zip, list: order preserving', 'batch_states gives one row per observation, in order',
           'a model is a function of the row it is given (recurrent: of the position in the sequence and the initial state)',
           'splitting into sequences of limited length: proved in C24']
ASSUMPTIONS = ['numbers are mathematical (no float rounding)', 'episodes handed to an update are not empty (agents only store non-empty ones: proved)']
PPO = 'chainerrl.agents.ppo'
TRPO = 'chainerrl.agents.trpo'
W = world('ch23', models=lambda: chmodel.add(models.base_models()))
R, Z = z3.RealSort(), z3.IntSort()


def arr(name, sh, kind='f'):
    nm = ctx().name_(name)
    t = ('real',) if kind == 'f' else ('int',)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix))), kind)


WRITTEN = ('log_prob', 'v_pred', 'next_v_pred', 'adv', 'v_teacher')
REALS = ('reward', 'nonterminal', 'action')


KINDS = ['state', 'next_state', 'recurrent_state', 'next_recurrent_state']


class Feat(loops.Handle):
    """input value of a transition: (which, episode, position)"""


class Episodes(Obj):
    """episodes of transitions; the transition (e, i) is followed, and the one written to last"""

    def __init__(self, given=()):
        c = ctx()
        self.n = fresh_int('episodes', 1)
        self._pvghost_len = z3.Function(c.name_('len'), Z, Z)
        self._pvghost_given = given
        self.e, self.i = fresh_int('e', 0), fresh_int('i', 0)
        assume(And(self.e < self.n, self.i < self.len(self.e)))
        self.le = self.li = -1
        for k in WRITTEN:
            if k not in given:
                setattr(self, 'f_' + k, fresh_real('unset'))
                setattr(self, 'h_' + k, False)
                setattr(self, 'l_' + k, fresh_real('unset'))
                setattr(self, 'lh_' + k, False)

    def len(self, e):
        t = mk(self._pvghost_len(zint(e)))
        if not ctx().in_quant:
            assume(t > 0)
        return t

    def val(self, k, e, i):
        return mk(z3.Function('in_' + k, Z, Z, R)(zint(e), zint(i)))

    def obj(self, k, e, i):
        return Feat(KINDS.index(k), e, i)

    def read(self, k, e, i):
        if k in WRITTEN and k not in self._pvghost_given:
            if ctx().in_quant:
                return mk(z3.Function('any_' + k, Z, Z, R)(zint(e), zint(i)))
            last, fol = And(same(e, self.le), same(i, self.li)), And(same(e, self.e), same(i, self.i))
            if And(last, getattr(self, 'lh_' + k)):
                return getattr(self, 'l_' + k)
            if And(fol, getattr(self, 'h_' + k)):
                return getattr(self, 'f_' + k)
            if fol:
                raise KeyError(k)
            return mk(z3.Function('any_' + k, Z, Z, R)(zint(e), zint(i)))
        return self.val(k, e, i) if k in WRITTEN + REALS else self.obj(k, e, i)

    def write(self, k, v, e, i):
        heap.pure_guard('transition')
        check(k in WRITTEN and k not in self._pvghost_given, 'only computed values are written into transitions')
        fol = And(same(e, self.e), same(i, self.i))
        last = And(same(e, self.le), same(i, self.li))
        v = zr(v)
        setattr(self, 'f_' + k, ite(fol, v, getattr(self, 'f_' + k)))
        setattr(self, 'h_' + k, Or(fol, getattr(self, 'h_' + k)))
        for q in WRITTEN:
            if q not in self._pvghost_given and q != k:
                setattr(self, 'lh_' + q, And(last, getattr(self, 'lh_' + q)))
        setattr(self, 'l_' + k, v)
        setattr(self, 'lh_' + k, True)
        self.le, self.li = e, i

    def all(self):
        return PList(seq=Seq(n=self.n, at=heap.memo_at(lambda e: Ep(e))))


def zr(v):
    v = chmodel.arr_of(v)
    if isinstance(v, Arr):
        check(same(v.size, 1), 'one number')
        v = v.at(*([0] * v.ndim))
    return v if not isinstance(v, int) else Fraction(v)


def X():
    return ctx().roots['X']


class Ep(loops.Handle):
    """episode number e"""

    def __pv_len__(self):
        return X().len(self.parts[0])

    def __pv_bool__(self):
        return True

    def __pv_seq__(self):
        e, = self.parts
        return Seq(n=X().len(e), at=lambda i: Tr(e, i))

    def __iter__(self):
        raise Unsupported('iteration over an episode')

    def __reversed__(self):
        return heap.pv_reversed(PList(seq=self.__pv_seq__()))

    def __getitem__(self, k):
        return PList(seq=self.__pv_seq__())[k]


class Tr(loops.Handle):
    """transition i of episode e"""

    def __getitem__(self, k):
        return X().read(k, *self.parts)

    def __setitem__(self, k, v):
        X().write(k, v, *self.parts)

    def __contains__(self, k):
        return True

    def update(self, *a, **kw):
        for d in a + (kw,):
            for k, v in d.items():
                self[k] = v


# ------------------------------------------------------------------ one episode
class Gae(object):
    """the advantages as the recurrence adv(t) = delta(t) + gamma * lambda * adv(t + 1), adv(T) = 0"""

    def __init__(self, S, gamma, lam):
        self.S, self.g, self.l = S, gamma, lam
        self._A = z3.Function(ctx().name_('A'), Z, R)

    def delta(self, i):
        S, e = self.S, self.S.e
        return S.val('reward', e, i) + self.g * S.val('nonterminal', e, i) * S.val('next_v_pred', e, i) - S.val('v_pred', e, i)

    def __call__(self, i):
        a, b = mk(self._A(zint(i))), mk(self._A(zint(i) + 1))
        T = self.S.len(self.S.e)
        if not ctx().in_quant:
            assume(And(same(mk(self._A(zint(T))), Fraction(0)), Implies(And(i >= 0, i < T), same(a, self.delta(i) + self.g * self.l * b))))
        return a


def p_gae():

    S = root('X', Episodes(('log_prob', 'v_pred', 'next_v_pred')))
    g, l = fresh_real('gamma'), fresh_real('lambda')
    A = Gae(S, g, l)
    T = S.len(S.e)

    def inv(L):
        d = {}
        for p, v in L.loop.S0.items():
            if p.startswith('L.') and p.count('.') == 1 and isinstance(v, (SReal, float, Fraction)):
                d['running ' + p] = same(L.get(p), A(T - L.k))
        done = S.i >= T - L.k
        x = lambda k: L.get('R.X.' + k)
        d['set'] = Implies(done, And(x('h_adv'), x('h_v_teacher')))
        d['advantage'] = Implies(done, same(x('f_adv'), A(S.i)))
        d['value target'] = Implies(done, same(x('f_v_teacher'), A(S.i) + S.val('v_pred', S.e, S.i)))
        return d
    ctx().invfuns.append(inv)
    ep = PList(seq=Ep(S.e).__pv_seq__()) if choose(2) else Ep(S.e)
    W.load(PPO)._add_advantage_and_value_target_to_episode(ep, g, l)
    check(And(S.h_adv, S.h_v_teacher), 'every transition gets an advantage and a value target')
    check(same(S.f_adv, A(S.i)), 'the advantage is delta plus the discounted advantage of the next step of the episode, nothing after its last')
    check(same(S.f_v_teacher, A(S.i) + S.val('v_pred', S.e, S.i)), 'the value target is advantage plus predicted value')
    cover('gae')


def p_closed_form():
    """the recurrence is the sum over the rest of the episode of (gamma * lambda) ** (k - t) * delta(k)"""
    ctx().abstract = 'som'
    ctx().noext = True
    S = root('X', Episodes(('log_prob', 'v_pred', 'next_v_pred')))
    g, l = fresh_real('gamma'), fresh_real('lambda')
    A = Gae(S, g, l)
    T = S.len(S.e)
    c = g * l
    P = z3.Function(ctx().name_('pw'), Z, R)

    def pw(j):
        a = mk(P(zint(j)))
        if not ctx().in_quant:
            assume(And(same(mk(P(zint(0))), Fraction(1)), Implies(j >= 0, same(mk(P(zint(j) + 1)), c * a))))
        return a

    def part(t):
        # terms of the sum from t on
        return lambda j: pw(j) * A.delta(t + j)

    def Sum(f, n):
        return N.np_sum(Arr((n,), f, 'f'))
    # peeling the first term: sum_{j<k+1} part(t)(j) = delta(t) + c * sum_{j<k} part(t+1)(j)
    m = fresh_int('m', 0)
    assume(m < T)
    t = T - 1 - m
    k = fresh_int('k', 0)
    f, f1 = part(t), part(t + 1)
    peel = lambda q: same(Sum(f, q + 1), A.delta(t) + c * Sum(f1, q))
    pw(k), pw(k + 1), pw(0)
    check(peel(0), 'first term (none)')
    check(Implies(peel(k), same(pw(k + 1), c * pw(k))), 'powers')
    check(Implies(And(peel(k), same(f(k + 1), c * f1(k))), peel(k + 1)), 'first term (one more)')
    check(same(f(k + 1), c * f1(k)), 'terms shift')
    assume(peel(m))
    # induction over the number of remaining steps
    check(same(A(T), Sum(part(T), 0)), 'after the last step')
    claim = same(A(t + 1), Sum(f1, m))
    check(Implies(claim, same(A(t), Sum(f, m + 1))), 'the advantage is the discounted sum of the remaining errors')
    cover('sum')


def p_episodes():
    """every episode is processed, with the given parameters"""
    S = root('X', Episodes())
    g, l = fresh_real('gamma'), fresh_real('lambda')
    D = root('D', Obj(done=False))

    def one(episode, gamma, lambd):
        heap.pure_guard('episode')
        check(And(same(gamma, g), same(lambd, l)), 'gamma and lambda as given')
        check(isinstance(episode, Ep), 'whole episodes')
        D.done = Or(D.done, same(episode.parts[0], S.e))
    M = W.load(PPO)
    patch(M, '_add_advantage_and_value_target_to_episode', one)
    ctx().invfuns.append(lambda L: {'done': Implies(L.k > S.e, L.get('R.D.done'))} if L.loop.seq is not None else {})
    M._add_advantage_and_value_target_to_episodes(S.all(), g, l)
    check(D.done, 'every episode gets its advantages')
    cover('episodes')


# ------------------------------------------------------------------ the dataset
def V(sh, at, kind='f'):
    return chmodel.wrap(Arr(sh, N.memo_nd(at), kind))


def rf(name, *a):
    return mk(z3.Function(name, *([R] * len(a) + [R]))(*[zreal(x) for x in a]))


class Rows(Obj):
    """a batch of features, one per observation, in order"""

    def __init__(self, seq, norm=0):
        self.seq, self.norm = seq, norm

    def row(self, i):
        return list(self.seq.at(i).parts) + [self.norm]

    @property
    def n(self):
        return self.seq.n


class Dist(Obj):
    def __init__(self, n, row):
        self.n, self.row = n, row

    def log_prob(self, actions):
        a = chmodel.as_arr(actions).snapshot()
        check(And(a.ndim == 1, same(a.shape[0], self.n)), 'one action per row')
        return V((self.n,), lambda i: rf('logp', *(self.row(i) + [a.at(i)])))


class Normalizer(Obj):
    def __call__(self, x, update=True):
        check(update is False, 'predictions do not change the statistics')
        if isinstance(x, SeqRows):
            return SeqRows(x.parts[0], x.parts[1], 1)
        check(same(x.norm, 0), 'observations are normalized once')
        return Rows(x.seq, 1)

    def __bool__(self):
        return True


class Model(Obj):
    xp = N.NP

    def __call__(self, x):
        return Dist(x.n, x.row), V((x.n, 1), lambda i, j: rf('value', *x.row(i)))


def finish(S, g, l, logp, v, nv, ret, fl, recurrent):
    check(And(S.h_log_prob, S.h_v_pred, S.h_next_v_pred), 'every transition is labelled with its predictions')
    check(same(S.f_log_prob, logp), 'the log-probability of its own action at its own state')
    check(same(S.f_v_pred, v), 'the value of its own state')
    check(same(S.f_next_v_pred, nv), 'the value of its own next state')


def setup():
    S = root('X', Episodes())
    g, l = fresh_real('gamma'), fresh_real('lambda')
    M = W.load(PPO)
    calls = []
    eps = S.all()
    fl = heap.flat_of(to_seq(eps))
    p = fl.pos(S.e, S.i)
    return S, g, l, M, calls, eps, fl, p


def labelled(S, p, want):
    """the followed transition is labelled when its position has been passed"""
    def inv(L):
        if L.loop.seq is None:
            return {}
        try:
            x = {k: L.get('R.X.' + k) for k in ('h_log_prob', 'h_v_pred', 'h_next_v_pred', 'f_log_prob', 'f_v_pred', 'f_next_v_pred')}
        except KeyError:
            return {}
        d = {}
        for k, w in want.items():
            d['has ' + k] = Implies(L.k > p, x['h_' + k])
            d['is ' + k] = Implies(L.k > p, same(x['f_' + k], w))
        return d
    ctx().invfuns.append(inv)


def p_dataset():
    S, g, l, M, calls, eps, fl, p = setup()
    phi = fresh_obj('phi')
    model = root('model', Model())
    norm = root('norm', Normalizer()) if choose(2) else None
    nc = 0 if norm is None else 1

    def batch_states(states, xp, f):
        check(same(f, phi), 'features are extracted by phi')
        return Rows(to_seq(states))
    a = S.val('action', S.e, S.i)
    want = dict(log_prob=rf('logp', 0, S.e, S.i, nc, a), v_pred=rf('value', 0, S.e, S.i, nc), next_v_pred=rf('value', 1, S.e, S.i, nc))
    labelled(S, p, want)

    def adv(episodes, gamma, lambd):
        calls.append(1)
        check(And(same(gamma, g), same(lambd, l), same(to_seq(episodes).n, S.n)), 'advantages: gamma, lambda and episodes as given')
        check(same(to_seq(episodes).at(S.e), Ep(S.e)), 'advantages of every episode')
        finish(S, g, l, want['log_prob'], want['v_pred'], want['next_v_pred'], None, fl, False)
    patch(M, '_add_advantage_and_value_target_to_episodes', adv)
    ret = M._make_dataset(episodes=eps, model=model, phi=phi, batch_states=batch_states, obs_normalizer=norm, gamma=g, lambd=l)
    check(len(calls) == 1, 'advantages are computed once')
    r = to_seq(ret)
    check(same(r.n, fl.total), 'as many transitions as were collected')
    check(same(r.at(p), Tr(S.e, S.i)), 'the transitions in the order of their episodes')
    cover('dataset')


class SeqRows(loops.Handle):
    """the features of an episode: (which, episode, normalized)"""


class RS(Obj):
    """batched initial recurrent states: which"""

    def __init__(self, kind):
        self.kind = kind

    def __pv_len__(self):
        return 1

    def __len__(self):
        return 1


class RModel(Obj):
    xp = N.NP

    def concatenate_recurrent_states(self, states):
        s = to_seq(states)
        S = X()
        e = fresh_int('e2', 0)
        f = s.at(e)
        check(And(same(s.n, S.n), Implies(e < S.n, And(same(f.parts[1], e), same(f.parts[2], 0)))), "the states before each episode's first step")
        k = f.parts[0]
        return RS(k)

    def n_step_forward(self, xs, recurrent_state, output_mode):
        s = to_seq(xs)
        S = X()
        check(output_mode == 'concat', 'outputs are concatenated')
        e = fresh_int('e3', 0)
        r = s.at(e)
        check(And(same(s.n, S.n), Implies(e < S.n, same(r.parts[1], e))), 'one sequence per episode, in order')
        kind, nc = r.parts[0], r.parts[2]
        assume(e < S.n)
        fl = heap.flat_of(to_seq(S.all()))
        rk = recurrent_state.kind

        def row(p):
            o, k = fl.split(p)
            return [kind, o, k, nc, rk]
        return (Dist(fl.total, row), V((fl.total, 1), lambda p, j: rf('value', *row(p)))), ('after',)


def p_dataset_recurrent():
    S, g, l, M, calls, eps, fl, p = setup()
    phi = fresh_obj('phi')
    model = root('model', RModel())
    norm = root('norm', Normalizer()) if choose(2) else None
    nc = 0 if norm is None else 1

    def batch_states(states, xp, f):
        check(same(f, phi), 'features are extracted by phi')
        s = to_seq(states)
        x = s.at(0)
        j = fresh_int('j', 0)
        check(And(same(s.n, S.len(x.parts[1])), Implies(j < s.n, same(s.at(j), Feat(x.parts[0], x.parts[1], j)))), 'all the observations of one episode, in order')
        return SeqRows(x.parts[0], x.parts[1], 0)
    a = S.val('action', S.e, S.i)
    want = dict(log_prob=rf('logp', 0, S.e, S.i, nc, 2, a), v_pred=rf('value', 0, S.e, S.i, nc, 2), next_v_pred=rf('value', 1, S.e, S.i, nc, 3))
    labelled(S, p, want)
    limit = fresh_int('max_len', 1) if choose(2) else None
    token = []

    def adv(episodes, gamma, lambd):
        calls.append(1)
        check(And(same(gamma, g), same(lambd, l), same(to_seq(episodes).n, S.n)), 'advantages: gamma, lambda and episodes as given')
        check(same(to_seq(episodes).at(S.e), Ep(S.e)), 'advantages of every episode')
        finish(S, g, l, want['log_prob'], want['v_pred'], want['next_v_pred'], None, fl, True)
    patch(M, '_add_advantage_and_value_target_to_episodes', adv)

    def limited(sequences, max_len):
        check(limit is not None and same(max_len, limit), 'sequences are split as configured')
        check(And(same(to_seq(sequences).n, S.n), same(to_seq(sequences).at(S.e), Ep(S.e))), 'all episodes are split')
        token.append(PList([]))
        return token[0]
    patch(M, '_limit_sequence_length', limited)
    ret = M._make_dataset_recurrent(episodes=eps, model=model, phi=phi, batch_states=batch_states, obs_normalizer=norm, gamma=g, lambd=l,
                                    max_recurrent_sequence_len=limit)
    check(len(calls) == 1, 'advantages are computed once')
    if limit is not None:
        check(len(token) == 1 and ret is token[0], 'the dataset is the split episodes')
    else:
        r = to_seq(ret)
        check(And(same(r.n, S.n), same(r.at(S.e), Ep(S.e))), 'the dataset is the episodes in order')
    cover('dataset')


from props import recording


PROOFS = recording.harnesses([recording.act, recording.stop, recording.observe, recording.flush, recording.ready]) + [p_gae, p_closed_form, p_episodes, p_dataset, p_dataset_recurrent]


# ---------------------------------------------------------------- concrete companion
def gen_ds(rng):
    T = rng.randint(3, 14)
    ne = rng.choice([0, 0, 1, 2, 3])            # 0: the serial interface
    steps = []
    for _ in range(T):
        row = []
        for _ in range(max(ne, 1)):
            row.append([round(rng.uniform(-2, 2), 2), rng.random() < .2, rng.random() < .2])
        steps.append(row)
    rec = rng.random() < .4
    return dict(agent=rng.choice(['ppo', 'trpo']), n=ne, steps=steps, rec=rec, norm=rng.random() < .4, interval=rng.choice([1, 3, 5, 8, 100]),
                gamma=rng.choice([0, .5, .9, 1]), lambd=rng.choice([0, .3, .95, 1]), max_len=rng.choice([None, None, 1, 2, 3]) if rec else None,
                disc=rng.random() < .5, phi=rng.choice([1, 1, 3]), seed=rng.randrange(1000), switch=rng.random() < .3)


def run_ds(c):
    import numpy as np
    import chainer
    import chainerrl
    import random as rnd
    from chainer import links as L, functions as F
    from chainerrl import policies
    from chainerrl.links import StatelessRecurrentBranched, StatelessRecurrentSequential, EmpiricalNormalization
    from chainerrl.agents import ppo, trpo
    np.random.seed(c['seed'])
    rnd.seed(c['seed'])
    H, A = 4, 2

    def pol():
        return policies.FCSoftmaxPolicy(H, 3, n_hidden_layers=0) if c['disc'] else policies.FCGaussianPolicy(H, A, n_hidden_layers=0)
    if c['rec']:
        pi, v = (StatelessRecurrentSequential(L.NStepLSTM(1, 2, H, 0), x) for x in (pol(), L.Linear(H, 1)))
    else:
        pi, v = (chainer.Sequential(L.Linear(2, H), F.tanh, x) for x in (pol(), L.Linear(H, 1)))
    for x in (pi, v):
        for p in x.params():
            if p.array is not None:
                p.array[...] = np.random.normal(size=p.array.shape)
    norm = None
    if c['norm']:
        norm = EmpiricalNormalization(2)
        norm.experience(np.random.normal(1, 3, size=(7, 2)).astype('f'))
    scale = c['phi']
    kw = dict(obs_normalizer=norm, gamma=c['gamma'], lambd=c['lambd'], phi=lambda x: x * np.float32(scale), update_interval=c['interval'], recurrent=c['rec'],
              max_recurrent_sequence_len=c['max_len'])
    mods = (pi, v)
    if c['agent'] == 'ppo':
        model = (StatelessRecurrentBranched if c['rec'] else chainerrl.links.Branched)(pi, v)
        opt = chainer.optimizers.SGD(0)
        opt.setup(model)
        ag = ppo.PPO(model, opt, **kw)
    else:
        opt = chainer.optimizers.SGD(0)
        opt.setup(v)
        ag = trpo.TRPO(pi, v, opt, **kw)
        model = ag.model
    got = []
    pending = [0]

    def capture(dataset):
        d = list(dataset)
        eps = [list(e) for e in d] if c['rec'] else [d]
        got.append((eps, pending[0]))
        pending[0] = 0
    ag._update = ag._update_recurrent = capture

    # --- drive the agent, keeping what the caller sees
    n = max(c['n'], 1)
    hist = [[] for _ in range(n)]            # finished episodes of each environment: lists of (obs, action, reward, next obs, done)
    cur = [[] for _ in range(n)]
    uid = [0]

    def new_obs():
        uid[0] += 1
        return np.asarray([uid[0] * .01, np.random.normal()], dtype='f')
    obs = [new_obs() for _ in range(n)]
    reward = 0
    carried = []
    for t, row in enumerate(c['steps']):
        if c['n'] == 0:
            r, done, reset = row[0]
            end = done or reset or t == len(c['steps']) - 1
            if t or 1:
                a = ag.act_and_train(obs[0], reward)
            o2 = new_obs()
            cur[0].append((obs[0], a, r, o2, bool(done)))
            if c['switch']:
                ag.act(new_obs())
            pending[0] += 1
            if end:
                ag.stop_episode_and_train(o2, r, done=done)
                if c['switch']:
                    ag.act(new_obs())
                    ag.stop_episode()
                hist[0].append(cur[0])
                cur[0] = []
                obs[0] = new_obs()
                reward = 0
            else:
                obs[0], reward = o2, r
        else:
            acts = ag.batch_act_and_train(list(obs))
            if c['switch']:
                ag.batch_act([new_obs() for _ in range(n)])
            nxt = [new_obs() for _ in range(n)]
            for i in range(n):
                cur[i].append((obs[i], acts[i], row[i][0], nxt[i], bool(row[i][1])))
            pending[0] += n
            ag.batch_observe_and_train(list(nxt), [x[0] for x in row], [x[1] for x in row], [x[2] for x in row])
            if c['switch']:
                ag.batch_observe([new_obs() for _ in range(n)], [0] * n, [False] * n, [rnd.random() < .5 for _ in range(n)])
            obs = nxt
            for i in range(n):
                if row[i][1] or row[i][2]:
                    hist[i].append(cur[i])
                    cur[i] = []
                    obs[i] = new_obs()
    total = len(c['steps']) * n
    # --- which transitions reached an update: all but a tail shorter than the interval
    seen = {}
    for k, (eps, due) in enumerate(got):
        for e in eps:
            for tr in e:
                key = round(float(tr['state'][0]) * 100)
                if key in seen:
                    return 'the transition from observation %d reached updates twice' % key
                seen[key] = (k, tr)
    where = {}
    for i in range(n):
        for e, ep in enumerate(hist[i] + [cur[i]]):
            for j, tr in enumerate(ep):
                where[round(float(tr[0][0]) * 100)] = (i, e, j, tr, ep)
    missing = [k for k in where if k not in seen]
    extra = [k for k in seen if k not in where]
    if extra:
        return 'transitions that never happened reached an update: %s' % extra
    if len(missing) >= c['interval'] + (1 if c['n'] == 0 else 0):
        return '%d transitions were never used although the update interval is %d' % (len(missing), c['interval'])
    # no transition is overtaken by a later one of its environment
    for i in range(n):
        ks = [round(float(tr[0][0]) * 100) for ep in hist[i] + [cur[i]] for tr in ep]
        used = [k in seen for k in ks]
        if sorted(used, reverse=True) != used:
            return 'a transition was left out of the updates of environment %d while a later one was used: %s' % (i, list(zip(ks, used)))
        up = [seen[k][0] for k in ks if k in seen]
        if up != sorted(up):
            return 'transitions of environment %d reach updates out of order' % i
    # fields
    for k, (u, tr) in seen.items():
        i, e, j, w, ep = where[k]
        ctxt = 'environment %d episode %d step %d' % (i, e, j)
        if not np.array_equal(tr['state'], w[0]) or not np.array_equal(tr['next_state'], w[3]):
            return '%s: state/next state recorded as %s/%s, were %s/%s' % (ctxt, tr['state'], tr['next_state'], w[0], w[3])
        if not np.array_equal(tr['action'], w[1]):
            return '%s: action recorded as %s, was %s' % (ctxt, tr['action'], w[1])
        if tr['reward'] != w[2]:
            return '%s: reward recorded as %s, was %s' % (ctxt, tr['reward'], w[2])
        if tr['nonterminal'] != (0.0 if w[4] else 1.0):
            return '%s: nonterminal recorded as %s, done was %s' % (ctxt, tr['nonterminal'], w[4])
    # predictions, from the models alone
    def feat(o):
        x = (o * np.float32(scale))[None]
        return norm(x, update=False) if norm is not None else x

    def heads(o, hs):
        with chainer.using_config('train', False), chainer.no_backprop_mode():
            if c['rec']:
                d, hp = pi(feat(o), hs[0])
                vv, hv = v(feat(o), hs[1])
                return d, float(vv.array[0, 0]), (hp, hv)
            return pi(feat(o)), float(v(feat(o)).array[0, 0]), None
    pred = {}
    for i in range(n):
        for ep in hist[i] + [cur[i]]:
            hs = (None, None)
            for tr in ep:
                d, val, hs2 = heads(tr[0], hs)
                with chainer.no_backprop_mode():
                    lp = float(d.log_prob(np.asarray([tr[1]])).array[0])
                nv = heads(tr[3], hs2)[1]
                pred[round(float(tr[0][0]) * 100)] = (lp, val, nv)
                hs = hs2

    def near(a, b):
        return abs(a - b) <= 2e-4 * (1 + abs(a) + abs(b))
    for k, (u, tr) in seen.items():
        i, e, j, w, ep = where[k]
        ctxt = 'environment %d episode %d step %d' % (i, e, j)
        for nm, want in zip(('log_prob', 'v_pred', 'next_v_pred'), pred[k]):
            if not near(float(np.asarray(tr[nm]).reshape(-1)[0]), want):
                return '%s: %s is %s, the model gives %s' % (ctxt, nm, tr[nm], want)
        # the sum over the rest of what this update knows of the episode
        adv = 0
        f = 1
        for x in ep[j:]:
            kk = round(float(x[0][0]) * 100)
            if kk not in seen or seen[kk][0] != u:
                break
            adv += f * (x[2] + c['gamma'] * (0 if x[4] else 1) * pred[kk][2] - pred[kk][1])
            f *= c['gamma'] * c['lambd']
        if not near(float(np.asarray(tr['adv']).reshape(-1)[0]), adv):
            return '%s: advantage %s, should be %s' % (ctxt, tr['adv'], adv)
        if not near(float(np.asarray(tr['v_teacher']).reshape(-1)[0]), adv + pred[k][1]):
            return '%s: value target %s, should be %s' % (ctxt, tr['v_teacher'], adv + pred[k][1])
    # pieces of sequences: consecutive transitions of one episode, within the limit
    for eps, due in got:
        for e in (eps if c['rec'] else []):
            ks = [where[round(float(tr['state'][0]) * 100)][:3] for tr in e]
            if any(b != (a[0], a[1], a[2] + 1) for a, b in zip(ks, ks[1:])):
                return 'a sequence given to the recurrent update is not consecutive: %s' % ks
            if c['max_len'] is not None and len(e) > c['max_len']:
                return 'a sequence of %d exceeds the limit %d' % (len(e), c['max_len'])
        if not c['rec']:
            for i in range(n):
                ks = [where[round(float(tr['state'][0]) * 100)][:3] for tr in eps[0]]
                ks = [x for x in ks if x[0] == i]
                if ks != sorted(ks):
                    return 'transitions of environment %d appear out of order in the dataset: %s' % (i, ks)
    return None


def gen_gae(rng):
    def num():
        return rng.choice([0, 1, -1, .5, round(rng.uniform(-3, 3), 2)])
    return dict(eps=[[[num(), num(), num(), rng.choice([1., 1., 0.])] for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(0, 4))],
                gamma=rng.choice([0, .5, .9, 1]), lambd=rng.choice([0, .3, .95, 1]))


def run_gae(c):
    from chainerrl.agents import ppo
    if not hasattr(ppo, '_add_advantage_and_value_target_to_episodes'):
        return None
    eps = [[dict(reward=a, v_pred=b, next_v_pred=d, nonterminal=e) for a, b, d, e in ep] for ep in c['eps']]
    ppo._add_advantage_and_value_target_to_episodes(eps, gamma=c['gamma'], lambd=c['lambd'])
    g, l = Fraction(c['gamma']), Fraction(c['lambd'])
    for e, ep in enumerate(c['eps']):
        for t in range(len(ep)):
            adv = sum((g * l) ** (k - t) * (Fraction(r) + g * Fraction(nt) * Fraction(nv) - Fraction(v)) for k, (r, v, nv, nt) in enumerate(ep) if k >= t)
            for nm, want in (('adv', adv), ('v_teacher', adv + Fraction(ep[t][1]))):
                if abs(eps[e][t][nm] - float(want)) > 1e-6 * (1 + abs(float(want))):
                    return 'episode %d step %d: %s is %s, should be %s' % (e, t, nm, eps[e][t][nm], float(want))
    return None


CASES = [('dataset', gen_ds, run_ds), ('gae', gen_gae, run_gae)]
