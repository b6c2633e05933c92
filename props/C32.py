"""C32 Updates minimise the published losses."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, npmodel as N
from props import C20, duals
from props.C20 import Batch, ac_agent, of, drawn, log_prob_of_draw, Policy, Critic, Optim, Versioned, kept, arr, V
LEVEL = 'proof'
LEVEL_NOTE = ('any batch, predictions, targets, weights, advantages, probabilities and coefficients; losses as whole sums over the batch, '
              "PPO's and TRPO's objectives by their derivative with respect to an arbitrary network output; TRPO's line search for any number of backtracks")
TRUSTED = ['numpy and chainer.functions semantics (pyvc/npmodel.py, pyvc/chmodel.py, props/duals.py)',
           'a network is a function of the row it is given', 'chainer optimizers minimise the loss they are given']
ASSUMPTIONS = ['numbers are mathematical (no float32 rounding)', 'two components per observation and action stand for any number of them (actor losses)']
AG = 'chainerrl.agents.'
W = C20.W
HALF = Fraction(1, 2)


def scalar(l):
    a = chmodel.as_arr(l)
    check(a.ndim == 0 or same(a.size, 1), 'a scalar loss')
    return a.at(*([0] * a.ndim))


def total(n, f):
    return N.np_sum(Arr((n,), N.memo_nd(f), 'f'))


def hub(e, k=1):
    ab = ite(e < 0, -e, e)
    return ite(ab < k, e * e / 2, k * (ab - HALF * k))


def squares(n, e, w=None):
    """sum of half the squares, weighted: the half may stand inside or outside"""
    k = (lambda b: 1) if w is None else (lambda b: w.at(b))
    return [total(n, lambda b: e(b) * e(b) / 2 * k(b)), total(n, lambda b: e(b) * e(b) * k(b)) / 2]


def value_losses(n, e, clip, w=None):
    if not clip:
        return squares(n, e, w)
    return [total(n, lambda b: hub(e(b)) * (1 if w is None else w.at(b)))]


def one_of(x, ys, what):
    check(Or([same(x, y) for y in ys]), what)


def acc_of():
    return ['mean', 'sum'][choose(2)]


def accumulated(s, n, acc):
    return s / n if acc == 'mean' else s


# ------------------------------------------------------------------ value losses
def p_dqn_value_loss():
    M = W.load(AG + 'dqn')
    n = fresh_int('n', 1)
    y, t = arr('y', (n, 1)), arr('t', (n, 1))
    clip, acc = bool(choose(2)), acc_of()
    got = scalar(M.compute_value_loss(chmodel.wrap(y), chmodel.wrap(t), clip_delta=clip, batch_accumulator=acc))
    one_of(got, [accumulated(s, n, acc) for s in value_losses(n, lambda b: y.at(b, 0) - t.at(b, 0), clip)],
           'value loss: Huber or half the squared difference, added up or averaged')
    cover('loss')


def p_dqn_weighted_loss():
    M = W.load(AG + 'dqn')
    n = fresh_int('n', 1)
    y, t, w = arr('y', (n, 1)), arr('t', (n, 1)), arr('w', (n,))
    clip, acc = bool(choose(2)), acc_of()
    got = scalar(M.compute_weighted_value_loss(chmodel.wrap(y), chmodel.wrap(t), w, clip_delta=clip, batch_accumulator=acc))
    one_of(got, [accumulated(s, n, acc) for s in value_losses(n, lambda b: y.at(b, 0) - t.at(b, 0), clip, w)], 'weighted value loss: each example counts by its weight')
    cover('loss')


def inner(n, k, f):
    """sum over k of f(b, k), for every b"""
    m = N.np_sum(Arr((n, k), N.memo_nd(f), 'f'), axis=1)
    return lambda b: m.at(b)


def p_categorical_value_loss():
    M = W.load(AG + 'categorical_dqn')
    n, k = fresh_int('n', 1), fresh_int('atoms', 1)
    e, w = arr('e', (n, k)), arr('w', (n,))
    acc, weighted = acc_of(), bool(choose(2))
    row = inner(n, k, lambda b, j: e.at(b, j))
    if weighted:
        got = scalar(M.compute_weighted_value_loss(chmodel.wrap(e), n, w, batch_accumulator=acc))
        check(same(got, accumulated(total(n, lambda b: row(b) * w.at(b)), n, acc)), 'weighted value loss: each example counts by its weight')
    elif acc == 'sum':
        got = scalar(M.compute_value_loss(chmodel.wrap(e), batch_accumulator=acc))
        check(Or(same(got, N.np_sum(e)), same(got, total(n, row))), 'value loss: the sum over examples and atoms')
    else:
        got = scalar(M.compute_value_loss(chmodel.wrap(e), batch_accumulator=acc))
        check(same(got, total(n, row) / n), 'value loss: the mean over examples of the sum over atoms')
    cover('loss')


def batch_of(n, w):
    d = dict(reward=arr('r', (n,)))
    if w is not None:
        d['weights'] = w
    return d


def loss_agent(mod, cls, **kw):
    c = getattr(W.load(AG + mod), cls)
    o = c.__new__(c)
    o.xp = N.NP
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def errors_list(want, j):
    """a list with any content, to be replaced by one error per example; example j is followed"""
    e = PList(seq=sym_seq('old', 'real'))
    root('errors', e)

    def inv(L):
        s = L.get('R.errors.s')
        return {'the followed error stays': True if isinstance(s.n, int) and s.n == 0 else Implies(s.n > j, same(number(s.at(j)), want()))}
    ctx().invfuns.append(inv)
    return e


def number(x):
    return chmodel.as_arr(x).at() if not core.isnum(x) else x


def p_dqn_compute_loss():
    M = W.load(AG + 'dqn')
    n, j = fresh_int('n', 1), fresh_int('j', 0)
    assume(j < n)
    w = arr('w', (n,)) if choose(2) else None
    Y, T = arr('y', (n, 1)), arr('t', (n, 1))
    clip, acc = bool(choose(2)), acc_of()
    o = loss_agent('dqn', 'DQN', clip_delta=clip, batch_accumulator=acc)
    d = batch_of(n, w)
    o._compute_y_and_t = lambda b: (chmodel.wrap(Y), chmodel.wrap(T))
    err = lambda e: ite(e < 0, -e, e)
    errors = errors_list(lambda: err(Y.at(j, 0) - T.at(j, 0)), j) if choose(2) else None
    got = scalar(o._compute_loss(d, errors_out=errors))
    one_of(got, [accumulated(s, n, acc) for s in value_losses(n, lambda b: Y.at(b, 0) - T.at(b, 0), clip, w)], 'the loss of a batch: configured loss and accumulator, weighted when the batch has weights')
    if errors is not None:
        check(same(errors.s.n, n), 'one error per example')
        e = Y.at(j, 0) - T.at(j, 0)
        check(same(chmodel.as_arr(errors.s.at(j)).at(), ite(e < 0, -e, e)), 'the error of an example is its absolute TD error')
    cover('loss')


def p_categorical_compute_loss():
    n, k, j = fresh_int('n', 1), fresh_int('atoms', 1), fresh_int('j', 0)
    assume(j < n)
    w = arr('w', (n,)) if choose(2) else None
    Y, T = arr('y', (n, k)), arr('t', (n, k))
    acc = acc_of()
    o = loss_agent('categorical_dqn', 'CategoricalDQN', batch_accumulator=acc)
    o._compute_y_and_t = lambda b: (chmodel.wrap(Y), chmodel.wrap(T))
    cl = N.clip(Y, Fraction(1, 10 ** 10), 1)
    lg = N.FUNS['log'](cl)
    ent = lambda b, i: -T.at(b, i) * lg.at(b, i)
    row = inner(n, k, ent)
    errors = errors_list(lambda: row(j), j) if choose(2) else None
    got = scalar(o._compute_loss(batch_of(n, w), errors_out=errors))
    per = row if w is None else (lambda b: row(b) * w.at(b))
    cand = [accumulated(total(n, per), n, acc)]
    if w is None and acc == 'sum':
        cand.append(N.np_sum(Arr((n, k), N.memo_nd(ent), 'f')))
    one_of(got, cand, 'the loss of a batch: cross entropy of target and clipped prediction, weighted when the batch has weights')
    if errors is not None:
        check(same(errors.s.n, n), 'one error per example')
        check(same(chmodel.as_arr(errors.s.at(j)).at(), row(j)), 'the error of an example is its cross entropy')
    cover('loss')


def p_quantile_loss():
    M = W.load(AG + 'iqn')
    n, k, kp = fresh_int('n', 1), fresh_int('N', 1), fresh_int('N_prime', 1)
    b, i, j = fresh_int('b', 0), fresh_int('i', 0), fresh_int('j', 0)
    assume(And([b < n, i < k, j < kp]))
    y, t, taus = arr('y', (n, k)), arr('t', (n, kp)), arr('taus', (n, k))
    th = fresh_real('kappa')
    assume(th > 0)
    r = chmodel.as_arr(M.compute_eltwise_huber_quantile_loss(chmodel.wrap(y), chmodel.wrap(t), taus, huber_loss_threshold=th))
    check(And([r.ndim == 3, same(r.shape[0], n), same(r.shape[1], k), same(r.shape[2], kp)]), 'one loss per example, threshold and target quantile')
    e = t.at(b, j) - y.at(b, i)
    d = taus.at(b, i) - ite(e > 0, 1, 0)
    check(same(r.at(b, i, j), ite(d < 0, -d, d) * hub(e, th)), 'quantile Huber loss: |tau - [target above prediction]| * Huber')
    cover('loss')


def p_iqn_value_loss():
    M = W.load(AG + 'iqn')
    n, k, kp = fresh_int('n', 1), fresh_int('N', 1), fresh_int('N_prime', 1)
    e, w = arr('e', (n, k, kp)), arr('w', (n,))
    acc, weighted = acc_of(), bool(choose(2))
    m = N.np_mean(e, axis=2)
    s = N.np_sum(m, axis=1)
    if weighted:
        got = scalar(M.compute_weighted_value_loss(chmodel.wrap(e), w, batch_accumulator=acc))
        check(same(got, accumulated(total(n, lambda b: s.at(b) * w.at(b)), n, acc)), 'weighted value loss: each example counts by its weight')
    elif acc == 'sum':
        got = scalar(M.compute_value_loss(chmodel.wrap(e), batch_accumulator=acc))
        one_of(got, [N.np_sum(m), total(n, lambda b: s.at(b))], 'value loss: mean over target quantiles, sum over the rest')
    else:
        got = scalar(M.compute_value_loss(chmodel.wrap(e), batch_accumulator=acc))
        one_of(got, [N.np_sum(N.np_mean(e, axis=(0, 2))), total(n, lambda b: s.at(b)) / n],
               'value loss: mean over examples and target quantiles, sum over thresholds')
    cover('loss')


# ------------------------------------------------------------------ actor losses
class Judge(Critic):
    """critic; it also notes whether the judged action carries a gradient"""

    def __call__(self, s, a):
        isvar = isinstance(a, chmodel.Var)
        r = Critic.__call__(self, s, a)
        row, a = self._pvghost_log[-1]
        self._pvghost_log[-1] = (row, a, isvar, self._pvghost_version)
        return r


def draws_of(pol, S):
    return [k for _, row, k in pol._pvghost_log if row.at(0)[0] == '']


def judged(net, S):
    """the versions of a critic that judged actions with a gradient"""
    return sorted({v for c in net._pvghost_log if c[2] for v in [c[3]]})


def policy_actions(pol, S, k):
    return chmodel.as_arr(drawn('policy@0', S.rows, k))


def uses(losses, name):
    return len([1 for n, _ in losses if n == name])


def p_ddpg():
    names = dict(q_function=(Judge, 'critic_optimizer'), target_q_function=(Judge, None))
    S, A, G, losses, E = ac_agent('ddpg', 'DDPG', names, dict(policy=(Policy, 'actor_optimizer'), target_policy=(Policy, None)))
    done = kept(S)
    A.update(E)
    got = of(losses, 'policy')
    check(uses(losses, 'q_function') == 1, 'one critic update')
    cand = []
    for k in draws_of(G['policy'], S):
        a = policy_actions(G['policy'], S, k)
        for v in judged(G['q_function'], S):
            cand.append(-(total(S.B, lambda b: G['q_function'].q(S.rows, a, b, v)) / S.B))
    check(len(cand) > 0, "the critic judges the policy's own actions, with their gradient")
    one_of(got, cand, "actor loss: minus the mean value of the policy's own actions")
    done()
    cover('actor')


def p_td3():
    names = dict(q_func1=(Judge, 'q_func1_optimizer'), q_func2=(Judge, 'q_func2_optimizer'), target_q_func1=(Judge, None), target_q_func2=(Judge, None))
    delay = fresh_int('delay', 1)
    S, A, G, losses, E = ac_agent('td3', 'TD3', names, dict(policy=(Policy, 'policy_optimizer'), target_policy=(Policy, None)),
                                  target_policy_smoothing_func=C20.smooth, policy_update_delay=delay)
    syncs = []
    sync = A.sync_target_network
    A.sync_target_network = lambda: (syncs.append(1), sync())
    t0 = A.q_func1_optimizer.t
    done = kept(S)
    A.update(E)
    check(uses(losses, 'q_func1') == 1 and uses(losses, 'q_func2') == 1, 'one update of either critic')
    due = same(core.intdiv(t0 + 1, delay)[1], 0)
    n = uses(losses, 'policy')
    check(n <= 1 and len(syncs) <= 1, 'at most one policy update and one synchronisation')
    check(same(due, n == 1), 'the policy is updated at every policy_update_delay-th critic update only')
    check(same(due, len(syncs) == 1), 'the target networks follow at every policy_update_delay-th critic update only')
    if n:
        cand = []
        for k in draws_of(G['policy'], S):
            a = policy_actions(G['policy'], S, k)
            for v in judged(G['q_func1'], S):
                cand.append(-(total(S.B, lambda b: G['q_func1'].q(S.rows, a, b, v)) / S.B))
        check(len(cand) > 0, "the first critic judges the policy's own actions, with their gradient")
        one_of(of(losses, 'policy'), cand, "actor loss: minus the mean of the first critic at the policy's own actions")
    done()
    cover('update')


def p_sac():
    fixed = bool(choose(2))
    t0, tgt = fresh_real('initial_temperature'), None if fixed else fresh_real('entropy_target')
    names = dict(q_func1=(Judge, 'q_func1_optimizer'), q_func2=(Judge, 'q_func2_optimizer'), target_q_func1=(Judge, None), target_q_func2=(Judge, None))
    pol = dict(policy=(Policy, 'policy_optimizer'))
    kw = dict(initial_temperature=t0, entropy_target=tgt)
    if fixed:
        kw.update(temperature_holder=None, temperature_optimizer=None)
    else:
        pol['temperature_holder'] = (C20.Temperature, 'temperature_optimizer')
    S, A, G, losses, E = ac_agent('soft_actor_critic', 'SoftActorCritic', names, pol, **kw)
    done = kept(S)
    A.update(E)
    T = t0 if fixed else mk(z3.Real('temperature@0'))
    cand, temp = [], []
    for k in draws_of(G['policy'], S):
        a = policy_actions(G['policy'], S, k)
        lp = lambda b: log_prob_of_draw('policy@0', S.rows, k, b)
        temp.append(-(total(S.B, lambda b: T * (lp(b) + (tgt or 0))) / S.B))
        for v in judged(G['q_func1'], S):
            q = [lambda b, n=n: G[n].q(S.rows, a, b, v) for n in ('q_func1', 'q_func2')]
            cand.append(total(S.B, lambda b: T * lp(b) - ite(q[0](b) < q[1](b), q[0](b), q[1](b))) / S.B)
    check(len(cand) > 0, "the critics judge the policy's own actions, with their gradient")
    one_of(of(losses, 'policy'), cand, 'actor loss: mean of temperature * log-probability minus the smaller critic')
    if fixed:
        check(uses(losses, 'temperature_holder') == 0, 'a fixed temperature is not adapted')
        cover('fixed')
    else:
        one_of(of(losses, 'temperature_holder'), temp, 'temperature loss: minus the mean of temperature * (log-probability + target entropy)')
        cover('adapted')
    done()


PROOFS = [p_dqn_value_loss, p_dqn_weighted_loss, p_categorical_value_loss, p_dqn_compute_loss, p_categorical_compute_loss, p_quantile_loss, p_iqn_value_loss,
          p_ddpg, p_td3, p_sac]


# ------------------------------------------------------------------ policy objectives
WP = world('C32-policy', models=lambda: chmodel.add(models.base_models()))


class Records(Obj):
    """a record of losses; its contents are not part of this contract"""

    def append(self, x):
        pass


def p_pgt():
    names = dict(q_function=(Judge, 'critic_optimizer'), target_q_function=(Judge, None))
    beta = fresh_real('beta')
    S, A, G, losses, E = ac_agent('pgt', 'PGT', names, dict(policy=(Policy, 'actor_optimizer'), target_policy=(Policy, None)), beta=beta)
    done = kept(S)
    A.update(E)
    got = of(losses, 'policy')
    check(uses(losses, 'q_function') == 1, 'one critic update')
    q = G['q_function']
    best = chmodel.as_arr(drawn('policy@0', S.rows, -1))
    cand = []
    for k in draws_of(G['policy'], S):
        a = policy_actions(G['policy'], S, k)
        for v in sorted({c[3] for c in q._pvghost_log}):
            logp = lambda b: val_of('logprob_of', S.rows, b, a.at(b, 0), a.at(b, 1))
            f = lambda b: (q.q(S.rows, a, b, v) - q.q(S.rows, best, b, v)) * logp(b) + beta * val_of('entropy', S.rows, b)
            cand.append(-(total(S.B, f) / S.B))
    check(len(cand) > 0, 'the actor is trained on actions it drew')
    one_of(got, cand, 'actor loss: minus the mean of advantage over the most probable action * log-probability + beta * entropy')
    done()
    cover('actor')


def val_of(kind, *xs):
    return C20.val('policy@0', kind, *xs)


def mini(x, y):
    return ite(x < y, x, y)


def maxi(x, y):
    return ite(x > y, x, y)


def p_ppo_loss():
    ctx().abstract = 'som'
    M = WP.load(AG + 'ppo')
    o = M.PPO.__new__(M.PPO)
    n = fresh_int('n', 1)
    o.clip_eps, o.value_func_coef, o.entropy_coef = fresh_real('clip_eps'), fresh_real('value_func_coef'), fresh_real('entropy_coef')
    assume(o.clip_eps > 0)
    clipped = bool(choose(2))
    o.clip_eps_vf = fresh_real('clip_eps_vf') if clipped else None
    if clipped:
        assume(o.clip_eps_vf > 0)
    o.value_loss_record, o.policy_loss_record = Records(), Records()
    ent, lp, lpo, adv = arr('entropy', (n,)), arr('log_probs', (n,)), arr('log_probs_old', (n,)), arr('advs', (n,))
    v, vo, t = arr('vs_pred', (n, 1)), arr('vs_pred_old', (n, 1)), arr('vs_teacher', (n, 1))
    loss = o._lossfun(chmodel.wrap(ent), chmodel.wrap(v), chmodel.wrap(lp), vs_pred_old=vo, log_probs_old=lpo, advs=adv, vs_teacher=t)
    got = scalar(loss)
    cover('loss')
    ratio = N.FUNS['exp'](Arr((n,), lambda b: lp.at(b) - lpo.at(b), 'f'))

    def surrogate(b):
        r = ratio.at(b)
        return mini(r * adv.at(b), mini(maxi(r, 1 - o.clip_eps), 1 + o.clip_eps) * adv.at(b))

    def value(b):
        e = v.at(b, 0) - t.at(b, 0)
        if not clipped:
            return e * e
        c = mini(maxi(v.at(b, 0), vo.at(b, 0) - o.clip_eps_vf), vo.at(b, 0) + o.clip_eps_vf) - t.at(b, 0)
        return maxi(e * e, c * c)
    m = lambda f: total(n, f) / n
    check(same(got, -m(surrogate) + o.value_func_coef * m(value) - o.entropy_coef * m(lambda b: ent.at(b))),
          'loss: minus the mean clipped surrogate, plus the (clipped) value error, minus the entropy bonus')


def p_trpo_gain():
    M = WP.load(AG + 'trpo')
    o = M.TRPO.__new__(M.TRPO)
    n = fresh_int('n', 1)
    o.entropy_coef = fresh_real('entropy_coef')
    ent, lp, lpo, adv = arr('entropy', (n,)), arr('log_prob', (n,)), arr('log_prob_old', (n,)), arr('advs', (n,))
    got = scalar(o._compute_gain(log_prob=chmodel.wrap(lp), log_prob_old=lpo, entropy=chmodel.wrap(ent), advs=adv))
    ratio = N.FUNS['exp'](Arr((n,), lambda b: lp.at(b) - lpo.at(b), 'f'))
    check(same(got, total(n, lambda b: ratio.at(b) * adv.at(b)) / n + o.entropy_coef * (total(n, lambda b: ent.at(b)) / n)),
          'gain: mean probability ratio * advantage plus the entropy bonus')
    cover('gain')


def p_iqn_compute_loss():
    M = W.load(AG + 'iqn')
    n, k, kp, j = fresh_int('n', 1), fresh_int('N', 1), fresh_int('N_prime', 1), fresh_int('j', 0)
    assume(j < n)
    w = arr('w', (n,)) if choose(2) else None
    y, t, taus, e = chmodel.wrap(arr('y', (n, k))), chmodel.wrap(arr('t', (n, kp))), arr('taus', (n, k)), arr('e', (n, k, kp))
    acc = acc_of()
    o = loss_agent('iqn', 'IQN', batch_accumulator=acc)
    o._compute_y_and_taus = lambda b: (y, taus)
    o._compute_target_values = lambda b: t

    def eltwise(yy, tt, ta, **kw):
        check(And([yy is y, ta is taus, not kw, And([same(chmodel.as_arr(tt).at(j, 0), chmodel.as_arr(t).at(j, 0))])]), 'the loss compares predictions, targets and thresholds of the batch')
        return chmodel.wrap(e)
    patch(M, 'compute_eltwise_huber_quantile_loss', eltwise)
    seen = []
    R = fresh_real('loss')

    def plain(x, batch_accumulator='mean'):
        seen.append((x, None, batch_accumulator))
        return R

    def weighted(x, ws, batch_accumulator='mean'):
        seen.append((x, ws, batch_accumulator))
        return R
    patch(M, 'compute_value_loss', plain)
    patch(M, 'compute_weighted_value_loss', weighted)
    m = N.np_mean(e, axis=(1, 2))
    alt = N.np_mean(N.np_mean(e, axis=2), axis=1)
    errors = errors_list(lambda: m.at(j), j) if choose(2) else None
    got = o._compute_loss(batch_of(n, w), errors_out=errors)
    check(got is R and len(seen) == 1 and chmodel.arr_of(seen[0][0]) is e and seen[0][2] == acc and seen[0][1] is w,
          'the loss of a batch: configured accumulator, weighted when the batch has weights')
    if errors is not None:
        check(same(errors.s.n, n), 'one error per example')
        check(same(number(errors.s.at(j)), m.at(j)), 'the error of an example is the mean of its quantile losses')
    cover('loss')


PROOFS += [p_iqn_compute_loss, p_pgt, p_ppo_loss, p_trpo_gain]


# ------------------------------------------------------------------ TRPO's line search
class Step(loops.Handle):
    """parts[0] times the full step"""

    def __mul__(self, x):
        return Step(self.parts[0] * x)
    __rmul__ = __mul__


class Flat(loops.Handle):
    """the parameters the search starts from, plus parts[0] full steps"""

    def __add__(self, o):
        check(isinstance(o, (Step, Flat)), 'parameters move along the full step')
        return Flat(self.parts[0] + o.parts[0])
    __radd__ = __add__


class Split(loops.Handle):
    """the same, as one array per parameter"""


class Param(Obj):
    def __init__(self, i):
        self.size, self.shape = ('size', i), ('shape', i)


class Tr(loops.Handle):
    def __getitem__(self, k):
        return C20.rf('transition_' + k, [self.parts[0]])


class XP(object):
    def __getattr__(self, k):
        return getattr(N.NP, k)

    def isfinite(self, x):
        return finite(number(x))


def finite(x):
    return mk(z3.Function('finite', z3.RealSort(), z3.BoolSort())(zreal(x)))


class Search(Obj):
    """what the line search has done so far"""

    def __init__(self):
        self.cur, self.next, self.tries, self.recorded = Fraction(0), Fraction(1), 0, Fraction(-1)


class Found(Obj):
    def __init__(self, c):
        self._pvghost_c = c

    def log_prob(self, actions):
        check(And([actions.shape[0] == LS.n, same(actions.at(LS.j), C20.rf('transition_action', [LS.j]))]), "the new policy rates the actions of the dataset, in order")
        return ('log_prob', self._pvghost_c)

    @property
    def entropy(self):
        return ('entropy', self._pvghost_c)


class LS(object):
    pass


class Log(object):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


def p_line_search():
    M = WP.load(AG + 'trpo')
    o = M.TRPO.__new__(M.TRPO)
    n, j = fresh_int('n', 1), fresh_int('j', 0)
    assume(j < n)
    LS.n, LS.j = n, j
    xp = XP()
    g = root('search', Search())
    mb, o.max_kl = fresh_int('max_backtrack', 0), fresh_real('max_kl')
    o.line_search_max_backtrack, o.logger = mb, Log()
    o.recurrent, o.obs_normalizer, o.phi = False, None, fresh_obj('phi')
    G = lambda c: C20.rf('gain', [c])
    klf = lambda b, c: C20.rf('kl', [b, c])
    KL = lambda c: total(n, lambda b: klf(b, c)) / n
    old = fresh_real('old_gain')
    ok = lambda c: And([finite(G(c)), finite(KL(c)), G(c) >= old, KL(c) <= o.max_kl])
    E = PList(seq=Seq(n=n, at=heap.memo_at(lambda i: Tr(i))))
    advs = arr('advs', (n,))
    params = [Param(0), Param(1)]
    states = fresh_obj('states')

    class Pol(Obj):
        def __call__(self, s):
            check(same(s, states), 'the new policy is evaluated on the states of the dataset')
            return Found(g.cur)
    Pol.xp = xp
    o.policy = root('policy', Pol())

    def batch_states(ss, xp, phi):
        q = heap.to_seq(ss)
        check(And([same(q.n, n), same(q.at(j), Tr(j)['state']), same(phi, o.phi)]), 'all states of the dataset, in order')
        return states
    o.batch_states = batch_states

    def gain_of(log_prob, log_prob_old, entropy, advs):
        c = log_prob[1]
        check(log_prob[0] == 'log_prob' and entropy[0] == 'entropy' and same(entropy[1], c), 'log-probability and entropy of one policy')
        check(And([log_prob_old.shape[0] == n, same(log_prob_old.at(j), Tr(j)['log_prob'])]), 'the stored log-probabilities, in order')
        check(same(advs.at(j), adv0.at(j)), 'the advantages of the dataset')
        return V((), lambda: G(c))
    adv0 = advs.snapshot()
    o._compute_gain = gain_of

    class Old(Obj):
        def kl(self, new):
            check(isinstance(new, Found), 'divergence of the new policy from the old one')
            return V((n,), lambda b: klf(b, new._pvghost_c))

    def replace(ps, data):
        check(ps is params and isinstance(data, Split), 'the parameters of the policy are replaced')
        check(Or(same(g.tries, 0), Not(ok(g.cur))), 'an acceptable step is kept')
        c = data.parts[0]
        if same(c, 0):
            check(same(g.tries, mb + 1), 'the old parameters come back only when all steps failed')
            g.cur = c
        else:
            check(same(c, g.next), 'step sizes are 1, 1/2, 1/4, ...')
            check(g.tries <= mb, 'at most max_backtrack steps back')
            g.cur = c
            g.next = g.next / 2
            g.tries = g.tries + 1
    patch(M, '_get_ordered_params', lambda link: params if link is o.policy else None)
    patch(M, '_flatten_and_concat_ndarrays', lambda ps: (check(ps is params, 'the parameters of the policy'), Flat(g.cur))[1])

    def split(flat, sizes, shapes):
        check(list(sizes) == [p.size for p in params] and list(shapes) == [p.shape for p in params] and isinstance(flat, Flat), 'the parameters keep their shapes')
        return Split(flat.parts[0])
    patch(M, '_split_and_reshape_to_ndarrays', split)
    patch(M, '_replace_params_data', replace)

    class Steps(Obj):
        def append(self, x):
            g.recorded = x

    class Kls(Obj):
        def append(self, x):
            check(same(number(x), KL(g.cur)), 'the recorded divergence is that of the step taken')
    o.policy_step_size_record, o.kl_record = Steps(), Kls()

    def inv(L):
        t, c, x = L.get('R.search.tries'), L.get('R.search.cur'), L.get('R.search.next')
        return {'steps stay positive': x > 0, 'the last step was not acceptable': Or(same(t, 0), Not(ok(c))), 'tries': t >= 0}
    ctx().invfuns.append(inv)
    o._line_search(full_step=Step(Fraction(1)), dataset=E, advs=advs, action_distrib_old=Old(), gain=V((), lambda: old))
    check(Or(And([same(g.cur, 0), same(g.tries, mb + 1)]), And([g.tries > 0, ok(g.cur)])),
          'the policy moves by an acceptable step (finite, no worse, within max_kl), or is left as it was when there is none')
    check(same(g.recorded, g.cur), 'the recorded step size is the step taken')
    cover('searched')


PROOFS += [p_line_search]


# ------------------------------------------------------------------ the real code
def _setup(c):
    import warnings
    import logging
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import random
    import numpy as np
    import chainer
    chainer.config.use_ideep = 'never'
    np.random.seed(c['seed'])
    random.seed(c['seed'])
    return np, chainer, np.random.RandomState(c['seed'])


def _close(a, b, tol=2e-3):
    import numpy as np
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))


def _grad(np, f, x):
    """central differences of f at x, or None where f is not smooth"""
    g = np.zeros(x.shape)
    for i in np.ndindex(*x.shape):
        d = []
        for h in (1e-4, 1e-5):
            p, m = x.copy(), x.copy()
            p[i] += h
            m[i] -= h
            d.append((f(p) - f(m)) / (2 * h))
        if abs(d[0] - d[1]) > 1e-3 * (1 + abs(d[0])):
            return None
        g[i] = d[1]
    return g


def gen_v(rng):
    return dict(cls=rng.choice(['DQN', 'CategoricalDQN', 'IQN']), seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 3, 5]), k=rng.choice([1, 2, 4]), kp=rng.choice([1, 3]),
                acc=rng.choice(['mean', 'sum']), w=rng.random() < .5, clip=rng.random() < .5, scale=rng.choice([.5, 1.5, 4.]), errors=rng.random() < .6)


def run_v(c):
    np, chainer, r = _setup(c)
    import chainerrl.agents as ag
    cls, n, k, kp = c['cls'], c['n'], c['k'], c['kp']
    A = getattr(ag, cls)
    A = A.__new__(A)
    A.xp, A.clip_delta, A.batch_accumulator = np, c['clip'], c['acc']
    w = r.uniform(0, 2, n) if c['w'] else None
    hub_ = lambda e: np.where(np.abs(e) < 1, e * e / 2, np.abs(e) - .5)
    sq = lambda e: e * e / 2
    if cls == 'DQN':
        y, t = r.normal(0, c['scale'], (n, 1)), r.normal(0, c['scale'], (n, 1))
        per = lambda y: (hub_ if c['clip'] else sq)(y - t)[:, 0]
        err = lambda y: np.abs(y - t)[:, 0]
    elif cls == 'CategoricalDQN':
        k = max(k, 2)
        y, t = r.dirichlet(np.ones(k), n), r.dirichlet(np.ones(k), n)
        per = err = lambda y: -(t * np.log(np.clip(y, 1e-10, 1))).sum(1)
    else:
        y, t, taus = r.normal(0, c['scale'], (n, k)), r.normal(0, c['scale'], (n, kp)), r.uniform(0, 1, (n, k))

        def elt(y):
            d = t[:, None, :] - y[:, :, None]
            return np.abs(taus[:, :, None] - (d > 0)) * hub_(d)
        per = lambda y: elt(y).mean(2).sum(1)
        err = lambda y: elt(y).mean((1, 2))
    V_ = chainer.Variable(y.astype('f'))
    T_ = chainer.Variable(t.astype('f'))
    A._compute_y_and_t = lambda b: (V_, T_.array if c['seed'] % 2 and cls != 'DQN' else T_)
    if cls == 'IQN':
        A._compute_y_and_taus = lambda b: (V_, taus.astype('f'))
        A._compute_target_values = lambda b: T_.array
    batch = dict(reward=np.zeros(n, 'f'))
    if w is not None:
        batch['weights'] = w.astype('f')
    errors = [7.] * 3 if c['errors'] else None
    loss = A._compute_loss(batch, errors_out=errors)
    ref = lambda y: (lambda p: (p if w is None else p * w).sum() / (n if c['acc'] == 'mean' else 1))(per(y))
    if abs(float(loss.array) - ref(y)) > 1e-3 * (1 + abs(ref(y))):
        return '%s: the loss is %g, published %g (accumulator %s, weights %s)' % (cls, float(loss.array), ref(y), c['acc'], w)
    if errors is not None and (len(errors) != n or not np.allclose([float(e) for e in errors], err(y), atol=1e-3)):
        return '%s: reports the errors %s, not %s' % (cls, errors, err(y))
    loss.backward()
    g = _grad(np, ref, y)
    if g is None:
        return None
    if V_.grad is None or not _close(V_.grad, g, 5e-3):
        return '%s: the predictions are pushed along %s, not %s' % (cls, V_.grad, g)


def gen_p(rng):
    return dict(alg=rng.choice(['PPO', 'PPO', 'TRPO']), seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 4]), eps=rng.choice([.05, .2, .5]), vf=rng.choice([None, .1, .2, 1.]),
                vc=rng.choice([1., .5, 0.]), ec=rng.choice([0., .01, 1.]), scale=rng.choice([.1, .5, 1.5]))


def run_p(c):
    np, chainer, r = _setup(c)
    from chainerrl.agents import ppo, trpo
    n, eps = c['n'], c['eps']
    lp, lpo = r.normal(-1, c['scale'], n), r.normal(-1, c['scale'], n)
    adv, ent = r.normal(0, 1, n), r.uniform(0, 2, n)
    v, vo, t = [r.normal(0, c['scale'], (n, 1)) for _ in range(3)]
    X = [chainer.Variable(x.astype('f')) for x in (lp, ent, v)]

    def ref(lp, ent, v):
        ratio = np.exp(lp - lpo)
        if c['alg'] == 'TRPO':
            return (ratio * adv).mean() + c['ec'] * ent.mean()
        s = np.where(adv >= 0, np.minimum(ratio, 1 + eps), np.maximum(ratio, 1 - eps)) * adv
        e = (v - t) ** 2
        if c['vf'] is not None:
            e = np.maximum(e, (vo + np.clip(v - vo, -c['vf'], c['vf']) - t) ** 2)
        return -s.mean() + c['vc'] * e.mean() - c['ec'] * ent.mean()
    f = lambda x: x.astype('f')
    if c['alg'] == 'PPO':
        A = ppo.PPO.__new__(ppo.PPO)
        A.clip_eps, A.clip_eps_vf, A.value_func_coef, A.entropy_coef = eps, c['vf'], c['vc'], c['ec']
        A.value_loss_record, A.policy_loss_record = [], []
        loss = A._lossfun(X[1], X[2], X[0], vs_pred_old=f(vo), log_probs_old=f(lpo), advs=f(adv), vs_teacher=f(t))
    else:
        A = trpo.TRPO.__new__(trpo.TRPO)
        A.entropy_coef = c['ec']
        loss = A._compute_gain(log_prob=X[0], log_prob_old=f(lpo), entropy=X[1], advs=f(adv))
    want = ref(lp, ent, v)
    if abs(float(loss.array) - want) > 2e-3 * (1 + abs(want)):
        return '%s: the objective is %g, published %g' % (c['alg'], float(loss.array), want)
    loss.backward()
    for i, (what, x) in enumerate(zip(('log-probabilities', 'entropies', 'values'), (lp, ent, v))):
        g = _grad(np, lambda z: ref(*[z if k == i else y for k, y in enumerate((lp, ent, v))]), x)
        have = X[i].grad if X[i].grad is not None else np.zeros(x.shape)
        if g is not None and not _close(have, g, 5e-3):
            return '%s: the %s are pushed along %s, not %s' % (c['alg'], what, have, g)


class _GOpt(object):
    """keeps the value and the gradient of every loss it is asked to minimise"""

    def __init__(self, link=None, hook=None):
        self.t, self.got, self.link, self.hook = 0, [], link, hook

    def setup(self, link):
        self.link = link
        return self

    def update(self, f=None, *a, **k):
        if f is not None:
            self.link.cleargrads()
            loss = f(*a, **k)
            loss.backward()
            self.got.append((float(loss.array), _grads(self.link)))
        if self.hook:
            self.hook()
        self.t += 1


def _grads(link):
    import numpy as np
    return [np.zeros(p.shape) if p.grad is None else np.array(p.grad) for _, p in sorted(link.namedparams())]


def _of(link, loss):
    link.cleargrads()
    loss.backward()
    return float(loss.array), _grads(link)


def _same(got, want, who):
    if abs(got[0] - want[0]) > 2e-3 * (1 + abs(want[0])):
        return '%s: minimises the loss %g, published %g' % (who, got[0], want[0])
    for a, b in zip(got[1], want[1]):
        if not _close(a, b, 2e-3):
            return '%s: the gradient of its loss is %s, not %s' % (who, a.ravel()[:4], b.ravel()[:4])


def gen_a(rng):
    return dict(cls=rng.choice(['DDPG', 'PGT', 'TD3', 'SoftActorCritic']), seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 4]), updates=rng.choice([1, 2, 5]),
                delay=rng.choice([1, 2, 3]), t0=rng.choice([0, 1, 2]), target=rng.choice([None, -1., .5]), beta=rng.choice([0., .01, .5]), temp=rng.choice([.3, 1., 2.]))


def run_a(c):
    np, chainer, r = _setup(c)
    F = chainer.functions
    from chainerrl import agents, q_functions, replay_buffer, explorers, distribution
    cls, n = c['cls'], c['n']

    class Pi(chainer.Chain):
        """policy with draws that are a function of the state and the parameters"""
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.l = chainer.links.Linear(3, 2)

        def __call__(self, x):
            m = F.tanh(self.l(x))

            class D(distribution.ContinuousDeterministicDistribution):
                def sample(s):
                    return m * 1.2 + .1

                most_probable = property(lambda s: m)

                def sample_with_log_prob(s):
                    return m * 1.2 + .1, F.sum(m * m, axis=1) - 1

                def log_prob(s, x):
                    return -F.sum((m - x) ** 2, axis=1) + F.sum(m, axis=1)

                entropy = property(lambda s: F.sum(m * m * .5, axis=1))
            return D(m)

    def critic():
        q = q_functions.FCSAQFunction(3, 2, n_hidden_channels=4, n_hidden_layers=1)
        C20._shake(q, r)
        return q
    pi = Pi()
    C20._shake(pi, r)
    rb = replay_buffer.ReplayBuffer(100)
    o = [_GOpt() for _ in range(4)]
    ex = explorers.Greedy()
    cs = [critic(), critic()]
    kw = dict(replay_start_size=50, minibatch_size=10)
    if cls == 'DDPG':
        from chainerrl.agents.ddpg import DDPGModel
        A = agents.DDPG(DDPGModel(pi, cs[0]), o[0], o[1], rb, .9, ex, **kw)
    elif cls == 'PGT':
        model = chainer.Chain()
        with model.init_scope():
            model.policy, model.q_function = pi, cs[0]
        A = agents.PGT(model, o[0], o[1], rb, .9, ex, beta=c['beta'], **kw)
    elif cls == 'TD3':
        A = agents.TD3(pi, cs[0], cs[1], o[0], o[1], o[2], rb, .9, ex, policy_update_delay=c['delay'], **kw)
    else:
        if c['target'] is not None:
            kw.update(entropy_target=c['target'], temperature_optimizer=o[3])
        A = agents.SoftActorCritic(pi, cs[0], cs[1], o[0], o[1], o[2], rb, .9, initial_temperature=c['temp'], **kw)
    pi = A.policy
    cs = [A.q_function] if cls in ('DDPG', 'PGT') else [A.q_func1, A.q_func2]
    for x, l in zip(o, [pi] + cs):
        x.link = l
    for x in o[1:3]:
        x.t = c['t0']
    syncs = []
    A.sync_target_network = lambda: syncs.append(1)
    for u in range(c['updates']):
        E = [[dict(state=r.uniform(-1, 1, 3).astype('f'), action=r.uniform(-1, 1, 2).astype('f'), reward=float(r.normal()), next_state=r.uniform(-1, 1, 3).astype('f'),
                   next_action=None, is_state_terminal=bool(r.rand() < .3))] for _ in range(n)]
        for x in o:
            x.got = []
        del syncs[:]
        A.update(E)
        s = np.array([w[0]['state'] for w in E])
        due = cls != 'TD3' or (c['t0'] + u + 1) % c['delay'] == 0
        if len(o[0].got) != int(due):
            return '%s: %d policy updates after critic update %d with delay %d' % (cls, len(o[0].got), c['t0'] + u + 1, c['delay'])
        if cls == 'TD3' and len(syncs) != int(due):
            return 'TD3: %d synchronisations after critic update %d with delay %d' % (len(syncs), c['t0'] + u + 1, c['delay'])
        if any(len(x.got) != 1 for x in o[1:1 + len(cs)]):
            return '%s: critics were updated %s times' % (cls, [len(x.got) for x in o[1:1 + len(cs)]])
        if not due:
            continue
        d = pi(s)
        T = c['temp'] if cls == 'SoftActorCritic' else 0
        if cls in ('DDPG', 'TD3'):
            loss = -F.sum(cs[0](s, d.sample())) / n
        elif cls == 'PGT':
            a = d.sample().array
            adv = (cs[0](s, a).array - cs[0](s, d.most_probable.array).array)[:, 0]
            loss = -F.sum(adv * d.log_prob(a) + c['beta'] * d.entropy) / n
        else:
            if c['target'] is not None:
                T = float(A.temperature_holder().array)
            a, lp = d.sample_with_log_prob()
            qs = [q(s, a)[:, 0] for q in cs]
            loss = F.sum(T * lp - F.where(qs[0].array < qs[1].array, qs[0], qs[1])) / n
        m = _same(o[0].got[0], _of(pi, loss), cls + ' policy')
        if m:
            return m
        if cls == 'SoftActorCritic' and c['target'] is not None:
            if len(o[3].got) != 1:
                return 'SoftActorCritic: %d temperature updates' % len(o[3].got)
            h = A.temperature_holder
            m = _same(o[3].got[0], _of(h, -F.sum(F.broadcast_to(h(), (n,)) * (lp.array + c['target'])) / n), 'SoftActorCritic temperature')
            if m:
                return m


def gen_u(rng):
    return dict(alg=rng.choice(['PPO', 'TRPO', 'TRPO']), seed=rng.randrange(10 ** 6), disc=rng.random() < .5, rec=rng.random() < .4, eps=[rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([1, 2, 3]))],
                std=rng.random() < .5, norm=rng.random() < .4, mb=rng.choice([1, 2, 3, 6]), epochs=rng.choice([1, 2, 3]), ec=rng.choice([0., .01]), phi=rng.choice([1., 2.]),
                step=rng.choice([None, .01, .3, 3., 30., 1e38]), back=rng.choice([0, 1, 3, 10]), kl=rng.choice([1e-3, .01, .1]), vf=rng.choice([None, .2]), bs=rng.random() < .5)


def run_u(c):
    np, chainer, r = _setup(c)
    F, L = chainer.functions, chainer.links
    import copy
    import itertools
    import chainerrl
    from chainerrl import policies
    from chainerrl.agents import ppo, trpo
    from chainerrl.links import StatelessRecurrentBranched, StatelessRecurrentSequential, EmpiricalNormalization
    if c['rec']:
        c = dict(c, mb=max(k for k in range(1, c['mb'] + 1) if sum(c['eps']) % k == 0))
    H, na = 4, 2
    head = policies.FCSoftmaxPolicy(H, 3, n_hidden_layers=0) if c['disc'] else policies.FCGaussianPolicyWithStateIndependentCovariance(
        H, na, n_hidden_layers=0, var_type='diagonal', var_func=lambda x: F.exp(2 * x), var_param_init=0)
    if c['rec']:
        pi, v = (StatelessRecurrentSequential(L.NStepLSTM(1, 2, H, 0), x) for x in (head, L.Linear(H, 1)))
    else:
        pi, v = (chainer.Sequential(L.Linear(2, H), F.tanh, x) for x in (head, L.Linear(H, 1)))
    if c['rec']:
        for x in (pi, v):
            x.n_step_forward([np.zeros((1, 2), 'f')], None, output_mode='concat')
    else:
        pi(np.zeros((1, 2), 'f'))
        v(np.zeros((1, 2), 'f'))
    for x in (pi, v):
        for p in x.params():
            p.array[...] = r.normal(size=p.array.shape) * .7
    norm = None
    if c['norm']:
        norm = EmpiricalNormalization(2)
        norm.experience(r.normal(1, 3, size=(7, 2)).astype('f'))
    seen = []

    def phi(x):
        return x * np.float32(c['phi'])

    def bs(states, xp, phi):
        seen.append([int(round(float(s[0]) * 100)) for s in states])
        return np.asarray([phi(s) + np.float32(.25 if c['bs'] else 0) for s in states])
    kw = dict(obs_normalizer=norm, phi=phi, batch_states=bs, recurrent=c['rec'], entropy_coef=c['ec'], standardize_advantages=c['std'])
    if c['alg'] == 'PPO':
        model = (StatelessRecurrentBranched if c['rec'] else chainerrl.links.Branched)(pi, v)
        opt = _GOpt(model)
        A = ppo.PPO(model, opt, minibatch_size=c['mb'], epochs=c['epochs'], clip_eps=.2, clip_eps_vf=c['vf'], value_func_coef=.5, **kw)
    else:
        opt = _GOpt(v)
        A = trpo.TRPO(pi, v, opt, vf_epochs=c['epochs'], vf_batch_size=c['mb'], max_kl=c['kl'], line_search_max_backtrack=c['back'], **kw)
        model = A.model
    # --- a dataset; the first component of a state tells which transition it is
    i, eps = 0, []
    rs = lambda: (tuple(r.normal(size=(1, H)).astype('f') for _ in range(2)),)
    for ln in c['eps']:
        ep = []
        for k in range(ln):
            d = dict(state=np.array([i * .01, r.normal()], 'f'), action=int(r.randint(3)) if c['disc'] else r.normal(size=na).astype('f'), adv=float(r.normal()),
                     log_prob=float(r.normal(-1.5, .3)), v_pred=float(r.normal()), v_teacher=float(r.normal()), reward=0., nonterminal=1., next_state=np.zeros(2, 'f'))
            if c['rec']:
                d['recurrent_state'] = (rs(), rs())
            ep.append(d)
            i += 1
        eps.append(ep)
    flat = list(itertools.chain.from_iterable(eps))
    N_ = len(flat)
    if c['std'] and N_ < 2:
        return None
    adv = np.array([d['adv'] for d in flat])
    if c['std']:
        adv = (adv - adv.mean()) / (adv.std() + 1e-8)
    adv = adv.astype('f')
    if norm is not None:
        mean, sd = [np.array(x) for x in (norm.mean, norm.std)]

    def xs(ids, nm):
        x = np.asarray([phi(flat[k]['state']) + np.float32(.25 if c['bs'] else 0) for k in ids], 'f')
        return x if nm is None else nm(x, update=False)
    col = lambda ids, k: np.array([flat[j][k] for j in ids], None if k == 'action' else 'f')
    first = {}
    for ep in eps:
        for d in ep:
            first[int(round(float(d['state'][0]) * 100))] = d

    def out(net, seqs, nm, j):
        """outputs of a network (part j of the model) for the transitions of these sequences, in order"""
        if not c['rec']:
            return net(xs(sum(seqs, []), nm))
        hs = [flat[s[0]]['recurrent_state'] for s in seqs]
        hs = hs if j is None else [h[j] for h in hs]
        with chainer.no_backprop_mode(), chainer.using_config('train', False):
            h = net.concatenate_recurrent_states(hs)
        return net.n_step_forward([xs(s, nm) for s in seqs], recurrent_state=h, output_mode='concat')[0]
    who = c['alg'] + (' (recurrent)' if c['rec'] else '')
    batches = []
    bad = []

    def updated():
        """called at every optimizer step: the batches since the last one"""
        seqs = [list(s) for s in seen]
        del seen[:]
        if not c['rec'] and len(seqs) > 1:
            seqs = seqs[-1:]
        batches.append(seqs)
        ids = sum(seqs, [])
        if bad or not ids:
            bad.append(who + ': the update uses no observations batched by the agent')
            return
        got = opt.got[-1]
        t = col(ids, 'v_teacher')[:, None]
        if c['alg'] == 'TRPO':
            y = out(v, seqs, norm, 1)
            want = _of(v, F.sum((y - t) ** 2) / len(ids))
        else:
            d, y = out(model, seqs, norm, None)
            ratio = F.exp(d.log_prob(col(ids, 'action')) - col(ids, 'log_prob'))
            a = adv[ids]
            s = F.where(a >= 0, F.minimum(ratio, np.full(len(ids), 1.2, 'f')), F.maximum(ratio, np.full(len(ids), .8, 'f'))) * a
            e = (y - t) ** 2
            if c['vf'] is not None:
                vo = col(ids, 'v_pred')[:, None]
                e2 = (vo + F.clip(y - vo, -c['vf'], c['vf']) - t) ** 2
                e = F.where(e.array >= e2.array, e, e2)
            if np.any(np.abs(np.abs(ratio.array - 1) - .2) < 1e-4):
                return
            want = _of(model, -F.mean(s) + .5 * F.mean(e) - c['ec'] * F.mean(d.entropy))
        m = _same(got, want, who)
        if m:
            bad.append(m + ' (transitions %s)' % ids)
    opt.hook = updated
    data = [list(e) for e in eps] if c['rec'] else list(flat)
    if c['alg'] == 'PPO':
        if norm is not None:
            norm = A.obs_normalizer
        upd = A._update_recurrent if c['rec'] else A._update
        if c['norm']:
            o_n = A._update_obs_normalizer

            def upd_norm(dataset):
                o_n(dataset)
                del seen[:]
            A._update_obs_normalizer = upd_norm
        upd(data)
        if bad:
            return bad[0]
        return _counts(c, batches, N_, who)
    # --- TRPO: the value function
    upd = A._update_vf_recurrent if c['rec'] else A._update_vf
    upd(data)
    if bad:
        return bad[0]
    m = _counts(c, batches, N_, who)
    if m:
        return m
    # --- TRPO: the policy
    names = sorted(pi.namedparams(), key=lambda x: x[0])
    data = [list(e) for e in eps] if c['rec'] else list(flat)
    seqs = [[int(round(float(d['state'][0]) * 100)) for d in e] for e in eps]
    ids = sum(seqs, [])
    pi0 = copy.deepcopy(pi)
    with chainer.no_backprop_mode():
        d0 = out(pi0, seqs, norm, 0)

        def judge(net):
            d = out(net, seqs, norm, 0)
            ratio = np.exp(d.log_prob(col(ids, 'action')).array.astype(float) - col(ids, 'log_prob'))
            return float((ratio * adv[ids]).mean() + c['ec'] * d.entropy.array.mean()), float(d0.kl(d).array.mean())
        old = judge(pi0)[0]
    steps = []
    full = A._compute_kl_constrained_step

    def step(action_distrib, action_distrib_old, gain):
        if c['step'] is None:
            s = full(action_distrib=action_distrib, action_distrib_old=action_distrib_old, gain=gain)
        else:
            s = (r.normal(size=sum(p.size for p in pi.params())) * c['step']).astype('f')
        steps.append((float(gain.array), np.array(s)))
        return s
    A._compute_kl_constrained_step = step
    (A._update_policy_recurrent if c['rec'] else A._update_policy)(data)
    if len(steps) != 1:
        return None if not steps else who + ': several steps'
    if abs(steps[0][0] - old) > 2e-3 * (1 + abs(old)):
        return '%s: the surrogate gain before the step is %g, published %g' % (who, steps[0][0], old)
    have = [p.array for _, p in names]
    base = [p.array for _, p in sorted(pi0.namedparams(), key=lambda x: x[0])]
    alpha, want, sz = 1., None, None
    trial = copy.deepcopy(pi)
    tp = [p for _, p in sorted(trial.namedparams(), key=lambda x: x[0])]
    with np.errstate(all='ignore'):
        for k in range(c['back'] + 1):
            off = 0
            for p, b in zip(tp, base):
                p.array[...] = b + np.float32(alpha) * steps[0][1][off:off + b.size].reshape(b.shape)
                off += b.size
            with chainer.no_backprop_mode(), chainer.using_config('train', False):
                g, kl = judge(trial)
            if np.isfinite(g) and np.isfinite(kl):
                if abs(g - old) < 1e-4 * (1 + abs(old)) or abs(kl - c['kl']) < 1e-3 * c['kl'] + 1e-6:
                    return None
                if g >= old and kl <= c['kl']:
                    want, sz = [np.array(p.array) for p in tp], alpha
                    break
            alpha *= .5
    rec = list(A.policy_step_size_record)
    if want is None:
        if any(not np.array_equal(a, b) for a, b in zip(have, base)):
            return '%s: no step of the line search is acceptable (max KL %g, %d backtracks), but the policy changed' % (who, c['kl'], c['back'])
        if rec != [0.]:
            return '%s: the policy was restored, but the step sizes are recorded as %s' % (who, rec)
        return None
    if any(not np.allclose(a, b, atol=1e-5, rtol=1e-4) for a, b in zip(have, want)):
        return '%s: the policy does not move by the first acceptable step size %g (max KL %g), recorded %s' % (who, sz, c['kl'], rec)
    if len(rec) != 1 or abs(rec[0] - sz) > 1e-6:
        return '%s: a step of size %g was taken, %s recorded' % (who, sz, rec)


def _counts(c, batches, n, who):
    cnt = [0] * n
    for s in batches:
        for k in sum(s, []):
            cnt[k] += 1
    if min(cnt) < c['epochs'] or (not c['rec'] and sum(cnt) >= n * c['epochs'] + c['mb']):
        return '%s: %d epochs use the transitions %s times' % (who, c['epochs'], cnt)


for _r in (run_v, run_p, run_a, run_u):
    _r.noshrink = True
    _r.max_cases = 4000
run_u.weight = 2
CASES = [('value losses', gen_v, run_v), ('policy objectives', gen_p, run_p), ('actor losses', gen_a, run_a), ('ppo and trpo updates', gen_u, run_u)]
