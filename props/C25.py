"""C25 On-policy n-step returns are exact and stop at episode ends."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, npmodel as N
from props import duals
from props.duals import D, Tape
from props.recording import lists
LEVEL = 'proof'
LEVEL_NOTE = ('any rewards, predictions, flags and discount factors, any number of processes, any update length and any episode length; '
              'an arbitrary step of an arbitrary process or episode is followed')
TRUSTED = ['chainer: the gradient of a loss follows its derivatives with respect to the outputs it was computed from; .array is a constant',
           'sum_arrays: sum of its arguments', 'copy_param: proved in C16', 'np.cumsum: running sums', 'chainer.functions: mean, sum, reshape, squeeze, huber_loss']
ASSUMPTIONS = ['numbers are mathematical (no float rounding)', 'A3C: use_average_reward is off', 'A2C: batch_observe_and_train follows every batch_act_and_train',
               'observations with one axis, scalar actions']
A2C = 'chainerrl.agents.a2c'
W = world('ch25', models=lambda: duals.add(chmodel.add(models.base_models())))
R, Z = z3.RealSort(), z3.IntSort()
ZERO, ONE = Fraction(0), Fraction(1)


def arr(name, sh, kind='f'):
    nm = ctx().name_(name)
    t = ('real',) if kind == 'f' else ('int',)
    return Arr(sh, N.memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix))), kind)


def bare(mod, cls, **kw):
    C = getattr(W.load(mod), cls)
    a = C.__new__(C)
    for k, v in kw.items():
        setattr(a, k, v)
    return a


# ------------------------------------------------------------------ A2C
def p_a2c_returns():
    T, n = fresh_int('update_steps', 1), fresh_int('processes', 1)
    g, tau = fresh_real('gamma'), fresh_real('tau')
    gae = bool(choose(2))
    a = root('a', bare(A2C, 'A2C', update_steps=T, num_processes=n, gamma=g, tau=tau, use_gae=gae))
    rew, val, ret, mask = arr('rewards', (T, n)), arr('value_preds', (T + 1, n)), arr('returns', (T + 1, n)), arr('masks', (T, n))
    a.rewards, a.value_preds, a.returns, a.masks = rew, val, ret, mask
    r0, v0, m0 = rew.snapshot(), val.snapshot(), mask.snapshot()
    boot = arr('next_value', (n,))
    w, s = fresh_int('w', 0), fresh_int('s', 0)
    assume(And(w < n, s < T))
    V = lambda i: ite(same(i, T), boot.at(w), v0.at(i, w))
    X = z3.Function(ctx().name_('X'), Z, R)

    def spec(i):
        """return of step i (GAE: its advantage)"""
        x, y = mk(X(zint(i))), mk(X(zint(i) + 1))
        if not ctx().in_quant:
            end = ZERO if gae else boot.at(w)
            assume(same(mk(X(zint(T))), end))
            if gae:
                step = r0.at(i, w) + g * m0.at(i, w) * V(i + 1) - V(i) + g * tau * m0.at(i, w) * y
            else:
                step = r0.at(i, w) + g * m0.at(i, w) * y
            assume(Implies(And(i >= 0, i < T), same(x, step)))
        return x
    want = lambda i: spec(i) + V(i) if gae else spec(i)

    def inv(L):
        d = {}
        B = L.get('R.a.returns.a')
        d['set'] = Implies(s >= T - L.k, same(B.at(s, w), want(s)))
        if not gae:
            d['next'] = same(B.at(T - L.k, w), want(T - L.k))
        for p, v in L.loop.S0.items():
            if p.startswith('L.') and p.count('.') == 1 and p != 'L.next_value':
                x = L.get(p)
                if isinstance(x, Arr) and x.ndim == 1:
                    x = x.at(w)
                if isinstance(x, (SReal, SInt, Fraction, int)) and not isinstance(x, bool):
                    d['running ' + p] = same(x, spec(T - L.k))
                elif isinstance(x, Arr):
                    continue
        return d
    ctx().invfuns.append(inv)
    a._compute_returns(boot)
    check(same(a.returns.at(s, w), want(s)),
          'the return of a step is its reward plus the discounted masked return of the next, from the bootstrap value (GAE: advantage plus value)')
    cover('returns')


class Net(Obj):
    """the networks of an agent: outputs by contract, gradients and updates on the tape"""
    xp = N.NP

    def __init__(self, out):
        self._pvghost_out = out

    def cleargrads(self):
        ctx().roots['tape'].did('cleargrads')

    def pi_and_v(self, x):
        return self._pvghost_out(x)


class Optim(Obj):
    def update(self, *a, **k):
        ctx().roots['tape'].did('update')


def p_a2c_update():
    T, n, d = fresh_int('update_steps', 1), fresh_int('processes', 1), fresh_int('obs', 1)
    w, s, j = fresh_int('w', 0), fresh_int('s', 0), fresh_int('j', 0)
    assume(And([w < n, s < T, j < d]))
    P = s * n + w
    which = choose(3)
    tape = root('tape', Tape())
    states, actions, returns = arr('states', (T + 1, n, d)), arr('actions', (T, n)), arr('ret', (T + 1, n))
    s0, a0 = states.snapshot(), actions.snapshot()
    boot, V, LP, H = arr('boot', (n, 1)), arr('v', (T * n, 1)), arr('logp', (T * n,)), arr('ent', (T * n,))
    ctx().followed = {1: (P,), 2: (s, w)}
    seed = lambda k: Fraction(0) if k != which else Arr(
        (T * n, 1) if k == 0 else (T * n,), (lambda p, q: ite(same(p, P), ONE, ZERO)) if k == 0 else (lambda p: ite(same(p, P), ONE, ZERO)), 'f')
    calls = []

    class Dist(Obj):
        entropy = property(lambda self: D(H, seed(2)))

        def log_prob(self, x):
            x = duals.val(x)
            check(same(x.at(P), a0.at(s, w)), 'the log-probability of the action taken in that state')
            return D(LP, seed(1))

    def out(x):
        x = duals.val(x)
        if x.ndim == 2 and not calls:
            calls.append('boot')
            check(same(x.at(w, j), s0.at(T, w, j)), 'bootstrap from the last observation')
            return Dist(), chmodel.Var(boot)
        check(x.ndim == 2, 'one row per step and process')
        calls.append('all')
        if calls == ['all']:
            raise Unsupported('order of the evaluations')
        check(same(x.at(P, j), s0.at(s, w, j)), 'the states of all steps are evaluated')
        return Dist(), D(V, seed(0))
    vc, pc, ec = fresh_real('v_loss_coef'), fresh_real('pi_loss_coef'), fresh_real('entropy_coeff')
    t = fresh_int('t', 0)
    a = bare(A2C, 'A2C', update_steps=T, num_processes=n, states=states, actions=actions, returns=returns, obs_shape=(d,), action_shape=(), t=t,
             t_start=t - T, v_loss_coef=vc, pi_loss_coef=pc, entropy_coeff=ec, model=Net(out), optimizer=Optim(), xp=N.NP)
    for st in ('actor_loss', 'value', 'entropy'):
        setattr(a, 'average_%s_decay' % st, fresh_real('decay'))
        setattr(a, 'average_' + st, fresh_real('stat'))

    def compute(nv):
        tape.did('returns')
        check(same(nv.at(w), boot.at(w, 0)), 'bootstrap with the value of the last observation')
    a._compute_returns = compute
    a.update()
    log = tape.log
    check(log.count('returns') == 1 and log[-3:] == ('cleargrads', 'backward', 'update') and len(log) == 4, 'one gradient step, on fresh gradients')
    e = returns.at(s, w) - V.at(P, 0)
    N_ = mk(zreal(T * n))
    want = (lambda: vc * (-2 * e) / N_, lambda: -pc * e / N_, lambda: -ec / N_)[which]()
    check(same(tape.loss.d, want), ['the value of a step is regressed onto its return', 'the log-probability of a step is weighted by return minus value',
                                    'the entropy of a step counts by its coefficient'][which])
    check(same(a.t_start, t), 'every step is used in one update')
    cover('update')


def a2c(T, n, t, t0, **kw):
    d = fresh_int('obs', 1)
    return d, root('a', bare(A2C, 'A2C', update_steps=T, num_processes=n, states=arr('states', (T + 1, n, d)), actions=arr('actions', (T, n)),
                             rewards=arr('rewards', (T, n)), masks=arr('masks', (T, n)), value_preds=arr('value_preds', (T + 1, n)),
                             returns=arr('returns', (T + 1, n)), obs_shape=(d,), action_shape=(), t=t, t_start=t0, xp=N.NP, phi=fresh_obj('phi'), **kw))


def rows(a, **kw):
    return {k: getattr(a, k).snapshot() for k in ('states', 'actions', 'rewards', 'masks', 'value_preds')}


def p_a2c_observe():
    T, n, t, t0 = fresh_int('update_steps', 1), fresh_int('processes', 1), fresh_int('t', 1), fresh_int('t_start', 0)
    assume(And(t - t0 >= 1, t - t0 <= T))
    d, a = a2c(T, n, t, t0)
    w, j = fresh_int('w', 0), fresh_int('j', 0)
    assume(And(w < n, j < d))
    L = lists(n, obs='obj', reward='real', done='bool', reset='bool')
    obs, S = PList(seq=L['obs']), arr('S', (n, d))
    old = rows(a)
    log = []

    def batch(x, xp, phi):
        check(same(to_seq(x).at(w), L['obs'].at(w)), 'the observations are converted')
        return S
    a.batch_states = batch
    over = Or(L['done'].at(w), L['reset'].at(w))

    def recorded():
        r = t - t0 - 1
        check(same(a.masks.at(r, w), ite(over, ZERO, ONE)), 'the mask of the step is zero exactly if the process was done or reset')
        check(same(a.rewards.at(r, w), L['reward'].at(w)), 'the reward of the step')
        check(same(a.states.at(t - t0, w, j), S.at(w, j)), 'the observation that followed')

    def update():
        heap.pure_guard('update')
        check(same(t - t0, T), 'update after update_steps steps')
        recorded()
        log.append('update')
    a.update = update

    def inv(L_):
        d = {}
        for nm, v in L_.loop.frame0.items():
            if isinstance(v, PList):
                try:
                    s = L_.get('L.%s.s' % nm)
                    d[nm] = same(s.at(w), ite(w < L_.k, over, L['done'].at(w)))
                    d[nm + ' n'] = same(s.n, n)
                except (KeyError, AttributeError):
                    pass
        return d
    ctx().invfuns.append(inv)
    a.batch_observe_and_train(obs, PList(seq=L['reward']), PList(seq=L['done']), PList(seq=L['reset']))
    recorded()
    check(same(len(log), 1) if same(t - t0, T) else len(log) == 0, 'update exactly when update_steps steps are there')
    # the state row, and reward and mask of the step
    for k, o in old.items():
        x, p = getattr(a, k), fresh_int('p', 0)
        at = {'states': t - t0, 'rewards': t - t0 - 1, 'masks': t - t0 - 1}.get(k)
        if And(p < x.shape[0], True if at is None else Not(same(p, at))):
            ix = (w, j)[:x.ndim - 1]
            check(same(x.at(p, *ix), o.at(p, *ix)), 'nothing else is changed (%s)' % k)
    check(And(same(a.t, t), same(a.t_start, t0)), 'the step counters')
    cover('observe')


def p_a2c_act():
    T, n, t, t0 = fresh_int('update_steps', 1), fresh_int('processes', 1), fresh_int('t', 0), fresh_int('t_start', 0)
    assume(And(t - t0 >= 0, t - t0 < T))
    d, a = a2c(T, n, t, t0)
    w, j = fresh_int('w', 0), fresh_int('j', 0)
    assume(And(w < n, j < d))
    first = And(same(t, 0))
    L = lists(n, obs='obj')
    obs, S, A, V = PList(seq=L['obs']), arr('S', (n, d)), arr('A', (n,)), arr('V', (n, 1))
    old = rows(a)

    def batch(x, xp, phi):
        check(same(to_seq(x).at(w), L['obs'].at(w)), 'the observations are converted')
        return S
    a.batch_states = batch
    last = []

    class Dist(Obj):
        def sample(self):
            last.append(arr('A', (n,)))
            return chmodel.Var(last[-1])

    def out(x):
        x = duals.val(x)
        check(same(x.at(w, j), S.at(w, j)), 'the current observations are evaluated')
        return Dist(), chmodel.Var(V)
    a.model = Net(out)

    def update():
        check(False, 'the update belongs to the step that completes it')
    a.update = update
    r = a.batch_act_and_train(obs)
    i = t - t0
    check(same(r.at(w), last[-1].at(w)), 'the sampled actions are returned')
    check(same(a.actions.at(i, w), last[-1].at(w)), 'the actions returned are recorded')
    check(same(a.states.at(i, w, j), S.at(w, j)), 'the observations acted on are recorded')
    check(same(a.value_preds.at(i, w), V.at(w, 0)), 'the values predicted for them are recorded')
    check(And(same(a.t, t + 1), same(a.t_start, t0)), 'the step counters')
    if Not(first):
        for k, o in old.items():
            x, p = getattr(a, k), fresh_int('p', 0)
            if And(p < x.shape[0], Or(k in ('rewards', 'masks'), Not(same(p, i)))):
                ix = (w, j)[:x.ndim - 1]
                check(same(x.at(p, *ix), o.at(p, *ix)), 'nothing else is changed (%s)' % k)
    else:
        check(And(same(a.masks.shape[0], T), same(a.masks.shape[1], n)), 'storage for all steps and processes')
        check(And(same(a.rewards.shape[0], T), same(a.states.shape[0], T + 1), same(a.returns.shape[0], T + 1)), 'storage for all steps')
    cover('act')


# ------------------------------------------------------------------ A3C and n-step Q
A3C, NSQ = 'chainerrl.agents.a3c', 'chainerrl.agents.nsq'


class Past(Obj):
    """what is remembered of the steps lo..hi-1, by step"""

    def __init__(self, at, lo, hi):
        self._pvghost_at, self.lo, self.hi = at, lo, hi

    def __getitem__(self, i):
        if not ctx().in_quant:
            check(And(i >= self.lo, i < self.hi), 'only steps since the last update are used')
        return self._pvghost_at(i)

    def __setitem__(self, i, x):
        raise Unsupported('storing during an update')

    def __pv_len__(self):
        return self.hi - self.lo

    def pop(self, i):
        raise Unsupported('pop')

    def clear(self):
        heap.pure_guard('clear')
        self.lo = self.hi


def empty(x):
    return same(x.hi, x.lo) if isinstance(x, Past) else same(heap.pv_len(x), 0)


class Steps(object):
    """rewards of the steps t0..t-1 and the discounted sums over them"""

    def __init__(self, g, boot):
        self.t0, self.t = fresh_int('t_start', 0), fresh_int('t', 1)
        assume(self.t0 < self.t)
        self.w = fresh_int('w', 0)
        assume(And(self.w >= self.t0, self.w < self.t))
        self.g, self.boot = g, boot
        self.r = self.fun('r')
        self.X = z3.Function(ctx().name_('ret'), Z, R)

    def fun(self, nm):
        f = z3.Function(ctx().name_(nm), Z, R)
        return lambda i: mk(f(zint(i)))

    def ret(self, i):
        x, y = mk(self.X(zint(i))), mk(self.X(zint(i) + 1))
        if not ctx().in_quant:
            assume(same(mk(self.X(zint(self.t))), self.boot))
            assume(Implies(And(i >= self.t0, i < self.t), same(x, self.r(i) + self.g * y)))
        return x

    def out(self, f, followed):
        return lambda i: D(f(i), ite(same(i, self.w), ONE, ZERO) if followed else ZERO)

    def past(self, at):
        return Past(at, self.t0, self.t)

    def invariant(self, weight):
        """running sums: the return so far; losses: the weight once the followed step is in"""
        def inv(L):
            d = {}
            for p, v in L.loop.S0.items():
                if not (p.startswith('L.') and p.count('.') == 1):
                    continue
                x = L.get(p)
                if isinstance(x, bool):
                    continue
                if isinstance(x, (D, int, SInt)):
                    dx = x.d if isinstance(x, D) else ZERO
                    d['some ' + p] = Or(same(L.k, 0), isinstance(x, D))
                    d['loss ' + p] = same(dx, ite(self.w >= self.t - L.k, weight, ZERO))
                    d['other ' + p] = same(dx, ZERO)
                if isinstance(x, (SReal, Fraction, SInt, int)):
                    d['return ' + p] = same(x, self.ret(self.t - L.k))
            return d
        ctx().invfuns.append(inv)


class Boot(Obj):
    def __init__(self, x):
        self.array = duals.Const(x)
        self.data = self.array
        self.max = self


def noted(what):
    def f(*a, **k):
        ctx().roots['tape'].did(what)
    return f


def copying(M, net, shared, opt):
    """copy_param and copy_grad by contract"""
    def grad(target_link, source_link):
        check(target_link is shared and source_link is net, 'gradients go to the shared network')
        ctx().roots['tape'].did('copy_grad')

    def param(target_link, source_link):
        check(target_link is net and source_link is shared, 'parameters come from the shared network')
        ctx().roots['tape'].did('sync')
    patch(M, 'copy_param', models.Mod('copy_param', copy_grad=grad, copy_param=param))


ORDER = ('cleargrads', 'backward', 'copy_grad', 'update', 'sync')


def a3c_update(which):
    def p():
        M = W.load(A3C)
        g, beta = fresh_real('gamma'), fresh_real('beta')
        term = bool(choose(2))
        tape = root('tape', Tape())
        boot = ZERO if term else fresh_real('boot')
        S = Steps(g, boot)
        vf, lp, en = S.fun('v'), S.fun('logp'), S.fun('ent')
        statevar = None if term else fresh_obj('statevar')
        kept = []

        class Kept(object):
            def __init__(self, m):
                self.m = m

            def __enter__(self):
                kept.append(self.m)

            def __exit__(self, *a):
                kept.pop()
                return False
        patch(M, 'state_kept', Kept)

        def out(x):
            check(same(x, statevar), 'bootstrap from the given state')
            check(len(kept) == 1 and kept[0] is net, 'the bootstrap evaluation leaves the state of the model alone')
            return None, Boot(boot)
        net, shared = Net(out), Obj()
        opt = Optim()
        copying(M, net, shared, opt)
        pc, vc = fresh_real('pi_loss_coef'), fresh_real('v_loss_coef')
        T = fresh_int('t_max', 1)
        n = S.t - S.t0
        assume(n <= T)
        keep, norm = bool(choose(2)), bool(choose(2))
        wt = [vf(S.w) - S.ret(S.w), -(S.ret(S.w) - vf(S.w)), -beta][which]
        S.invariant(wt)
        a = bare(A3C, 'A3C', shared_model=shared, model=net, optimizer=opt, t_max=T, gamma=g, beta=beta, pi_loss_coef=pc, v_loss_coef=vc, process_idx=1,
                 keep_loss_scale_same=keep, normalize_grad_by_t_max=norm, use_average_reward=False, t=S.t, t_start=S.t0,
                 past_rewards=S.past(S.r), past_values=S.past(S.out(vf, which == 0)), past_action_log_prob=S.past(S.out(lp, which == 1)),
                 past_action_entropy=S.past(S.out(en, which == 2)), past_states=S.past(lambda i: None))
        a.update(statevar)
        c = [vc, pc, pc][which]
        nn = mk(zreal(n))
        if keep:
            c = ite(n < T, c * mk(zreal(T)) / nn, c)
        if norm:
            c = c / nn
        check(tape.log == ORDER, 'one update with the fresh gradients of one loss, then the local model is synchronised')
        check(same(tape.loss.d, wt * c), ['the value of a step is regressed onto its discounted return', 'the log-probability of a step is weighted by return minus value',
                                          'the entropy of a step counts by its coefficient'][which])
        check(same(a.t_start, S.t), 'every step is used in one update')
        check(And([empty(x) for x in (a.past_rewards, a.past_values, a.past_action_log_prob, a.past_action_entropy)]), 'used steps are forgotten')
        cover('update')
    p.__name__ = 'p_a3c_update_' + ('value', 'log_prob', 'entropy')[which]
    return p


def p_nsq_update():
    M = W.load(NSQ)
    g = fresh_real('gamma')
    term = bool(choose(2))
    tape = root('tape', Tape())
    boot = ZERO if term else fresh_real('boot')
    S = Steps(g, boot)
    qf = S.fun('q')
    statevar = None if term else fresh_obj('statevar')
    kept = []

    class Kept(object):
        def __init__(self, m):
            self.m = m

        def __enter__(self):
            kept.append(self.m)

        def __exit__(self, *a):
            kept.pop()
            return False
    patch(M, 'state_kept', Kept)

    class Target(Obj):
        def __call__(self, x):
            check(same(x, statevar), 'bootstrap from the given state')
            check(len(kept) == 1 and kept[0] is self, 'the bootstrap evaluation leaves the state of the model alone')
            return Boot(boot)
    net, shared, opt = Net(None), Obj(), Optim()
    copying(M, net, shared, opt)
    e = qf(S.w) - S.ret(S.w)
    wt = ite(e > 1, ONE, ite(e < -1, -ONE, e))
    S.invariant(wt)
    a = bare(NSQ, 'NSQ', shared_q_function=shared, q_function=net, target_q_function=Target(), optimizer=opt, gamma=g, t=S.t, t_start=S.t0,
             t_max=fresh_int('t_max', 1), past_rewards=S.past(S.r), past_action_values=S.past(S.out(qf, True)), past_states=S.past(lambda i: None))
    a.update(statevar)
    check(tape.log == ORDER, 'one update with the fresh gradients of one loss, then the local model is synchronised')
    check(same(tape.loss.d, wt), 'the action value of a step is regressed (Huber) onto its discounted return')
    check(same(a.t_start, S.t), 'every step is used in one update')
    check(And(empty(a.past_rewards), empty(a.past_action_values)), 'used steps are forgotten')
    cover('update')


class Store(Obj):
    """by step; the followed key is given"""

    def __init__(self, w, had):
        self._pvghost_w = w
        self.has, self.val = had, fresh_obj('old')
        self.got = 0

    def __setitem__(self, i, x):
        heap.pure_guard('store')
        self.got = self.got + 1
        if same(i, self._pvghost_w):
            self.has, self.val = True, x

    def __getitem__(self, i):
        if not same(i, self._pvghost_w):
            raise Unsupported('reading another step')
        return self.val


def step_agent(kind, recurrent):
    M = W.load(A3C if kind == 'A3C' else NSQ)
    t, t0, T = fresh_int('t', 0), fresh_int('t_start', 0), fresh_int('t_max', 1)
    assume(And(t0 <= t, t - t0 <= T))
    a = bare(A3C if kind == 'A3C' else NSQ, kind, t=t, t_start=t0, t_max=T, phi=fresh_obj('phi'), process_idx=1)
    names = ('past_rewards', 'past_values', 'past_action_log_prob', 'past_action_entropy', 'past_states') if kind == 'A3C' else (
        'past_rewards', 'past_action_values', 'past_states')
    return M, a, names, t, t0, T


def act_a3c():
    M, a, names, t, t0, T = step_agent('A3C', False)
    obs, reward, sv = fresh_obj('obs'), fresh_real('reward'), fresh_obj('statevar')
    past = {n: Store(t - 1 if n == 'past_rewards' else t, False) for n in names}
    for n, s in past.items():
        setattr(a, n, s)

    def batch(x, xp, phi):
        check(same(to_seq(x).n, 1) and same(to_seq(x).at(0), obs), 'the current observation is converted')
        return sv
    a.batch_states = batch
    log = []

    def update(x):
        check(same(t - t0, T), 'update after t_max steps')
        check(same(x, sv), 'bootstrap from the current observation')
        check(past['past_rewards'].has is True and same(past['past_rewards'].val, reward), 'the reward of the last step is known by then')
        check(not log, 'one update')
        log.append('update')
        a.t_start = t
        for n in names:
            past[n] = Store(t, False)
            setattr(a, n, past[n])
    a.update = update
    action = arr('action', (1,))
    LP, H, V = D(fresh_real('lp')), D(fresh_real('h')), D(fresh_real('v'))

    class Dist(Obj):
        entropy = H

        def sample(self):
            return chmodel.Var(action)

        def log_prob(self, x):
            check(same(duals.val(x).at(0), action.at(0)), 'the log-probability of the sampled action')
            return LP

    def out(x):
        check(same(x, sv), 'the current observation is evaluated')
        check(len(log) == 1 if same(t - t0, T) else not log, 'an update comes before acting')
        return Dist(), V
    a.model = Net(out)
    a.average_value = a.average_entropy = fresh_real('stat')
    a.average_value_decay = a.average_entropy_decay = fresh_real('decay')
    r = a.act_and_train(obs, reward)
    check(same(duals.val(r), action.at(0)), 'the sampled action is returned')
    if same(t - t0, T):
        check(log == ['update'], 'update exactly when t_max steps are there')
    else:
        check(not log, 'update exactly when t_max steps are there')
        check(past['past_rewards'].has is True and same(past['past_rewards'].val, reward), 'the reward belongs to the step before')
    for n, x in (('past_values', V), ('past_action_log_prob', LP), ('past_action_entropy', H)):
        check(past[n].has is True and past[n].val is x and past[n].got == 1, 'the outputs of this step are remembered under its number')
    check(same(a.t, t + 1), 'the step counter')
    cover('act')


def act_nsq():
    M, a, names, t, t0, T = step_agent('NSQ', False)
    obs, reward, sv = fresh_obj('obs'), fresh_real('reward'), fresh_obj('statevar')
    past = {n: Store(t - 1 if n == 'past_rewards' else t, False) for n in names}
    for n, s in past.items():
        setattr(a, n, s)

    def batch(x, xp, phi):
        check(same(to_seq(x).n, 1) and same(to_seq(x).at(0), obs), 'the current observation is converted')
        return sv
    a.batch_states = batch
    log = []

    def update(x):
        check(same(t - t0, T), 'update after t_max steps')
        check(same(x, sv), 'bootstrap from the current observation')
        check(past['past_rewards'].has is True and same(past['past_rewards'].val, reward), 'the reward of the last step is known by then')
        log.append('update')
        a.t_start = t
        for n in names:
            past[n] = Store(t, False)
            setattr(a, n, past[n])
    a.update = update
    action, Q = fresh_int('action', 0), D(fresh_real('q'))
    greedy = arr('greedy', (1,))

    class QOut(Obj):
        greedy_actions = chmodel.Var(greedy)

        def evaluate_actions(self, x):
            check(same(duals.val(x).at(0), action), 'the value of the chosen action')
            return Q

    class QF(Obj):
        def __call__(self, x):
            check(same(x, sv), 'the current observation is evaluated')
            check(len(log) == 1 if same(t - t0, T) else not log, 'an update comes before acting')
            return QOut()

    class Explorer(Obj):
        def select_action(self, step, greedy_action_func, action_value=None):
            check(same(step, g0), 'exploration by the number of global steps')
            return action
    a.explorer = Explorer()
    a.q_function, a.target_q_function, a.shared_q_function = QF(), Obj(), Obj()
    I = fresh_int('i_target', 1)
    g0 = fresh_int('t_global', 0)

    class Lock(object):
        def __enter__(self):
            check(not G.held, 'not taken twice')
            G.held = True

        def __exit__(self, *x):
            G.held = False
            return False

    class Global(Obj):
        held = False

        def __init__(self):
            self.n = g0

        def get_lock(self):
            return Lock()

        @property
        def value(self):
            return self.n

        @value.setter
        def value(self, x):
            check(self.held, 'counted under the lock')
            self.n = x
    G = a.t_global = Global()
    synced = []

    def param(target_link, source_link):
        check(target_link is a.target_q_function and source_link is a.q_function, 'the target takes the parameters of the Q-function')
        synced.append(1)
    patch(M, 'copy_param', models.Mod('copy_param', copy_param=param))
    a.i_target = I
    a.average_q, a.average_q_decay = fresh_real('stat'), fresh_real('decay')
    a.logger = models.Mod('logger', debug=lambda *x: None, info=lambda *x: None)
    r = a.act_and_train(obs, reward)
    check(same(r, action), 'the chosen action is returned')
    if same(t - t0, T):
        check(log == ['update'], 'update exactly when t_max steps are there')
    else:
        check(not log, 'update exactly when t_max steps are there')
        check(past['past_rewards'].has is True and same(past['past_rewards'].val, reward), 'the reward belongs to the step before')
    v = past['past_action_values']
    check(v.has is True and v.val is Q and v.got == 1, 'the value of the action is remembered under the number of the step')
    check(same(a.t, t + 1) and same(G.n, g0 + 1), 'the step counters')
    check(len(synced) == 1 if same((g0 + 1) % I, 0) else not synced, 'the target is synchronised every i_target global steps')
    cover('act')


def stop_of(kind):
    def p():
        M, a, names, t, t0, T = step_agent(kind, False)
        if not t > t0:
            return
        obs, reward, sv = fresh_obj('obs'), fresh_real('reward'), fresh_obj('statevar')
        past = a.past_rewards = Store(t - 1, False)

        def batch(x, xp, phi):
            check(same(to_seq(x).n, 1) and same(to_seq(x).at(0), obs), 'the last observation is converted')
            return sv
        a.batch_states = batch
        done = bool(choose(2))
        log = []

        def update(x):
            check(past.has is True and same(past.val, reward), 'the last reward is known by then')
            check(x is None if done else same(x, sv), 'no bootstrap value exactly at a terminal')
            log.append('update')
        a.update = update
        a.model = a.q_function = a.target_q_function = a.shared_q_function = Obj()
        a.stop_episode_and_train(obs, reward, done)
        check(log == ['update'], 'the rest of the episode is used, once')
        cover('stop')
    p.__name__ = 'stop_episode_and_train_' + kind
    return p


# ------------------------------------------------------------------ REINFORCE
REINFORCE = 'chainerrl.agents.reinforce'


class Seqn(loops.Handle):
    """recorded sequence of episode parts[1]: rewards (0), log-probabilities (1) or entropies (2)"""

    def __pv_len__(self):
        kind, e = self.parts
        return E().len(e) + (1 if kind == 0 else 0)

    def __pv_bool__(self):
        return self.__pv_len__() > 0

    def __pv_seq__(self):
        kind, e = self.parts
        return Seq(n=self.__pv_len__(), at=lambda i: E().item(kind, e, i))

    def __getitem__(self, k):
        return PList(seq=self.__pv_seq__())[k]

    def __iter__(self):
        raise Unsupported('iteration')

    def __reversed__(self):
        return heap.pv_reversed(PList(seq=self.__pv_seq__()))


def E():
    return ctx().roots['E']


class Batch(Obj):
    """a batch of episodes: episode e has len(e) steps; reward 0 came before its first step"""

    def __init__(self, which):
        c = ctx()
        self.n = fresh_int('episodes', 1)
        self._pvghost_len, self._pvghost_r = z3.Function(c.name_('len'), Z, Z), z3.Function(c.name_('r'), Z, Z, R)
        self._pvghost_G = z3.Function(c.name_('G'), Z, Z, R)
        self.e, self.i = fresh_int('e', 0), fresh_int('i', 0)
        self._pvghost_which = which
        self._pvghost_sums = []
        self._pvghost_off, self._pvghost_at = z3.Function(c.name_('off'), Z, Z), z3.Function(c.name_('at'), Z, Z)
        assume(And(self.e < self.n, self.i < self.len(self.e)))

    def off(self, e):
        """number of steps of the episodes before e"""
        f = lambda e: mk(self._pvghost_off(zint(e)))
        if not ctx().in_quant:
            assume(And([same(f(0), 0), f(e) >= 0, Implies(e >= 0, same(f(e + 1), f(e) + self.len(e))),
                        Implies(e > 0, same(f(e), f(e - 1) + self.len(e - 1)))]))
        return f(e)

    def pos(self, e, i):
        """the place of step i of episode e; lemma: no other step has it, and it is before the end"""
        p = self.off(e) + i
        if not ctx().in_quant:
            assume(Implies(And([e >= 0, e < self.n, i >= 0, i < self.len(e)]), And(same(mk(self._pvghost_at(zint(p))), e), p < self.off(self.n))))
        return p

    def len(self, e):
        t = mk(self._pvghost_len(zint(e)))
        if not ctx().in_quant:
            assume(t >= 0)
        return t

    def r(self, e, i):
        return mk(self._pvghost_r(zint(e), zint(i)))

    def later(self, e, i):
        """sum of the rewards after step i"""
        G = lambda i: mk(self._pvghost_G(zint(e), zint(i)))
        if not ctx().in_quant:
            assume(And(same(G(self.len(e)), ZERO), Implies(And(i >= 0, i < self.len(e)), same(G(i), self.r(e, i + 1) + G(i + 1)))))
        return G(i)

    def item(self, kind, e, i):
        if kind == 0:
            return self.r(e, i)
        v = None
        if kind != self._pvghost_which:
            return D(v)
        if not ctx().in_quant:
            self.pos(e, i)
        return D(v, ite(And(same(e, self.e), same(i, self.i)), ONE, ZERO))

    def all(self, kind):
        return PList(seq=Seq(n=self.n, at=heap.memo_at(lambda e: Seqn(kind, e))))

    def lemma(self, x, C):
        """the running sum of the reversed rewards of an episode is the sum of its later rewards"""
        if x.n <= 0:
            return
        j = fresh_int('j', 0)
        assume(j < x.n)
        t = x.at(j).t if isinstance(x.at(j), SReal) else None
        if t is None or t.decl() != self._pvghost_r:
            return
        K = mk(t.arg(0))
        n = self.len(K)
        if not ctx().known(And(same(x.n, n), same(mk(t.arg(1)), n - j))):
            return
        want = lambda j: self.later(K, n - 1 - j)
        check(same(C.raw(0), want(0)), 'the last step of an episode is followed by its last reward only')
        want(j + 1)
        check(Implies(And(j + 1 < n, same(C.raw(j), want(j))), same(C.raw(j + 1), want(j + 1))), 'one step earlier')
        C.facts.append(lambda j: Implies(And(j >= 0, j < n), same(C.raw(j), want(j))))
        self._pvghost_sums.append((C, K, n))

    def at_position(self, q):
        """instances of the lemma for position q of the concatenated episodes"""
        for C, K, n in self._pvghost_sums:
            if not ctx().in_quant:
                i = q - self.off(K)
                self.pos(K, i)
                C.at(n - 1 - i)


def reinforce_grad(which):
    def p():
        M = W.load(REINFORCE)
        tape = root('tape', Tape())
        B = root('E', Batch(which))
        ctx().cumsum_lemmas = [B.lemma]
        pos = B.pos(B.e, B.i)
        q = fresh_int('q', 0)
        beta, bs = fresh_real('beta'), fresh_int('batchsize', 1)
        wt = -B.later(B.e, B.i) if which == 1 else -beta
        want = ite(same(q, pos), wt, ZERO)
        a = bare(REINFORCE, 'REINFORCE', beta=beta, batchsize=bs, model=Net(None), optimizer=Optim(), n_backward=fresh_int('n_backward', 0),
                 reward_sequences=B.all(0), log_prob_sequences=B.all(1), entropy_sequences=B.all(2))
        n0 = a.n_backward

        def inv(L):
            d = {}
            for nm, v in L.loop.frame0.items():
                if not isinstance(v, PList):
                    continue
                try:
                    s = L.get('L.%s.s' % nm)
                    old = L.loop.S0['L.%s.s' % nm]
                except KeyError:
                    continue
                d['outer n ' + nm] = same(s.n, B.off(L.k))
                d['inner n ' + nm] = same(s.n, old.n + L.k)
                if s.items is not None and not s.items:
                    d['loss ' + nm] = True
                    continue
                x = s.at(q)
                B.at_position(q)
                if isinstance(x, D):
                    d['loss ' + nm] = Implies(q < s.n, same(x.d, want))
            return d
        ctx().invfuns.append(inv)

        def sum_arrays(xs):
            s = to_seq(xs)
            check(same(s.n, B.off(B.n)), 'one term per step')
            if q < s.n:
                check(same(s.at(q).d, want), ['', 'the log-probability of a step is weighted by the sum of the later rewards of its episode',
                                              'the entropy of a step counts by its coefficient'][which])
            return D(None, wt)
        M.__dict__['chainerrl'] = models.Mod('chainerrl', functions=models.Mod('chainerrl.functions', sum_arrays=sum_arrays),
                                             misc=models.Mod('misc', batch_states=None))
        a.accumulate_grad()
        check(tape.log == (('cleargrads', 'backward') if same(n0, 0) else ('backward',)), 'gradients are cleared before the first loss of a batch only')
        check(same(tape.loss.d, wt / mk(zreal(bs))), 'the average over the batch')
        check(same(a.n_backward, n0 + 1), 'losses are counted')
        for x in (a.reward_sequences, a.log_prob_sequences, a.entropy_sequences):
            s = to_seq(x)
            check(And(same(s.n, 1), same(to_seq(s.at(0)).n, 0)), 'every step is used once')
        cover('grad')
    p.__name__ = 'p_reinforce_grad_' + ('', 'log_prob', 'entropy')[which]
    return p


class Cur(Obj):
    """sequence in progress"""

    def __init__(self):
        self.old, self.new = fresh_int('len', 0), ()

    def append(self, x):
        heap.pure_guard('append')
        self.new = self.new + (x,)

    def __pv_len__(self):
        return self.old + len(self.new)


class Many(Obj):
    """finished sequences and the one in progress"""

    def __init__(self, n):
        self.n, self.cur, self.added = n, Cur(), 0

    def __pv_len__(self):
        return self.n

    def __getitem__(self, k):
        check(Or(same(k, -1), same(k, self.n - 1)), 'the sequence in progress')
        return self.cur

    def __setitem__(self, k, v):
        check(Or(same(k, -1), same(k, self.n - 1)), 'the sequence in progress')
        self.cur = v

    def append(self, x):
        heap.pure_guard('append')
        self.n, self.cur, self.added = self.n + 1, x, self.added + 1


SEQS = ('reward_sequences', 'log_prob_sequences', 'entropy_sequences')


def reinforce(**kw):
    n = fresh_int('sequences', 1)
    return n, bare(REINFORCE, 'REINFORCE', logger=models.Mod('logger', debug=lambda *x: None), xp=N.NP, phi=fresh_obj('phi'), t=fresh_int('t', 0),
                   average_entropy=fresh_real('stat'), average_entropy_decay=fresh_real('decay'), **dict({k: Many(n) for k in SEQS}, **kw))


def p_reinforce_act():
    W.load(REINFORCE)
    n, a = reinforce()
    curs = [getattr(a, k).cur for k in SEQS]
    obs, reward, sv, action = fresh_obj('obs'), fresh_real('reward'), fresh_obj('statevar'), arr('action', (1,))
    LP, H = D(fresh_real('lp')), D(fresh_real('h'))

    def batch(x, xp, phi):
        check(same(to_seq(x).n, 1) and same(to_seq(x).at(0), obs), 'the current observation is converted')
        return sv
    a.batch_states = batch

    class Dist(Obj):
        entropy = H

        def sample(self):
            return chmodel.Var(action)

        def log_prob(self, x):
            check(same(duals.val(x).at(0), action.at(0)), 'the log-probability of the sampled action')
            return LP

    def model(x):
        check(same(x, sv), 'the current observation is evaluated')
        return Dist()
    a.model = model
    r = a.act_and_train(obs, reward)
    check(same(r, action.at(0)), 'the sampled action is returned')
    for k, c, x in zip(SEQS, curs, (reward, LP, H)):
        m = getattr(a, k)
        check(m.cur is c and same(m.n, n), 'the episode goes on')
        check(len(c.new) == 1 and (c.new[0] is x or same(c.new[0], x)), 'the step is recorded once')
    cover('act')


def p_reinforce_stop():
    W.load(REINFORCE)
    sep, done = bool(choose(2)), bool(choose(2))
    bs = fresh_int('batchsize', 1)
    n, a = reinforce(batchsize=bs, backward_separately=sep, n_backward=fresh_int('n_backward', 0), model=Obj())
    if sep:
        assume(And(same(n, 1), a.n_backward < bs))
    else:
        assume(And(n <= bs, same(a.n_backward, 0)))
    n0 = a.n_backward
    reward = fresh_real('reward')
    curs = [getattr(a, k).cur for k in SEQS]
    log = []

    def used(what):
        log.append(what)
        c = a.reward_sequences.cur
        check(c is curs[0] and len(c.new) == 1 and same(c.new[0], reward), 'the last reward is known by then')
        for k in SEQS:
            setattr(a, k, PList([PList([])]))

    def grad():
        used('grad')
        a.n_backward = a.n_backward + 1
    a.accumulate_grad = grad
    a.batch_update = lambda: used('batch')

    def upd():
        log.append('update')
        a.n_backward = 0
    a.update_with_accumulated_grad = upd
    a.stop_episode_and_train(fresh_obj('obs'), reward, done)
    if not done:
        check(not log, 'an episode without a terminal is not used')
        for k in SEQS:
            m = getattr(a, k)
            check(same(m.n, n) and same(heap.pv_len(m.cur), 0), 'it is thrown away whole, and nothing else')
    elif sep:
        check(log == (['grad', 'update'] if same(n0 + 1, bs) else ['grad']), 'every episode gives its gradients once, and a batch of them one update')
    elif same(n, bs):
        check(log == ['batch'], 'a full batch is used')
    else:
        check(not log, 'only full batches are used')
        for k, c in zip(SEQS, curs):
            m = getattr(a, k)
            check(same(m.n, n + 1) and same(m.added, 1) and same(heap.pv_len(m.cur), 0), 'the next episode has its own sequence')
        check(len(curs[0].new) == 1 and same(curs[0].new[0], reward), 'the last reward belongs to the episode')
        check(not curs[1].new and not curs[2].new, 'nothing else is recorded')
    cover('stop')


def p_reinforce_updates():
    W.load(REINFORCE)
    bs = fresh_int('batchsize', 1)
    tape = root('tape', Tape())
    n, a = reinforce(batchsize=bs, n_backward=0, optimizer=Optim())
    if choose(2):
        assume(same(n, bs))

        def grad():
            tape.did('grad')
            a.n_backward = a.n_backward + 1
        a.accumulate_grad = grad
        a.batch_update()
        check(tape.log == ('grad', 'update'), 'one gradient, one update')
    else:
        a.n_backward = bs
        a.update_with_accumulated_grad()
        check(tape.log == ('update',), 'one update')
    check(same(a.n_backward, 0), 'the next batch starts with fresh gradients')
    cover('updates')


PROOFS = [p_a2c_returns, p_a2c_update, p_a2c_observe, p_a2c_act, a3c_update(0), a3c_update(1), a3c_update(2), p_nsq_update, act_a3c, act_nsq,
          stop_of('A3C'), stop_of('NSQ'), reinforce_grad(1), reinforce_grad(2), p_reinforce_act, p_reinforce_stop, p_reinforce_updates]


# ------------------------------------------------------------------ concrete companion: gradients of real agents
def gen(rng):
    cls = rng.choice(['A2C', 'A3C', 'NSQ', 'REINFORCE'])
    n = rng.randint(1, 3) if cls == 'A2C' else 1
    L = rng.randint(1, 12)
    pd, pr = rng.choice([0, .1, .3, .6]), rng.choice([0, 0, .2])
    steps = [[[round(rng.uniform(-2, 2), 2), rng.random() < pd, rng.random() < pr] for _ in range(n)] for _ in range(L)]
    return dict(cls=cls, n=n, T=rng.randint(1, 5), gamma=rng.choice([0., .5, .9, 1.]), tau=rng.choice([0., .5, .95, 1.]), gae=rng.random() < .5, steps=steps,
                keep=rng.random() < .3, norm=rng.random() < .3, pc=rng.choice([1., .5]), vc=rng.choice([1., .5, 2.]), beta=rng.choice([0., .01, .3]),
                sep=rng.random() < .5, bs=rng.randint(1, 3), it=rng.randint(1, 4), others=rng.choice([0, 0, 1, 5]), seed=rng.randrange(1000))


def run(c):
    import copy
    import warnings
    import numpy as np
    import chainer
    from chainer import functions as F, links as L
    from chainerrl import agents, action_value, distribution, explorers
    np.random.seed(c['seed'])
    cls, n, g = c['cls'], c['n'], c['gamma']
    NA = 3

    def piv(base):
        class M(chainer.Chain, base):
            def __init__(self):
                super().__init__()
                with self.init_scope():
                    self.h, self.p, self.v = L.Linear(2, 4), L.Linear(4, NA), L.Linear(4, 1)

            def pi_and_v(self, x):
                h = F.tanh(self.h(x))
                return distribution.SoftmaxDistribution(self.p(h)), self.v(h)

            def __call__(self, x):
                return self.pi_and_v(x)
        return M()

    class Q(chainer.Chain):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.h, self.q = L.Linear(2, 4), L.Linear(4, NA)

        def __call__(self, x):
            return action_value.DiscreteActionValue(self.q(F.tanh(self.h(x))))

    class Pi(chainer.Chain):
        def __init__(self):
            super().__init__()
            with self.init_scope():
                self.h, self.p = L.Linear(2, 4), L.Linear(4, NA)

        def __call__(self, x):
            return distribution.SoftmaxDistribution(self.p(F.tanh(self.h(x))))
    from chainerrl.agents import a2c, a3c
    model = dict(A2C=lambda: piv(a2c.A2CModel), A3C=lambda: piv(a3c.A3CModel), NSQ=Q, REINFORCE=Pi)[cls]()
    opt = chainer.optimizers.SGD(.1)
    opt.setup(model)
    got = []                    # (parameters before, gradients) of every update
    o_up = opt.update

    def up(*a, **k):
        got.append(({p: x.array.copy() for p, x in model.namedparams()},
                    {p: (np.zeros_like(x.array) if x.grad is None else x.grad.copy()) for p, x in model.namedparams()}))
        return o_up(*a, **k)
    opt.update = up
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if cls == 'A2C':
            A = agents.A2C(model, opt, g, n, update_steps=c['T'], pi_loss_coef=c['pc'], v_loss_coef=c['vc'], entropy_coeff=c['beta'], use_gae=c['gae'], tau=c['tau'])
        elif cls == 'A3C':
            A = agents.A3C(model, opt, c['T'], g, beta=c['beta'], pi_loss_coef=c['pc'], v_loss_coef=c['vc'], keep_loss_scale_same=c['keep'],
                           normalize_grad_by_t_max=c['norm'])
        elif cls == 'NSQ':
            A = agents.NSQ(model, opt, c['T'], g, c['it'], explorers.ConstantEpsilonGreedy(.5, lambda: np.random.randint(NA)))
            A.t_global.value = c['others']          # steps taken by other processes
        else:
            A = agents.REINFORCE(model, opt, beta=c['beta'], batchsize=c['bs'], backward_separately=c['sep'])
        uid = [0]

        def new_obs():
            uid[0] += 1
            return np.asarray([np.sin(uid[0]), np.random.normal()], 'f')
        want = []               # (steps, bootstrap) of every update; a step is (obs, action, reward, over)
        obs = [new_obs() for _ in range(n)]
        buf, eps, r = [], [], 0.
        targets, tq = [], copy.deepcopy(model)
        for t, row in enumerate(c['steps']):
            nxt = [new_obs() for _ in range(n)]
            if cls == 'A2C':
                acts = A.batch_act_and_train(list(obs))
                A.batch_observe_and_train(list(nxt), [x[0] for x in row], [x[1] for x in row], [x[2] for x in row])
                buf.append((list(obs), list(acts), [x[0] for x in row], [x[1] or x[2] for x in row]))
                if len(buf) == c['T']:
                    want.append((buf, list(nxt)))
                    buf = []
                obs = [new_obs() if x[1] or x[2] else nxt[i] for i, x in enumerate(row)]
                continue
            rew, done, stop = row[0]
            if cls != 'REINFORCE' and len(buf) == c['T']:
                want.append((buf, obs[0], copy.deepcopy(tq)))
                buf = []
            a = A.act_and_train(obs[0], r)
            if cls == 'NSQ' and (c['others'] + t + 1) % c['it'] == 0:
                tq.copyparams(model)
            buf.append((obs[0], a, rew))
            if done or stop:
                A.stop_episode_and_train(nxt[0], rew, done)
                if cls == 'REINFORCE':
                    if done:
                        eps.append(buf)
                    if len(eps) == c['bs']:
                        want.append((eps, None))
                        eps = []
                else:
                    want.append((buf, None if done else nxt[0], copy.deepcopy(tq)))
                buf = []
                obs, r = [new_obs()], 0.
            else:
                obs, r = [nxt[0]], rew
    if len(got) != len(want):
        return '%s: %d updates, expected %d' % (cls, len(got), len(want))
    m = copy.deepcopy(model)
    for k, ((params, grads), w) in enumerate(zip(got, want)):
        for p, x in m.namedparams():
            x.array[...] = params[p]
        m.cleargrads()
        loss = 0
        if cls == 'A2C':
            steps, last = w
            T = len(steps)
            with chainer.no_backprop_mode():
                vals = [m.pi_and_v(np.stack(s[0]))[1].array[:, 0].astype('d') for s in steps] + [m.pi_and_v(np.stack(last))[1].array[:, 0].astype('d')]
            for i in range(n):
                R, adv = vals[T][i], 0.
                for t in reversed(range(T)):
                    o, a, rw, over = [x[i] for x in steps[t]]
                    alive = 0. if over else 1.
                    if c['gae']:
                        adv = rw + g * alive * vals[t + 1][i] - vals[t][i] + g * c['tau'] * alive * adv
                        R = adv + vals[t][i]
                    else:
                        R = rw + g * alive * R
                    po, v = m.pi_and_v(o[None])
                    v = v[0, 0]
                    loss += (c['vc'] * (float(R) - v) ** 2 - c['pc'] * float(R - v.array) * po.log_prob(np.asarray([a]))[0] - c['beta'] * po.entropy[0]) / (T * n)
        elif cls == 'A3C':
            steps, last, _ = w
            with chainer.no_backprop_mode():
                R = 0. if last is None else float(m.pi_and_v(last[None])[1].array[0, 0])
            pl = vl = 0
            for o, a, rw in reversed(steps):
                R = rw + g * R
                po, v = m.pi_and_v(o[None])
                v = v[0, 0]
                pl -= float(R - v.array) * po.log_prob(np.asarray([a]))[0] + c['beta'] * po.entropy[0]
                vl += (v - R) ** 2 / 2
            f = (c['T'] / len(steps) if c['keep'] else 1) / (len(steps) if c['norm'] else 1)
            loss = (pl * c['pc'] + vl * c['vc']) * f
        elif cls == 'NSQ':
            steps, last, tq = w
            with chainer.no_backprop_mode():
                R = 0. if last is None else float(tq(last[None]).q_values.array.max())
            for o, a, rw in reversed(steps):
                R = rw + g * R
                q = m(o[None]).q_values[0, int(a)]
                e = q - R
                loss += e ** 2 / 2 if abs(float(e.array)) < 1 else abs(e) - .5
        else:
            for ep in w[0]:
                for j, (o, a, _) in enumerate(ep):
                    R = sum(x[2] for x in ep[j:])
                    po = m(o[None])
                    loss += (-R * po.log_prob(np.asarray([a]))[0] - c['beta'] * po.entropy[0]) / c['bs']
        loss.backward()
        for p, x in m.namedparams():
            gr = np.zeros_like(x.array) if x.grad is None else x.grad
            if not np.allclose(gr, grads[p], rtol=2e-3, atol=2e-4):
                return '%s: update %d of %d: gradient of %s is %s, returns of these steps give %s' % (cls, k, len(want), p, grads[p].tolist(), gr.tolist())
    return None


CASES = [('gradients', gen, run)]
