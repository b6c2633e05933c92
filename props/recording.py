"""Recording of transitions by PPO and TRPO (used by C23 and C29): arbitrary agent state, one arbitrary environment followed."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, npmodel as N
AGENTS = [('chainerrl.agents.ppo', 'PPO'), ('chainerrl.agents.trpo', 'TRPO')]
W = world('chrec', models=lambda: chmodel.add(models.base_models()))


class RS(loops.Handle):
    """recurrent state of one environment: (token of the batched state, index)"""


class Batch(loops.Handle):
    """batched recurrent state number parts[0]"""


class Masked(Obj):
    def __init__(self, base, indices):
        self.base, self.indices = base, indices


class RModel(Obj):
    xp = N.NP

    def get_recurrent_state_at(self, states, i, unwrap_variable):
        check(isinstance(states, Batch), 'a hidden state is taken from the batched state of this step')
        check(unwrap_variable is True, 'stored hidden states are arrays')
        return RS(states.parts[0], i)

    def mask_recurrent_state_at(self, states, indices):
        return Masked(states, indices)


def agent(mod, cls, recurrent):
    M = W.load(mod)
    C = getattr(M, cls)
    a = C.__new__(C)
    a.model = root('model', RModel())
    a.recurrent = recurrent
    a.obs_normalizer = None
    a.last_episode = PList([])
    a.memory = PList([])
    a.batch_last_episode = a.batch_last_state = a.batch_last_action = None
    a.train_recurrent_states = a.train_prev_recurrent_states = a.test_recurrent_states = None
    return a


# ------------------------------------------------------------------ one environment
class Last(Obj):
    """the episode in progress: what it contained, plus what was added"""

    def __init__(self):
        self.old = fresh_int('old_len', 0)
        self.new = 0
        self.tr = None

    def append(self, tr):
        check(same(self.new, 0), 'one transition per step')
        self.new = 1
        self.tr = tr

    def __pv_len__(self):
        return self.old + self.new

    def __pv_bool__(self):
        return self.old + self.new > 0


class Memory(Obj):
    def __init__(self):
        self.got = ()

    def append(self, ep):
        self.got = self.got + (ep,)


class Serial(object):
    def __init__(self, mod, cls):
        self.rec = bool(choose(2))
        a = self.a = agent(mod, cls, self.rec)
        self.last = a.last_episode = Last()
        self.mem = a.memory = Memory()
        self.obs0, self.act0, self.obs, self.r = fresh_obj('obs0'), fresh_obj('act0'), fresh_obj('obs'), fresh_real('r')
        a.last_state, a.last_action = self.obs0, self.act0
        self.before, self.after = Batch(0), Batch(1)
        if self.rec:
            a.train_prev_recurrent_states, a.train_recurrent_states = self.before, self.after
        self.log = []
        a._update_if_dataset_is_ready = lambda: self.log.append('update')

    def recorded(self, done):
        check(same(self.last.new, 1), 'the step is recorded')
        t = self.last.tr
        check(And(same(t['state'], self.obs0), same(t['action'], self.act0)), 'the observation acted on and the action returned for it')
        check(And(same(t['reward'], self.r), same(t['next_state'], self.obs)), 'the reward and observation that followed')
        check(same(t['nonterminal'], ite(done, Fraction(0), Fraction(1))), 'nonterminal is zero exactly if the step was reported done')
        if self.rec:
            check(And(same(t['recurrent_state'], RS(0, 0)), same(t['next_recurrent_state'], RS(1, 0))), 'the hidden state before and after the step')


class Shell(Obj):
    """output of the model"""

    def __init__(self, log):
        self.log = log
        self.array = N.Arr((1, 1), lambda *ix: fresh_real('out'), 'f')

    @property
    def entropy(self):
        return self

    @property
    def most_probable(self):
        check(False, 'training actions are sampled')

    def sample(self):
        return Sample()


class Sample(Obj):
    def __init__(self):
        self.array = N.Arr((1,), lambda *ix: fresh_real('act'), 'f')


def act(mod, cls):
    """act_and_train records the pending step, once, then remembers observation and action"""
    S = Serial(mod, cls)
    a = S.a
    first = bool(choose(2))
    if first:
        a.last_state = a.last_action = None
        if S.rec:
            a.train_prev_recurrent_states = None
            a.train_recurrent_states = None

    def upd():
        S.log.append('update')
        check(same(S.last.new, 0 if first else 1), 'the pending step is recorded before the update')
    a._update_if_dataset_is_ready = upd
    a.phi = fresh_obj('phi')
    a.xp = N.NP
    a.entropy_record, a.value_record = PList([]), PList([])

    def batch_states(states, xp, phi):
        s = to_seq(states)
        check(And(same(s.n, 1), same(s.at(0), S.obs), same(phi, a.phi)), 'the model sees the current observation')
        S.log.append('features')
        return fresh_obj('features')
    a.batch_states = batch_states
    out = Shell(S.log)
    calls = []

    class M2(RModel):
        def __call__(self, x, *st):
            calls.append(st)
            check(len(st) == (1 if S.rec else 0), 'the hidden state is passed to recurrent models')
            if S.rec:
                want = None if first else S.after
                check(st[0] is want or (isinstance(st[0], Batch) and isinstance(want, Batch) and same(st[0], want)),
                      'the model continues from the hidden state after the previous step')
                return (out, out), Batch(2)
            return out, out
    a.model = root('model2', M2())
    r = a.act_and_train(S.obs, S.r)
    check(len(calls) == 1, 'the model is evaluated once')
    if first:
        check(same(S.last.new, 0), 'nothing to record at the first step of an episode')
    else:
        S.recorded(False)
    check(S.log.count('update') == 1, 'the update is considered once per step')
    check(S.mem.got == (), 'the episode goes on')
    check(And(same(a.last_state, S.obs), same(a.last_action, r)), 'observation and action are remembered for the next call')
    if S.rec:
        prev, now = a.train_prev_recurrent_states, a.train_recurrent_states
        check((prev is None) == first and (first or same(prev, S.after)) and isinstance(now, Batch) and same(now, Batch(2)),
              'the hidden states before and after this step are kept')
    cover('act')


def stop(mod, cls):
    S = Serial(mod, cls)
    a = S.a
    done = fresh_bool('done')

    def upd():
        S.log.append('update')
        check(len(S.mem.got) == 1, 'the episode is complete before the update')
    a._update_if_dataset_is_ready = upd
    a.stop_episode_and_train(S.obs, S.r, done)
    S.recorded(done)
    check(len(S.mem.got) == 1 and S.mem.got[0] is S.last, 'the episode is closed, once')
    e = a.last_episode
    check(e is not S.last and same(to_seq(e).n, 0), 'the next episode starts empty')
    check(a.last_state is None and a.last_action is None, 'nothing is pending')
    check(S.log.count('update') == 1, 'the update is considered once per step')
    if S.rec:
        check(a.train_prev_recurrent_states is None and a.train_recurrent_states is None, 'the hidden state is cleared at the end of the episode')
    check(a.test_recurrent_states is None, 'so is the evaluation state')
    cover('stop')


# ------------------------------------------------------------------ several environments
class Env(loops.Handle):
    """episode in progress of environment parts[0]"""

    def append(self, tr):
        Q().append(self.parts[0], tr)

    def __pv_len__(self):
        return Q().length(self.parts[0])

    def __pv_bool__(self):
        return Q().length(self.parts[0]) > 0

    def __iter__(self):
        raise Unsupported('iteration over an episode in progress')


def Q():
    return ctx().roots['Q']


class Envs(Obj):
    """the episodes in progress of all environments; environment w is followed"""

    def __init__(self, n, rec, inputs):
        self.n, self.rec = n, rec
        self.w = fresh_int('w', 0)
        assume(self.w < n)
        self.added = self.moved = self.cleared = 0
        self.li = -1                # the environment recorded last
        self._pvghost_in = inputs
        self._pvghost_len = z3.Function(ctx().name_('in_progress'), z3.IntSort(), z3.IntSort())

    def length(self, i):
        t = mk(self._pvghost_len(zint(i)))
        if not ctx().in_quant:
            assume(t >= 0)
        return t + ite(same(i, self.w), self.added, ite(same(i, self.li), 1, 0))

    def append(self, i, tr):
        heap.pure_guard('recording')
        I = self._pvghost_in
        f = {k: v.at(i) for k, v in I.items()}
        check(And(i >= 0, i < self.n), 'a known environment')
        check(And(same(tr['state'], f['state']), same(tr['action'], f['action'])), 'each environment records the observation acted on and its own action')
        check(And(same(tr['reward'], f['reward']), same(tr['next_state'], f['obs'])), 'and the reward and observation that followed in this environment')
        check(same(tr['nonterminal'], ite(f['done'], Fraction(0), Fraction(1))), 'nonterminal is zero exactly if this environment was reported done')
        if self.rec:
            check(And(same(tr['recurrent_state'], RS(0, i)), same(tr['next_recurrent_state'], RS(1, i))), 'the hidden state of this environment before and after its step')
        check(Implies(same(i, self.w), same(self.moved, 0)), 'a step belongs to the episode it ends')
        self.added = self.added + ite(same(i, self.w), 1, 0)
        self.li = i

    def move(self, i):
        heap.pure_guard('closing an episode')
        check(Implies(same(i, self.w), And(same(self.moved, 0), same(self.added, 1))), 'an episode is closed once, after its last step was recorded')
        self.moved = self.moved + ite(same(i, self.w), 1, 0)

    def __getitem__(self, i):
        check(And(i >= 0, i < self.n), 'a known environment')
        return Env(i)

    def __setitem__(self, i, v):
        heap.pure_guard('new episode')
        check(And(i >= 0, i < self.n), 'a known environment')
        check(isinstance(v, PList) and same(v.s.n, 0), 'a new episode starts empty')
        check(Implies(same(i, self.w), And(same(self.moved, 1), same(self.cleared, 0))), 'an episode is only replaced when it was closed')
        self.cleared = self.cleared + ite(same(i, self.w), 1, 0)

    def __pv_len__(self):
        return self.n

    def __pv_bool__(self):
        return self.n > 0

    def __pv_seq__(self):
        return Seq(n=self.n, at=heap.memo_at(lambda i: Env(i)))

    def __iter__(self):
        raise Unsupported('iteration over the episodes in progress')


class Mem(Obj):
    def append(self, ep):
        check(isinstance(ep, Env), 'an episode in progress is closed')
        Q().move(ep.parts[0])


def lists(n, **kinds):
    d = {}
    for k, t in kinds.items():
        nm = ctx().name_(k)
        f = {'obj': lambda i, nm=nm: loops.fresh_of(('obj',), nm, (zint(i),)), 'real': lambda i, nm=nm: loops.fresh_of(('real',), nm, (zint(i),)),
             'bool': lambda i, nm=nm: loops.fresh_of(('bool',), nm, (zint(i),))}[t]
        d[k] = Seq(n=n, at=heap.memo_at(f))
    return d


def observe(mod, cls):
    rec = bool(choose(2))
    a = agent(mod, cls, rec)
    n = fresh_int('n', 1)
    I = lists(n, state='obj', action='obj', reward='real', obs='obj', done='bool', reset='bool')
    q = root('Q', Envs(n, rec, I))
    w = q.w
    a.batch_last_episode = q
    a.batch_last_state, a.batch_last_action = PList(seq=I['state']), PList(seq=I['action'])
    a.memory = Mem()
    if rec:
        a.train_prev_recurrent_states, a.train_recurrent_states = Batch(0), Batch(1)
    end = Or(I['done'].at(w), I['reset'].at(w))
    ready = []

    def upd():
        ready.append(1)
        check(same(q.added, 1), 'the step of every environment is recorded before the update')
    a._update_if_dataset_is_ready = upd

    def inv(L):
        if L.loop.seq is None or 'R.Q.added' not in L.loop.S0:
            return {}
        d = {'added': same(L.get('R.Q.added'), ite(L.k > w, 1, 0))}
        for x in ('moved', 'cleared'):
            d[x] = same(L.get('R.Q.' + x), ite(And(L.k > w, end), 1, 0))
        return d
    ctx().invfuns.append(inv)
    a.batch_observe_and_train(PList(seq=I['obs']), PList(seq=I['reward']), PList(seq=I['done']), PList(seq=I['reset']))
    check(same(q.added, 1), 'every environment records its step exactly once')
    check(same(q.moved, ite(end, 1, 0)), 'an episode is closed exactly when the environment was done or reset')
    check(same(q.cleared, ite(end, 1, 0)), 'and only then a new one is started')
    check(len(ready) == 1, 'the update is considered once per step')
    if rec:
        check(a.train_prev_recurrent_states is None, 'the states before the step are used up')
        masked_ok(a.train_recurrent_states, Batch(1), n, I['done'], I['reset'], w)
    cover('observe')


def eqs(a, b):
    if a is None or b is None:
        return a is b
    return a is b or (isinstance(a, Batch) and isinstance(b, Batch) and a.parts == b.parts)


def masked_ok(s, old, n, done, reset, w):
    """s is old with the states of exactly the environments that were done or reset replaced (environment w followed)"""
    end = Or(done.at(w), reset.at(w))
    if isinstance(s, Masked):
        check(eqs(s.base, old), 'the states after the step are kept for environments that go on')
        idx = to_seq(s.indices)
        j = fresh_int('j', 0)
        if j < idx.n:
            x = idx.at(j)
            check(And(x >= 0, x < n), 'a known environment')
            check(Or(done.at(x), reset.at(x)), 'only states of environments whose episode ended are cleared')
        check(Implies(end, member(idx, w)), 'the state of every environment whose episode ended is cleared')
    else:
        for f in getattr(ctx(), 'filters', []):
            f.complete(w)
        check(eqs(s, old), 'without ended episodes the states are kept')
        check(Not(end), 'the state of every environment whose episode ended is cleared')


def member(s, w):
    """w is kept: by the witness of a filter"""
    f = getattr(s, 'filter', None)
    if f is None:
        return w in PList(seq=s)
    j = f.complete(w)
    return And(j >= 0, j < s.n, same(s.at(j), w))


class FlushEnvs(Envs):
    def move(self, i):
        heap.pure_guard('closing an episode')
        check(self.length(i) > 0, 'only episodes with steps are closed')
        check(Implies(same(i, self.w), same(self.moved, 0)), 'an episode is closed once')
        self.moved = self.moved + ite(same(i, self.w), 1, 0)


class FlushMem(Obj):
    def __init__(self):
        self.last = 0

    def append(self, ep):
        if isinstance(ep, Env):
            return Q().move(ep.parts[0])
        check(ep is ctx().last_episode, 'the episode in progress')
        check(And(same(self.last, 0), heap.pv_len(ep) > 0), 'is closed once, if it has steps')
        self.last = self.last + 1


def flush(mod, cls):
    a = agent(mod, cls, False)
    n = fresh_int('n', 1)
    q = root('Q', FlushEnvs(n, False, {}))
    w = q.w
    L0 = q.length(w)
    batch = bool(choose(2))
    if batch:
        a.batch_last_episode = q
    last = a.last_episode = ctx().last_episode = Last()
    mem = a.memory = root('mem', FlushMem())
    ctx().invfuns.append(lambda L: {x: same(L.get('R.Q.' + x), ite(And(L.k > w, L0 > 0), 1, 0)) for x in ('moved', 'cleared')}
                         if L.loop.seq is not None and 'R.Q.moved' in L.loop.S0 else {})
    a._flush_last_episode()
    if batch:
        check(And(same(q.moved, ite(L0 > 0, 1, 0)), same(q.cleared, q.moved)), 'every non-empty episode in progress is closed and replaced')
        check(a.batch_last_episode is q, 'the environments stay the same')
    check(same(mem.last, ite(last.old > 0, 1, 0)), 'so is that of the serial interface')
    check(a.last_episode is not last if mem.last == 1 else a.last_episode is last, 'and replaced by an empty one')
    if mem.last == 1:
        check(same(to_seq(a.last_episode).n, 0), 'and replaced by an empty one')
    check(a.memory is mem, 'closed episodes stay')
    cover('flush')


class Step(loops.Handle):
    pass


class Whole(loops.Handle):
    """a closed episode"""

    def __pv_seq__(self):
        e, = self.parts
        return Seq(n=whole_len(e), at=heap.memo_at(lambda i: Step(e, i)))

    def __pv_len__(self):
        return whole_len(*self.parts)

    def __pv_bool__(self):
        return True


def whole_len(e):
    t = mk(z3.Function('whole_len', z3.IntSort(), z3.IntSort())(zint(e)))
    if not ctx().in_quant:
        assume(t > 0)
    return t


class Dataset(Obj):
    def __init__(self, n):
        self.n = n

    def __pv_len__(self):
        return self.n


def ready(mod, cls):
    M = W.load(mod)
    a = agent(mod, cls, bool(choose(2)))
    K = fresh_int('episodes', 0)
    mem = a.memory = PList(seq=Seq(n=K, at=heap.memo_at(lambda e: Whole(e))))
    last = a.last_episode = Last()
    n = fresh_int('n', 1)
    q = root('Q', Envs(n, False, {}))
    batch = bool(choose(2))
    if batch:
        a.batch_last_episode = q
    a.update_interval = fresh_int('interval', 1)
    for k in ('phi', 'batch_states', 'gamma', 'lambd', 'max_recurrent_sequence_len'):
        setattr(a, k, fresh_obj(k))
    a.explained_variance = fresh_real('ev')
    size = heap.pv_sum(PList(seq=Seq(n=K, at=heap.memo_at(lambda e: whole_len(e))))) + last.old
    if batch:
        size = size + heap.pv_sum(PList(seq=Seq(n=n, at=heap.memo_at(lambda i: q.length(i)))))
    log = []
    data = Dataset(size)      # p_dataset (C23): the dataset has every transition once
    a._flush_last_episode = lambda: log.append('flush')

    def make(rec):
        def f(**kw):
            check(log == ['flush'], 'episodes in progress are closed first')
            check(rec == a.recurrent, 'the recurrent data set for recurrent models')
            log.append('data')
            check(kw['episodes'] is mem and kw['model'] is a.model and kw['obs_normalizer'] is a.obs_normalizer, 'all collected episodes')
            for k in ('phi', 'batch_states', 'gamma', 'lambd') + (('max_recurrent_sequence_len',) if rec else ()):
                check(same(kw[k], getattr(a, k)), 'as configured')
            return data
        return f
    patch(M, '_make_dataset', make(False))
    patch(M, '_make_dataset_recurrent', make(True))

    def upd(rec):
        def f(dataset):
            check(rec == a.recurrent and dataset is data and log == ['flush', 'data'], 'the update uses the data set')
            log.append('update')
        return f
    a._update, a._update_recurrent = upd(False), upd(True)
    patch(M, '_compute_explained_variance', lambda transitions: fresh_real('ev'))
    a._update_if_dataset_is_ready()
    if size >= a.update_interval:
        check(log == ['flush', 'data', 'update'], 'one update as soon as enough transitions are collected')
        check(a.memory is not mem and same(to_seq(a.memory).n, 0), 'used transitions are dropped')
    else:
        check(log == [], 'no update before that')
        check(a.memory is mem and same(mem.s.n, K), 'nothing is lost')
    check(a.last_episode is last, 'closing is left to the flush')
    cover('ready')


def harnesses(fns):
    out = []
    for f in fns:
        for mod, cls in AGENTS:
            def h(f=f, mod=mod, cls=cls):
                f(mod, cls)
            h.__name__ = 'p_%s_%s' % (f.__name__, cls)
            out.append(h)
    return out
