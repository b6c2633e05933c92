"""C29 Recurrent states are kept per environment and cleared exactly at episode ends."""
from props.lib import *
from fractions import Fraction
from pyvc import models, chmodel, npmodel as N
from props import recording, C22
from props.recording import RS, Batch, Masked, RModel, lists, member, masked_ok, eqs
LEVEL = 'proof'
LEVEL_NOTE = ('agents: any state, number of environments, inputs and flags, an arbitrary environment followed, histories by induction over calls; states of links: any '
              'number of layers, environments and units, any indices; bounded (stated in the harness): containers of at most 3 links, concatenation of at most 3 states '
              'by containers, trees of stateful links of depth 2')
TRUSTED = ['chainer links compute a new state from the state and input they are given (cuDNN and NStep code of chainer are not verified)',
           'models, explorers, replay buffers and updaters are arbitrary apart from their signatures']
ASSUMPTIONS = ['the batch interface is called in the documented order: act, then observe', 'contexts of state_kept and state_reset are left normally (no exception)']


LM = {}


def mods():
    d = chmodel.add(models.base_models())
    L = LM["L"] = d["chainer.links"]
    LM['ch'] = d['chainer']
    base = d['chainer'].Link
    for nm in ('NStepLSTM', 'NStepGRU', 'NStepRNNReLU', 'NStepRNNTanh', 'LSTM', 'Linear'):
        setattr(L, nm, type(nm, (base,), {}))
    d['chainer'].Sequential = type('Sequential', (d['chainer'].ChainList,), {})
    return d


W = world('ch29', models=mods)
AG = 'chainerrl.agents.'
ALL = [(AG + 'dqn', 'DQN'), (AG + 'iqn', 'IQN'), (AG + 'ppo', 'PPO'), (AG + 'trpo', 'TRPO')]


# ---------------------------------------------------------------- acting and evaluating
class Vals(Obj):
    """output of the network of any agent: distributions, values, action values"""

    def __init__(self, n):
        self.n = n

    @property
    def array(self):
        return N.Arr((self.n,), N.memo_nd(lambda *ix: fresh_real('out')), 'f')

    def same_(self, *a, **k):
        return self
    max = greedy_actions = most_probable = entropy = property(same_)
    sample = __call__ = same_

    def __getitem__(self, s):
        return Vals(1)


class Any(Obj):
    """anything of no relevance to hidden states"""

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        return self


def an_agent(mod, cls, n):
    a = C22.new_agent(mod, cls, True) if cls in ('DQN', 'IQN') else recording.agent(mod, cls, True)
    a.phi = fresh_obj('phi')
    a.xp = N.NP
    a.batch_states = lambda states, xp, phi: fresh_obj('features')
    a.act_deterministically = bool(choose(2))
    a.average_q, a.average_q_decay = fresh_real('q'), fresh_real('decay')
    a.logger = C22.Quiet()
    a.quantile_thresholds_K = 2
    a.xp = Any() if cls == 'IQN' else N.NP
    a.entropy_record, a.value_record = PList([]), PList([])

    class Explorer(Obj):
        def select_action(self, t, greedy_action_func, action_value=None):
            return fresh_obj('action')
    a.explorer = Explorer()
    a.replay_buffer = C22.Buffer()
    a.replay_updater = Obj(update_if_necessary=lambda t: None)
    a.sync_target_network = lambda: None
    a._update_if_dataset_is_ready = lambda: None
    a.last_state = a.last_action = None
    a.calls = ()
    return a


def a_step(mod, cls, how):
    """one step of acting: the model continues from the right state, and only that state is replaced"""
    test = how in ('act', 'batch_act')
    n = fresh_int('n', 1) if how.startswith('batch') else 1
    a = an_agent(mod, cls, n)
    begin = bool(choose(2))
    tr, te = (None, None) if begin else (Batch(0), Batch(10))
    a.train_recurrent_states, a.test_recurrent_states = tr, te
    pending = Batch(5) if test and bool(choose(2)) else None        # evaluation may happen between act and observe
    a.train_prev_recurrent_states = pending
    calls = []
    new = Batch(1)

    def model(pair):
        class Model(RModel):
            def __call__(self, x, *st):
                calls.append(st)
                o = Vals(n)
                return (((o, o) if pair else o), new)
        return Model()
    a.model = model(cls in ('PPO', 'TRPO'))
    a.policy = model(False)
    if cls in ('PPO', 'TRPO') and how == 'batch_act_and_train':
        a.batch_last_episode = PList([])
        a._initialize_batch_variables = lambda k: None
        a.batch_last_episode = a.batch_last_state = a.batch_last_action = Sized(n)
    if how.startswith('batch'):
        obs = PList(seq=lists(n, obs='obj')['obs'])
        getattr(a, how)(obs)
    elif test:
        a.act(fresh_obj('obs'))
    else:
        a.act_and_train(fresh_obj('obs'), fresh_real('r'))
    check(len(calls) == 1 and len(calls[0]) == 1, 'the model is evaluated once, with a state')
    want = te if test else tr
    check(eqs(calls[0][0], want), 'the model continues from the state after the previous step of the same kind')
    if test:
        check(eqs(a.test_recurrent_states, new), 'the evaluation state goes on')
        check(eqs(a.train_recurrent_states, tr) and eqs(a.train_prev_recurrent_states, pending), 'evaluation leaves the training states alone')
    else:
        check(eqs(a.train_recurrent_states, new) and eqs(a.train_prev_recurrent_states, tr), 'the states before and after this step are kept')
        check(eqs(a.test_recurrent_states, te), 'training leaves the evaluation state alone')
    cover('step')


class Sized(Obj):
    def __init__(self, n):
        self.n = n

    def __pv_len__(self):
        return self.n

    def __pv_bool__(self):
        return True


def stop_eval(mod, cls):
    """end of an evaluation episode"""
    a = an_agent(mod, cls, 1)
    tr, pv = Batch(0), Batch(5) if choose(2) else None
    a.train_recurrent_states, a.train_prev_recurrent_states, a.test_recurrent_states = tr, pv, Batch(10)
    a.stop_episode()
    check(a.test_recurrent_states is None, 'the evaluation state is cleared at the end of the episode')
    check(a.train_recurrent_states is tr and a.train_prev_recurrent_states is pv, 'evaluation leaves the training states alone')
    cover('stop')


def observe_eval(mod, cls):
    """after a step of batch evaluation"""
    n = fresh_int('n', 1)
    a = an_agent(mod, cls, n)
    a.model = RModel()
    tr, pv, te = Batch(0), Batch(5) if choose(2) else None, Batch(10)
    a.train_recurrent_states, a.train_prev_recurrent_states, a.test_recurrent_states = tr, pv, te
    I = lists(n, reward='real', obs='obj', done='bool', reset='bool')
    w = fresh_int('w', 0)
    assume(w < n)
    a.batch_observe(PList(seq=I['obs']), PList(seq=I['reward']), PList(seq=I['done']), PList(seq=I['reset']))
    masked_ok(a.test_recurrent_states, te, n, I['done'], I['reset'], w)
    check(a.train_recurrent_states is tr and a.train_prev_recurrent_states is pv, 'evaluation leaves the training states alone')
    cover('observe')


# ---------------------------------------------------------------- batched states of single links
KINDS = ('NStepLSTM', 'NStepGRU', 'NStepRNNReLU', 'NStepRNNTanh')


def a_link(kind):
    k = getattr(LM["L"], kind)()
    k.n_layers, k.out_size = fresh_int('layers', 1), fresh_int('units', 1)
    return k


def a_state(k, sh, n=2, var=True):
    """the arrays of a state of link k (hidden and, for LSTM, cell state)"""
    out = []
    for nm in ('h', 'c')[:n]:
        f = z3.Function(ctx().name_(nm), *([z3.IntSort()] * len(sh) + [z3.RealSort()]))
        x = N.Arr(sh, lambda *ix, f=f: mk(f(*[zint(i) for i in ix])), 'f')
        out.append(chmodel.Var(x) if var else x)
    return out


def pack(xs):
    return tuple(xs) if len(xs) == 2 else xs[0]


def parts(s, lstm):
    """arrays of a state"""
    if lstm:
        check(isinstance(s, tuple) and len(s) == 2, 'a state of an LSTM is a pair (hidden, cell)')
        return [chmodel.as_arr(x) for x in s]
    return [chmodel.as_arr(s)]


def p_mask():
    """mask_recurrent_state_at: exactly the given environments get the initial state"""
    M = W.load('chainerrl.links.stateless_recurrent')
    kind = KINDS[choose(4)]
    lstm = kind == 'NStepLSTM'
    k = a_link(kind)
    b = fresh_int('b', 1)
    xs = a_state(k, (k.n_layers, b, k.out_size), 2 if lstm else 1)
    l, i, o = fresh_int('l', 0), fresh_int('i', 0), fresh_int('o', 0)
    assume(And(l < k.n_layers, i < b, o < k.out_size))
    old = [x.array.at(l, i, o) for x in xs]
    single = bool(choose(2))
    if single:
        idx = fresh_int('index', 0)
        assume(idx < b)
    else:
        m = fresh_int('m', 0)
        sq = Seq(n=m, at=heap.memo_at(lambda j: bounded_int('index', j, b)))
        idx = PList(seq=sq)
    r = parts(M.mask_recurrent_state_at(k, pack(xs), idx), lstm)
    check(M.mask_recurrent_state_at(k, None, idx) is None, 'the initial state stays the initial state')
    for x, y, z in zip(xs, r, old):
        check(And([same(p, q) for p, q in zip(y.shape, (k.n_layers, b, k.out_size))]), 'the shape of the state is kept')
        v = y.at(l, i, o)
        if single:
            check(same(v, ite(same(i, idx), Fraction(0), z)), 'the given environment is cleared, others are untouched')
        else:
            j = fresh_int('j', 0)
            assume(j < m)
            for mb in ctx().members:
                mb.complete(j)
            check(Implies(same(i, sq.at(j)), same(v, Fraction(0))), 'given environments are cleared')
            mb = ctx().members[0]
            wit = mk(mb._wit(zint(i)))
            check(Or(same(v, z), And(wit >= 0, wit < m, same(sq.at(wit), i))), 'others are untouched')
        check(same(x.array.at(l, i, o), z), 'the old state is left alone')
    cover('mask')


def bounded_int(nm, j, b):
    t = mk(z3.Function(nm, z3.IntSort(), z3.IntSort())(zint(j)))
    if not ctx().in_quant:
        assume(And(t >= 0, t < b))
    return t


def p_get():
    """get_recurrent_state_at: the state of exactly that environment"""
    M = W.load('chainerrl.links.stateless_recurrent')
    kind = KINDS[choose(4)]
    lstm = kind == 'NStepLSTM'
    k = a_link(kind)
    b = fresh_int('b', 1)
    xs = a_state(k, (k.n_layers, b, k.out_size), 2 if lstm else 1)
    l, i, o = fresh_int('l', 0), fresh_int('i', 0), fresh_int('o', 0)
    assume(And(l < k.n_layers, i < b, o < k.out_size))
    unwrap = bool(choose(2))
    s = M.get_recurrent_state_at(k, pack(xs), i, unwrap)
    r = parts(s, lstm)
    check(M.get_recurrent_state_at(k, None, i, unwrap) is None, 'the initial state stays the initial state')
    for raw in (s if lstm else [s]):
        check(isinstance(raw, N.Arr) == unwrap, 'arrays exactly if asked for')
    for x, y in zip(xs, r):
        check(len(y.shape) == 2 and And(same(y.shape[0], k.n_layers), same(y.shape[1], k.out_size)), 'one environment, all layers')
        check(same(y.at(l, o), x.array.at(l, i, o)), 'the state of that environment')
    cover('get')


def p_concatenate():
    """concatenate_recurrent_states: state i of the batch is the i-th state given, the initial state being zero"""
    M = W.load('chainerrl.links.stateless_recurrent')
    kind = KINDS[choose(4)]
    lstm = kind == 'NStepLSTM'
    k = a_link(kind)
    n = fresh_int('n', 1)
    xs = []
    for nm in ('h', 'c')[:2 if lstm else 1]:
        xs.append(z3.Function(ctx().name_(nm), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort()))
    init = ctx().name_('initial')

    def elem(i):
        out = []
        for f in xs:
            out.append(N.Arr((k.n_layers, k.out_size), lambda l, o, f=f: mk(f(zint(i), zint(l), zint(o))), 'f'))
        return pack(out)

    def none(i):
        return mk(z3.Function(init, z3.IntSort(), z3.BoolSort())(zint(i)))
    l, i, o = fresh_int('l', 0), fresh_int('i', 0), fresh_int('o', 0)
    assume(And(l < k.n_layers, i < n, o < k.out_size))

    def inv(L):
        d = {}
        for nm, v in L.loop.frame0.items():
            e = L.loop.S0.get('L.%s.s' % nm) if isinstance(v, PList) else None
            if e is None or e.items != ():
                continue
            s = L.get('L.%s.s' % nm)
            d[nm + ' length'] = same(s.n, L.k)
            a = s.at(i)
            if isinstance(a, N.Arr):
                d[nm + ' axes'] = len(a.shape) == 3
                if len(a.shape) == 3:
                    d[nm + ' shape'] = Implies(i < L.k, And(same(a.shape[0], k.n_layers), same(a.shape[1], 1), same(a.shape[2], k.out_size)))
                    for q, f in enumerate(xs):
                        d['%s holds %d' % (nm, q)] = Implies(i < L.k, same(a.at(l, 0, o), ite(none(i), Fraction(0), mk(f(zint(i), zint(l), zint(o))))))
        return d
    ctx().invfuns.append(inv)
    r = parts(M.concatenate_recurrent_states(k, PList(seq=Seq(n=n, at=heap.memo_at(lambda i: None if none(i) else elem(i))))), lstm)
    for f, y in zip(xs, r):
        check(len(y.shape) == 3 and And(same(y.shape[0], k.n_layers), same(y.shape[1], n), same(y.shape[2], k.out_size)), 'one row per state')
        check(same(y.at(l, i, o), ite(none(i), Fraction(0), mk(f(zint(i), zint(l), zint(o))))), 'each state keeps its place')
    cover('concatenate')


def p_concatenate_small():
    """the same for up to 3 states, each initial, of one environment (2 axes) or already with a batch axis"""
    M = W.load('chainerrl.links.stateless_recurrent')
    kind = KINDS[choose(4)]
    lstm = kind == 'NStepLSTM'
    k = a_link(kind)
    n = 1 + choose(3)
    ss, want = [], []
    for i in range(n):
        c = choose(3)
        if c == 0:
            ss.append(None)
            want.append((1, None))
        else:
            d = 1 if c == 1 else fresh_int('batch', 1)
            sh = (k.n_layers, k.out_size) if c == 1 else (k.n_layers, d, k.out_size)
            x = a_state(k, sh, 2 if lstm else 1, var=False)
            ss.append(pack(x))
            want.append((d, [(lambda l, j, o, y=y, c=c: y.at(l, o) if c == 1 else y.at(l, j, o)) for y in x]))
    r = parts(M.concatenate_recurrent_states(k, PList(ss)), lstm)
    l, o = fresh_int('l', 0), fresh_int('o', 0)
    assume(And(l < k.n_layers, o < k.out_size))
    off = 0
    for d, w in want:
        j = fresh_int('j', 0)
        assume(j < d)
        for q, y in enumerate(r):
            check(same(y.at(l, off + j, o), Fraction(0) if w is None else w[q](l, j, o)), 'each state keeps its place')
        off = off + d
    for y in r:
        check(And(same(y.shape[0], k.n_layers), same(y.shape[1], off), same(y.shape[2], k.out_size)), 'one row per state')
    cover('concatenate')


p_concatenate_small.bounded = 'at most 3 states'


# ---------------------------------------------------------------- containers
class Piece(loops.Handle):
    """what a callee made of its arguments"""


def p_call():
    """call_recurrent_link: every kind of link is given its own state and sequences, and its new state is returned"""
    M = W.load('chainerrl.links.stateless_recurrent')
    mode = {0: 'split', 1: 'concat'}[choose(2)]
    k = choose(5)
    h, c, h2, c2 = (fresh_obj(x) for x in ('h', 'c', 'h2', 'c2'))
    xs, ys, yc = PList([fresh_obj('x')]), PList([fresh_obj('y')]), fresh_obj('concatenated')
    init = bool(choose(2))
    calls = []

    def cat(s):
        check(s is ys, 'the output sequences are concatenated')
        return yc
    patch(M, 'concatenate_sequences', cat)
    if k < 4:
        base = getattr(LM['L'], KINDS[k])
        if k == 0:
            def f(s, hx, cx, x):
                calls.append((hx, cx))
                check(x is xs, 'the sequences given')
                return h2, c2, ys
            st, want, new = (h, c), ((None, None) if init else (h, c)), (h2, c2)
        else:
            def f(s, hx, x):
                calls.append((hx,))
                check(x is xs, 'the sequences given')
                return h2, ys
            st, want, new = h, ((None,) if init else (h,)), (h2,)
        link = type('Lk', (base,), {'__call__': f})()
    else:
        def f(s, x, state, output_mode):
            calls.append((state,))
            check(x is xs and output_mode == mode, 'the sequences and mode given')
            return (ys if mode == 'split' else yc), h2
        link = type('Lk', (M.StatelessRecurrent, LM['ch'].Link), {'n_step_forward': f})()
        st, want, new = h, ((None,) if init else (h,)), (h2,)
    y, s2 = M.call_recurrent_link(link, xs, None if init else st, mode)
    check(len(calls) == 1, 'the link is evaluated once')
    for a, b in zip(calls[0], want):
        check(a is None if b is None else (a is not None and same(a, b)), 'with its own state')
    s2 = s2 if k == 0 else (s2,)
    check(len(s2) == len(new) and And([same(a, b) for a, b in zip(s2, new)]), 'its new state is returned')
    check(y is ys if mode == 'split' else same(y, yc), 'the output is split or concatenated as asked')
    check(M.is_recurrent_link(link) is True, 'the link is known to be recurrent')
    cover('call')


STATEFUL = [(AG + 'a3c', 'A3C', ('model',)), (AG + 'acer', 'ACER', ('model', 'shared_average_model')), (AG + 'nsq', 'NSQ', ('q_function', 'target_q_function')),
            (AG + 'pcl', 'PCL', ('model',)), (AG + 'reinforce', 'REINFORCE', ('model',)), (AG + 'ddpg', 'DDPG', ('model',)), (AG + 'pgt', 'PGT', ('model',))]


def stop_stateful(mod, cls, names):
    """agents with stateful models: stop_episode clears the state"""
    R = W.load('chainerrl.recurrent')
    C = getattr(W.load(mod), cls)
    a = C.__new__(C)
    ms = {}

    class M(R.Recurrent):
        def __init__(self):
            self.s = fresh_obj('state')

        def get_state(self):
            return self.s

        def set_state(self, s):
            self.s = s

        def reset_state(self):
            self.s = None
    for x in names:
        ms[x] = M()
        setattr(a, x, ms[x])
    if cls == 'NSQ':
        a.shared_q_function = M()
    if cls in ('DDPG', 'PGT'):
        a.last_state, a.last_action = (None, None) if choose(2) else (fresh_obj('obs'), fresh_obj('action'))
        a.replay_buffer = C22.Buffer()
    a.stop_episode()
    for x in names:
        check(ms[x].s is None, 'the state is cleared at the end of the episode')
        check(getattr(a, x) is ms[x], 'the model stays')
    cover('stop')


def p_of_links():
    """mask/get of the states of any number of links: link by link"""
    M = W.load('chainerrl.links.stateless_recurrent')
    n = fresh_int('links', 0)
    ll = lists(n, link='obj', state='obj')
    links, states = PList(seq=ll['link']), PList(seq=ll['state'])
    idx, unwrap = fresh_obj('indices'), fresh_obj('unwrap')
    w = fresh_int('w', 0)
    assume(w < n)
    if choose(2):
        patch(M, 'mask_recurrent_state_at', lambda link, rs, ix: (check(same(ix, idx), 'the indices given'), Piece(link, rs))[1])
        f = lambda st: M.mask_recurrent_states_of_links_at(links, st, idx)
        empty = None
    else:
        patch(M, 'get_recurrent_state_at', lambda link, rs, ix, u: (check(And(same(ix, idx), same(u, unwrap)), 'the indices given'), Piece(link, rs))[1])
        f = lambda st: M.get_recurrent_states_of_links_at(links, st, idx, unwrap)
        empty = 1
    r = to_seq(f(states))
    check(And(same(r.n, n), same(r.at(w), Piece(ll['link'].at(w), ll['state'].at(w)))), 'the state of each link')
    e = f(None)
    if empty is None:
        check(e is None, 'the initial state stays the initial state')
    else:
        check(e is None or And(same(to_seq(e).n, n), to_seq(e).at(w) is None), 'the initial state is that of every link')
    cover('links')


def p_concatenate_of_links():
    """concatenation of states of up to 3 links over up to 3 environments"""
    M = W.load('chainerrl.links.stateless_recurrent')
    n, b = 1 + choose(3), 1 + choose(3)
    links = tuple(fresh_obj('link') for _ in range(n))
    given = [None if choose(2) else tuple(fresh_obj('state') for _ in range(n)) for _ in range(b)]
    keep = PList(list(given))
    calls = []

    def one(link, srs):
        calls.append((link, list(heap.iter_native(srs))))
        return Piece(len(calls))
    patch(M, 'concatenate_recurrent_states', one)
    r = list(heap.iter_native(M.concatenate_recurrent_states_of_links(links, keep)))
    check(len(r) == n and len(calls) == n, 'one state per link')
    for k in range(n):
        j = [x for x in range(n) if r[k].parts == (x + 1,)][0]
        check(same(calls[j][0], links[k]), 'in the order of the links')
        check(len(calls[j][1]) == b, 'of all environments')
        for e in range(b):
            x = calls[j][1][e]
            check(x is None if given[e] is None else (x is not None and same(x, given[e][k])), 'each environment keeps its place')
    check([x is y for x, y in zip(heap.iter_native(keep), given)] == [True] * b, 'the states given are left alone')
    cover('links')


p_concatenate_of_links.bounded = 'at most 3 links and 3 environments'


def containers():
    M = W.load('chainerrl.links.stateless_recurrent')
    Sq = W.load('chainerrl.links.stateless_recurrent_sequential')
    Br = W.load('chainerrl.links.stateless_recurrent_branched')
    return M, Sq, Br


def p_sequential():
    """n_step_forward of up to 3 layers: every recurrent layer gets and returns its own state"""
    M, Sq, Br = containers()
    n = 1 + choose(3)
    Rec = LM['L'].NStepGRU
    layers, rec = [], []
    for k in range(n):
        if choose(2):
            x = Rec()
            rec.append(x)
        else:
            def x(*h, k=k):
                return Flat('layer', k, *h)
        layers.append(x)
    S = Sq.StatelessRecurrentSequential
    m = S.__new__(S)
    m._layers = PList(layers)
    seen = []
    mode = {0: 'split', 1: 'concat'}[choose(2)]

    def call(link, sequences, state, output_mode):
        check(output_mode == 'split' or output_mode == 'concat', 'a known mode')
        check(isinstance(sequences, (PList, list)), 'a recurrent layer is given sequences')
        seen.append((link, state))
        h = join(sequences)
        out = Flat('rec', layers.index(link), h)
        return (split(out) if output_mode == 'split' else out), Piece(len(seen))
    for X in (M, Sq):
        patch(X, 'call_recurrent_link', call)
        patch(X, 'concatenate_sequences', join)
        patch(X, 'split_batched_sequences', lambda h, sections: (check([int(x) for x in heap.iter_native(sections)] == [2], 'at the starts of the sequences'), split(h))[1])
    given = None if choose(2) else tuple(fresh_obj('state') for _ in rec)
    y, st = m.n_step_forward(split(Flat('input')), given, mode)
    st = list(heap.iter_native(st))
    check(len(seen) == len(rec) and len(st) == len(rec), 'every recurrent layer is evaluated once')
    for k, x in enumerate(rec):
        check(seen[k][0] is x, 'in order')
        check(seen[k][1] is None if given is None else same(seen[k][1], given[k]), 'with its own state')
        check(same(st[k], Piece(k + 1)), 'and its new state is returned in its place')
    want = Flat('input')
    for k, x in enumerate(layers):
        want = Flat('rec', k, want) if x in rec else Flat('layer', k, want)
    check(isinstance(y, (PList, list)) == (mode == 'split'), 'the output is split or concatenated as asked')
    check((join(y) if mode == 'split' else y) == want, 'the layers are applied in order')
    rc = list(heap.iter_native(m.recurrent_children))
    check(len(rc) == len(rec) and all(a is b for a, b in zip(rc, rec)), 'recurrent layers in order of evaluation')
    cover('sequential')


p_sequential.bounded = 'at most 3 layers, 2 sequences'


class Flat(Obj):
    """concatenated batch: a term"""

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Flat) and self.t == o.t

    def __hash__(self):
        return hash(self.t)


class Sub(Obj):
    def __init__(self, of, i):
        self.of, self.i = of, i

    def __pv_len__(self):
        return 2 + self.i


def split(h):
    return PList([Sub(h, 0), Sub(h, 1)])


def join(xs):
    xs = list(heap.iter_native(xs))
    check(len(xs) == 2 and all(isinstance(x, Sub) for x in xs) and xs[0].of == xs[1].of and [x.i for x in xs] == [0, 1], 'all sequences in order')
    return xs[0].of


def p_branched():
    """n_step_forward of up to 3 branches: every branch gets and returns its own state"""
    M, Sq, Br = containers()
    n = 1 + choose(3)
    links = [LM['L'].NStepGRU() for _ in range(n)]
    S = Br.StatelessRecurrentBranched
    S2 = type('Branched_', (S,), {'__iter__': lambda s: iter(links), '__len__': lambda s: n, '__pv_len__': lambda s: n, '__pv_seq__': lambda s: heap.to_seq(PList(links)),
                                  'children': lambda s: iter(links)})
    m = S2.__new__(S2)
    mode = {0: 'split', 1: 'concat'}[choose(2)]
    xs = split(Flat('input'))
    seen = []

    def call(link, sequences, state, output_mode):
        check(sequences is xs, 'every branch gets the input')
        seen.append((link, state))
        out = Flat('rec', links.index(link))
        return (split(out) if output_mode == 'split' else out), Piece(links.index(link))
    for X in (M, Br):
        patch(X, 'call_recurrent_link', call)
    given = None if choose(2) else tuple(fresh_obj('state') for _ in links)
    y, st = m.n_step_forward(xs, given, mode)
    y, st = list(heap.iter_native(y)), list(heap.iter_native(st))
    check(len(seen) == n and len(st) == n, 'every branch is evaluated once')
    for k, x in enumerate(links):
        s = [b for a, b in seen if a is x]
        check(len(s) == 1 and (s[0] is None if given is None else same(s[0], given[k])), 'with its own state')
        check(same(st[k], Piece(k)), 'and its new state is returned in its place')
    if mode == 'concat':
        check(len(y) == n and all(y[k] == Flat('rec', k) for k in range(n)), 'one output per branch')
    else:
        check(len(y) == 2, 'one output per sequence')
        for i in range(2):
            o = list(heap.iter_native(y[i]))
            check(len(o) == n and all(o[k].of == Flat('rec', k) and o[k].i == i for k in range(n)), 'with all branches')
    cover('branched')


p_branched.bounded = 'at most 3 branches, 2 sequences'


# ---------------------------------------------------------------- stateful models
class Cell(Obj):
    pass


def tree():
    """a model: up to 2 children, each an LSTM, a recurrent link of its own kind, a link without state, or a chain of 1 of them"""
    R = W.load('chainerrl.recurrent')
    leaves = []

    class Custom(R.Recurrent):
        def __init__(self):
            self.s = fresh_obj('custom')
            leaves.append(self)

        def get_state(self):
            return self.s

        def set_state(self, s):
            self.s = s

        def reset_state(self):
            self.s = None

        def now(self):
            return (self.s,)

        def evolve(self):
            self.s = fresh_obj('custom')

    class LSTM(LM['L'].LSTM):
        def __init__(self):
            self.c = self.h = None
            if choose(2):
                self.evolve()
            leaves.append(self)

        def evolve(self):
            self.c, self.h = chmodel.Var(N.full((1,), fresh_real('c'))), chmodel.Var(N.full((1,), fresh_real('h')))

        def set_state(self, c, h):
            check(c is not None and h is not None and isinstance(c, chmodel.Var) and isinstance(h, chmodel.Var), 'only arrays can be set as the state of an LSTM')
            self.c, self.h = c, h

        def reset_state(self):
            self.c = self.h = None

        def now(self):
            return (self.c, self.h)

    def node(depth):
        k = choose(4 if depth else 3)
        if k == 0:
            return LSTM()
        if k == 1:
            return Custom()
        if k == 2:
            return LM['L'].Linear()
        c = LM['ch'].Chain()
        x = node(0)
        c.children = lambda: iter([x])
        return c
    kids = [node(1) for _ in range(1 + choose(2))]
    cls = type('Model', (LM['ch'].Chain, R.RecurrentChainMixin), {})
    m = cls.__new__(cls)
    m.children = lambda: iter(kids)
    return R, m, leaves


def same_state(a, b):
    return all(len(x) == len(y) and all(p is q for p, q in zip(x, y)) for x, y in zip(a, b))


def p_state_kept():
    """state_kept and state_reset bring back the state before, whatever happens inside"""
    R, m, leaves = tree()
    before = [x.now() for x in leaves]
    reset = bool(choose(2))
    with (R.state_reset if reset else R.state_kept)(m):
        if reset:
            check(all(v is None for x in leaves for v in x.now()), 'the model starts from the initial state')
        else:
            check(same_state([x.now() for x in leaves], before), 'the state goes on')
        for x in leaves:
            x.evolve()
        if choose(2):
            mid = [x.now() for x in leaves]
            with R.state_reset(m):
                for x in leaves:
                    x.evolve()
            check(same_state([x.now() for x in leaves], mid), 'nested contexts bring back their own state')
    check(same_state([x.now() for x in leaves], before), 'the state before is brought back exactly')
    m.reset_state()
    check(all(v is None for x in leaves for v in x.now()), 'the initial state')
    cover('kept')


p_state_kept.bounded = 'models of at most 2 children and depth 2'


def p_unchain():
    """unchain_backward cuts the history of every part of the state"""
    R, m, leaves = tree()
    cut = []

    class V(chmodel.Var):
        def unchain_backward(self):
            cut.append(self)
    for x in leaves:
        if hasattr(x, 'c'):
            if x.c is not None:
                x.c, x.h = V(N.zeros((1,))), V(N.zeros((1,)))
        else:
            x.s = V(N.zeros((1,)))
    before = [x.now() for x in leaves]
    m.unchain_backward()
    check(all(any(v is y for y in cut) for x in leaves for v in x.now() if v is not None), 'the state no longer depends on the past')
    check(same_state([x.now() for x in leaves], before), 'the state itself is kept')
    cover('unchain')


p_unchain.bounded = 'models of at most 2 children and depth 2'


def harnesses():
    out = []

    def add(nm, f, *a):
        def h():
            f(*a)
        h.__name__ = 'p_' + nm
        out.append(h)
    for mod, cls in ALL:
        for how in ('act', 'act_and_train', 'batch_act', 'batch_act_and_train'):
            add('step_%s_%s' % (how, cls), a_step, mod, cls, how)
        add('stop_episode_' + cls, stop_eval, mod, cls)
        add('batch_observe_' + cls, observe_eval, mod, cls)
    for mod, cls, names in STATEFUL:
        add('stop_episode_' + cls, stop_stateful, mod, cls, names)
    for f in (C22.act, C22.stop, C22.observe, C22.batch_act):
        add('record_%s_DQN' % f.__name__, f, *ALL[0])
    return out


PROOFS = [p_mask, p_get, p_concatenate, p_concatenate_small, p_call, p_of_links, p_concatenate_of_links, p_sequential, p_branched, p_state_kept, p_unchain] + harnesses() + recording.harnesses([recording.act, recording.stop, recording.observe])


# ---------------------------------------------------------------- concrete companion
def _quiet():
    import warnings
    warnings.simplefilter('ignore')
    import chainer
    chainer.config.use_ideep = 'never'


def _rec_link(L, kind, i, o, layers=1):
    return getattr(L, kind)(layers, i, o, 0)


def _noise(link, np):
    for p in link.params():
        if p.array is not None:
            p.array[...] = np.random.normal(size=p.array.shape)


def flatten(s, np):
    """all arrays of a state, None standing for the initial state"""
    if s is None:
        return None
    if isinstance(s, (tuple, list)):
        out = []
        for x in s:
            f = flatten(x, np)
            if f is None:
                out.append(None)
            else:
                out += f
        return out
    return [np.asarray(getattr(s, 'array', s))]


def state_eq(a, b, np, tol=1e-4):
    """equal states; the initial state is zero"""
    a, b = flatten(a, np), flatten(b, np)

    def zero(x):
        return x is None or all(y is None or not np.any(y) for y in x)
    if a is None or b is None or len(a) != len(b) or any(x is None for x in a + b):
        if zero(a) and zero(b):
            return True
        if a is None or b is None or len(a) != len(b):
            return False
    for x, y in zip(a, b):
        if x is None or y is None:
            if not zero([x]) or not zero([y]):
                return False
        elif x.size != y.size or not np.allclose(x.reshape(-1), y.reshape(-1), atol=tol, rtol=tol):
            return False
    return True


def gen_act(rng):
    n = rng.choice([0, 0, 1, 2, 3])
    T = rng.randint(2, 9)
    return dict(cls=rng.choice(['DQN', 'DoubleDQN', 'IQN', 'PPO', 'TRPO', 'CategoricalDQN']), kind=rng.choice(KINDS), n=n, two=rng.random() < .4, layers=rng.choice([1, 1, 2]),
                steps=[[[round(rng.uniform(-1, 1), 2), rng.random() < .2, rng.random() < .2] for _ in range(max(n, 1))] for _ in range(T)],
                evals=[[[rng.random() < .2, rng.random() < .2] for _ in range(max(n, 1))] if rng.random() < .5 else None for _ in range(T)],
                up=rng.choice([0, 0, 1, 2]), seed=rng.randrange(1000), det=rng.random() < .5)


def run_act(c):
    """acting, evaluating and recording of agents with stateless recurrent models, against one model unrolled per environment"""
    import numpy as np
    _quiet()
    import random as rnd
    import chainer
    import chainer.links as L
    import chainer.functions as F
    from chainerrl import agents, action_value, links, replay_buffer, explorers, policies
    from chainerrl.agents import ppo, trpo, iqn
    from chainerrl import q_functions
    np.random.seed(c['seed'])
    rnd.seed(c['seed'])
    H, NA = 3, 3
    seen = [None]
    cls = c['cls']

    def cap(h):
        seen[0] = h.array.copy()
        return h

    def body(tail):
        rec = [_rec_link(L, c['kind'], 2, H, c['layers'])]
        if c['two']:
            rec += [L.Linear(H, 2), _rec_link(L, 'NStepGRU', 2, H)]
        return links.StatelessRecurrentSequential(*(rec + tail))
    n = max(c['n'], 1)
    big = 10 ** 6
    rb = None
    if cls in ('PPO', 'TRPO'):
        pi, v = body([cap, policies.FCSoftmaxPolicy(H, NA, n_hidden_layers=0)]), body([L.Linear(H, 1)])
        kw = dict(gamma=.9, lambd=.9, phi=lambda x: x, update_interval=2 * c['up'] or big, recurrent=True)
        opt = chainer.optimizers.SGD(0)
        for x in (pi, v):
            _noise(x, np)
        if cls == 'PPO':
            model = links.StatelessRecurrentBranched(pi, v)
            opt.setup(model)
            A = ppo.PPO(model, opt, minibatch_size=2 * c['up'] or 2, epochs=1, **kw)
        else:
            opt.setup(v)
            A = trpo.TRPO(pi, v, opt, **kw)
            model = A.model
        A.act_deterministically = c['det']
        A._update = A._update_recurrent = lambda dataset: None
        done_eps = []
        o_ready = A._update_if_dataset_is_ready

        def ready():
            for e in A.memory + [A.last_episode] + list(A.batch_last_episode or []):
                if not any(e is x for x in done_eps):
                    done_eps.append(e)
            o_ready()
        A._update_if_dataset_is_ready = ready
        net, out = model, lambda st, xs: None
        probe = pi
        if c['up'] == 0:
            net = model
    else:
        if cls == 'IQN':
            psi = body([cap])
            model = iqn.StatelessRecurrentImplicitQuantileQFunction(psi=psi, phi=chainer.Sequential(iqn.CosineBasisLinear(4, H), F.relu), f=L.Linear(H, NA))
            probe = psi
        elif cls == 'CategoricalDQN':
            z = np.linspace(-1, 1, 4, dtype='f')
            
            def head(h):
                return action_value.DistributionalDiscreteActionValue(F.softmax(F.reshape(h, (-1, NA, 4)), axis=2), z)
            model = body([cap, L.Linear(H, NA * 4), head])
            probe = model
        else:
            model = body([cap, L.Linear(H, NA), action_value.DiscreteActionValue])
            probe = model
        _noise(model, np)
        net = model
        opt = chainer.optimizers.SGD(0)
        opt.setup(model)
        rb = replay_buffer.EpisodicReplayBuffer(2 * big)
        rec = []
        o_app = rb.append

        def app(*a, **k):
            rec.append(k)
            return o_app(*a, **k)
        rb.append = app
        A = getattr(agents, cls)(model, opt, rb, .9, explorers.ConstantEpsilonGreedy(.3, lambda: np.random.randint(NA)), replay_start_size=1 if c['up'] else big,
                                 minibatch_size=1, update_interval=c['up'] or 1, target_update_interval=3, recurrent=True, phi=lambda x: x, episodic_update_len=None)

    uid = [0]

    def new_obs():
        uid[0] += 1
        return np.asarray([uid[0] * .01, np.random.normal()], 'f')

    def unroll(m, obss):
        """output fed to the heads and state after each prefix of an episode"""
        st, outs, sts = None, [], [None]
        keep = seen[0]
        with chainer.using_config('train', False), chainer.no_backprop_mode():
            for o in obss:
                seen[0] = None
                _, st = m.n_step_forward([o[None]], st, output_mode='concat')
                outs.append(None if seen[0] is None else seen[0][0])
                sts.append(st)
        seen[0] = keep
        return outs, sts
    hist = [[] for _ in range(n)]           # observations of the episode in progress
    ehist = [[] for _ in range(n)]
    where = {}                              # uid of state -> (episode so far)

    def check_out(hs, what):
        got = seen[0]
        if got is None or len(got) != len(hs):
            return '%s: the model was not evaluated on this step' % what
        for i, h in enumerate(hs):
            want = unroll(probe, h)[0][-1]
            if not np.allclose(got[i], want, atol=1e-4, rtol=1e-4):
                return '%s: environment %d gets %s from the model, its own history of %d steps gives %s' % (what, i, got[i], len(h), want)
        return None
    obs = [new_obs() for _ in range(n)]
    r = 0.
    single = cls == 'TRPO' and c['n'] == 0
    for t, row in enumerate(c['steps']):
        what = '%s step %d' % (cls, t)
        for i in range(n):
            hist[i].append(obs[i])
            where[round(float(obs[i][0]) * 100)] = list(hist[i])
        if c['n'] == 0:
            A.act_and_train(obs[0], r)
        else:
            A.batch_act_and_train(list(obs))
        bad = check_out(hist, what)
        if bad:
            return bad
        ev = c['evals'][t]

        def evaluate(what):
            eo = [new_obs() for _ in range(n)]
            for i in range(n):
                ehist[i].append(eo[i])
            if c['n'] == 0:
                A.act(eo[0])
            else:
                A.batch_act(list(eo))
            bad = check_out(ehist, what + ' evaluation')
            if bad:
                return bad
            if c['n'] == 0:
                if ev[0][0] or ev[0][1]:
                    A.stop_episode()
                    ehist[0] = []
            else:
                A.batch_observe([new_obs() for _ in range(n)], [0.] * n, [x[0] for x in ev], [x[1] for x in ev])
                for i in range(n):
                    if ev[i][0] or ev[i][1]:
                        ehist[i] = []
            return None
        if ev is not None and t % 2:
            bad = evaluate(what)
            if bad:
                return bad
        nxt = [new_obs() for _ in range(n)]
        if c['n'] == 0:
            if row[0][1] or row[0][2]:
                A.stop_episode_and_train(nxt[0], row[0][0], row[0][1])
                hist[0] = []
                if cls in ('PPO', 'TRPO'):
                    ehist[0] = []           # these end the evaluation episode, too
                obs, r = [new_obs()], 0.
            else:
                obs, r = nxt, row[0][0]
        else:
            A.batch_observe_and_train(list(nxt), [x[0] for x in row], [x[1] for x in row], [x[2] for x in row])
            obs = list(nxt)
            for i in range(n):
                if row[i][1] or row[i][2]:
                    hist[i] = []
                    obs[i] = new_obs()
        if ev is not None and not t % 2:
            bad = evaluate(what)
            if bad:
                return bad
    # --- what was recorded
    if rb is None:
        eps = list(done_eps)
        eps += [e for e in A.memory + [A.last_episode] + list(A.batch_last_episode or []) if not any(e is x for x in eps)]
        trs = [tr for e in eps for tr in e]
    else:
        trs = rec
    for tr in trs:
        k = round(float(tr['state'][0]) * 100)
        ep = where[k]
        sts = unroll(net, ep)[1]
        for nm, st in (('recurrent_state', sts[-2]), ('next_recurrent_state', sts[-1])):
            want = None if st is None else net.get_recurrent_state_at(st, 0, unwrap_variable=True)
            if not state_eq(tr[nm], want, np):
                return '%s: the transition of step %d of an episode is stored with %s %s, should be %s' % (cls, len(ep) - 1, nm, tr[nm], want)
    if not trs and len(c['steps']) > 1:
        return '%s: no transition was recorded' % cls
    return None


def gen_links(rng):
    def link(depth):
        k = rng.random()
        if depth and k < .25:
            return ['seq'] + [link(0) for _ in range(rng.randint(1, 3))]
        if depth and k < .45:
            return ['branch'] + [link(0) for _ in range(rng.randint(1, 3))]
        return [rng.choice(KINDS), rng.choice([1, 1, 2])]
    n = rng.randint(1, 4)
    return dict(link=link(1), n=n, init=[rng.random() < .25 for _ in range(n)], mask=[rng.random() < .5 for _ in range(n)], lens=[rng.randint(1, 4) for _ in range(n)],
                how=rng.choice(['list', 'array', 'int']), seed=rng.randrange(1000), unwrap=rng.random() < .7, wrap=rng.random() < .5)


def run_links(c):
    """states of links: batching, slicing, masking are inverses; batched evaluation is evaluation one by one, step by step"""
    import numpy as np
    _quiet()
    import chainer
    import chainer.links as L
    import chainer.functions as F
    from chainerrl import links
    from chainerrl.links import stateless_recurrent as SR
    np.random.seed(c['seed'])
    H = 2

    def build(d):
        if d[0] == 'seq':
            xs = []
            for k, x in enumerate(d[1:]):
                xs += [build(x)] + ([F.tanh] if k % 2 == 0 else [])
            return links.StatelessRecurrentSequential(*xs)
        if d[0] == 'branch':
            return links.StatelessRecurrentBranched(*[build(x) for x in d[1:]])
        return _rec_link(L, d[0], 2, H, d[1])
    m = build(c['link'])
    if not isinstance(m, SR.StatelessRecurrent) or c['wrap']:
        m = links.StatelessRecurrentSequential(m) if c['link'][0] != 'branch' else links.StatelessRecurrentBranched(m)
    _noise(m, np)
    xs = [np.random.normal(size=(k, 2)).astype('f') for k in c['lens']]

    def outs(y):
        """outputs of the last link as nested lists of arrays"""
        if isinstance(y, (tuple, list)):
            return [outs(x) for x in y]
        return np.asarray(getattr(y, 'array', y))

    def eq(a, b):
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return a.shape == b.shape and np.allclose(a, b, atol=1e-4, rtol=1e-4)

    def run(seqs, st):
        y, s = m.n_step_forward(seqs, st, output_mode='split')
        return y, s
    n = c['n']
    with chainer.using_config('train', False), chainer.no_backprop_mode():
        single = []
        for i in range(n):
            pre = np.random.normal(size=(2, 2)).astype('f')
            single.append(None if c['init'][i] else m.get_recurrent_state_at(run([pre], None)[1], 0, c['unwrap']))
        batch = m.concatenate_recurrent_states(list(single))
        for i in range(n):
            if not state_eq(m.get_recurrent_state_at(batch, i, c['unwrap']), single[i], np):
                return 'state %d of the concatenation is %s, was %s' % (i, m.get_recurrent_state_at(batch, i, True), single[i])
        again = m.concatenate_recurrent_states([m.get_recurrent_state_at(batch, i, c['unwrap']) for i in range(n)])
        if not state_eq(again, batch, np):
            return 'slicing and concatenating changes the state'
        # batched evaluation, and step by step
        y, st = run(list(xs), batch)
        for i in range(n):
            one = m.concatenate_recurrent_states([single[i]])
            yi, si = run([xs[i]], one)
            if not eq(outs(y[i]), outs(yi[0])):
                return 'sequence %d of a batch evaluates to %s, alone to %s' % (i, outs(y[i]), outs(yi[0]))
            if not state_eq(m.get_recurrent_state_at(st, i, True), m.get_recurrent_state_at(si, 0, True), np):
                return 'sequence %d of a batch ends in another state than alone' % i
            s = one
            for k in range(len(xs[i])):
                yk, s = m(xs[i][k:k + 1], s)
            if not state_eq(s, si, np):
                return 'a sequence evaluated step by step ends in %s, at once in %s' % (flatten(s, np), flatten(si, np))
        # masking
        idx = [i for i in range(n) if c['mask'][i]]
        if c['how'] == 'int':
            idx = idx[:1]
        if idx:
            before = [x.copy() for x in flatten(st, np)]
            arg = idx if c['how'] == 'list' else (np.asarray(idx) if c['how'] == 'array' else idx[0])
            ms = m.mask_recurrent_state_at(st, arg)
            for i in range(n):
                want = None if i in idx else m.get_recurrent_state_at(st, i, True)
                if not state_eq(m.get_recurrent_state_at(ms, i, True), want, np):
                    return 'masking %s leaves environment %d with %s, should be %s' % (arg, i, m.get_recurrent_state_at(ms, i, True), want)
            if not all(np.array_equal(a, b) for a, b in zip(before, flatten(st, np))):
                return 'masking changes the state it is given'
            if m.mask_recurrent_state_at(None, arg) is not None:
                return 'masking the initial state gives %s' % (m.mask_recurrent_state_at(None, arg),)
    return None


def gen_keep(rng):
    def node(depth):
        k = rng.random()
        if depth and k < .4:
            return [node(depth - 1) for _ in range(rng.randint(1, 3))]
        return rng.choice(['lstm', 'lstm', 'linear'])

    def script(depth):
        return [rng.choice(['step', 'step', 'reset', 'unchain']) if depth == 0 or rng.random() < .5 else [rng.choice(['kept', 'reset_in']), script(depth - 1)]
                for _ in range(rng.randint(1, 4))]
    return dict(model=[node(2) for _ in range(rng.randint(1, 3))], script=script(2), seed=rng.randrange(1000))


def run_keep(c):
    """saving, resetting and restoring the state of stateful models"""
    import numpy as np
    _quiet()
    import chainer
    import chainer.links as L
    from chainerrl import recurrent
    np.random.seed(c['seed'])
    lstms = []

    def build(d):
        if d == 'lstm':
            x = L.LSTM(2, 2)
            lstms.append(x)
            return x
        if d == 'linear':
            return L.Linear(2, 2)
        return chainer.ChainList(*[build(x) for x in d])

    class M(chainer.ChainList, recurrent.RecurrentChainMixin):
        pass
    m = M(*[build(x) for x in c['model']])

    def snap():
        return [(None if x.c is None else x.c.array.copy(), None if x.h is None else x.h.array.copy()) for x in lstms]

    def eq(a, b):
        return all((p is None) == (q is None) and (p is None or np.array_equal(p, q)) for x, y in zip(a, b) for p, q in zip(x, y))

    def go(script):
        for op in script:
            if op == 'step':
                for x in lstms:
                    x(np.random.normal(size=(1, 2)).astype('f'))
            elif op == 'reset':
                m.reset_state()
                if any(x.c is not None or x.h is not None for x in lstms):
                    return 'reset_state leaves %s' % (snap(),)
            elif op == 'unchain':
                a = snap()
                m.unchain_backward()
                if not eq(a, snap()):
                    return 'unchain_backward changes the state'
                for x in lstms:
                    for v in (x.c, x.h):
                        if v is not None and v.creator_node is not None:
                            return 'after unchain_backward the state still depends on the past'
            else:
                a = snap()
                with (recurrent.state_kept if op[0] == 'kept' else recurrent.state_reset)(m):
                    if op[0] == 'kept':
                        if not eq(a, snap()):
                            return 'state_kept changes the state'
                    elif any(x.c is not None for x in lstms):
                        return 'state_reset does not start from the initial state'
                    bad = go(op[1])
                    if bad:
                        return bad
                if not eq(a, snap()):
                    return 'after %s the state is %s, was %s' % (op[0], snap(), a)
        return None
    return go(c['script'])


def gen_serial(rng):
    T = rng.randint(2, 9)
    return dict(cls=rng.choice(['A3C', 'NSQ', 'ACER', 'PCL', 'REINFORCE', 'DDPG', 'PGT']), steps=[[round(rng.uniform(-1, 1), 2), rng.random() < .3, rng.random() < .2] for _ in range(T)],
                evals=[rng.randint(0, 3) for _ in range(T)], tmax=rng.choice([1, 2, 3, 5]), seed=rng.randrange(1000), replay=rng.random() < .5)


def run_serial(c):
    """stateful models: the state is that of the episode so far, in training and in evaluation between episodes"""
    import copy
    import numpy as np
    _quiet()
    import random as rnd
    import chainer
    import chainer.links as L
    import chainer.functions as F
    import chainerrl
    from chainerrl import agents, policies, v_functions, q_functions, replay_buffer, explorers, links
    from chainerrl.agents import a3c, acer, pcl
    np.random.seed(c['seed'])
    rnd.seed(c['seed'])
    H, NA = 3, 2
    cls = c['cls']
    SGD = lambda: chainer.optimizers.SGD(0)

    def setup(m):
        o = SGD()
        o.setup(m)
        return o
    eg = explorers.ConstantEpsilonGreedy(.3, lambda: np.random.randint(NA))
    phi = lambda x: x
    feed = lambda m, o: m.pi_and_v(o) if cls in ('A3C', 'PCL') else m(o)
    if cls in ('A3C', 'PCL'):
        m = a3c.A3CSharedModel(shared=L.LSTM(2, H), pi=policies.FCSoftmaxPolicy(H, NA, n_hidden_layers=0), v=v_functions.FCVFunction(H, n_hidden_layers=0))
        _noise(m, np)
        if cls == 'A3C':
            A = a3c.A3C(m, setup(m), t_max=c['tmax'], gamma=.9, phi=phi)
        else:
            rb = replay_buffer.EpisodicReplayBuffer(100)
            A = pcl.PCL(m, setup(m), replay_buffer=rb, t_max=c['tmax'], gamma=.9, rollout_len=2, batchsize=1, phi=phi, train_async=True, replay_start_size=1 if c['replay'] else 90, n_times_replay=1)
        parts = lambda: [A.model]
    elif cls == 'ACER':
        m = acer.ACERSharedModel(shared=L.LSTM(2, H), pi=policies.FCSoftmaxPolicy(H, NA, n_hidden_layers=0),
                                 q=q_functions.FCStateQFunctionWithDiscreteAction(H, NA, n_hidden_channels=2, n_hidden_layers=0))
        _noise(m, np)
        rb = replay_buffer.EpisodicReplayBuffer(100)
        A = acer.ACER(m, setup(m), t_max=c['tmax'], gamma=.9, replay_buffer=rb if c['replay'] else None, phi=phi, replay_start_size=1, n_times_replay=1)
        parts = lambda: [A.model, A.shared_average_model]
    elif cls == 'NSQ':
        m = q_functions.FCLSTMStateQFunction(2, NA, n_hidden_channels=H, n_hidden_layers=1)
        _noise(m, np)
        A = agents.NSQ(m, setup(m), t_max=c['tmax'], gamma=.9, i_target=3, explorer=eg, phi=phi)
        parts = lambda: [A.q_function, A.target_q_function]
    elif cls == 'REINFORCE':
        m = links.Sequence(L.LSTM(2, H), policies.FCSoftmaxPolicy(H, NA, n_hidden_layers=0))
        _noise(m, np)
        A = agents.REINFORCE(m, setup(m), batchsize=c['tmax'], phi=phi, backward_separately=c['replay'])
        parts = lambda: [A.model]
    else:
        pi = policies.FCLSTMDeterministicPolicy(2, H, 1, 2, bound_action=False) if cls == 'DDPG' else links.Sequence(L.LSTM(2, H), policies.FCGaussianPolicy(H, 2, 1, H))
        q = q_functions.FCLSTMSAQFunction(2, 2, H, 1)
        if cls == 'DDPG':
            from chainerrl.agents.ddpg import DDPGModel
            m = DDPGModel(pi, q)
            rb = replay_buffer.EpisodicReplayBuffer(100)
            _noise(m, np)
            A = agents.DDPG(m, setup(m.policy), setup(m.q_function), rb, .9, explorers.AdditiveGaussian(.1), replay_start_size=1 if c["replay"] else 90,
                            minibatch_size=1, update_interval=c['tmax'], target_update_interval=2, episodic_update=True, phi=phi)
            parts = lambda: [A.policy]
        else:
            class Model(chainer.Chain, chainerrl.recurrent.RecurrentChainMixin):
                def __init__(self):
                    super().__init__()
                    with self.init_scope():
                        self.policy, self.q_function = pi, q
            m = Model()
            _noise(m, np)
            rb = replay_buffer.ReplayBuffer(100)
            A = agents.PGT(m, setup(m.policy), setup(m.q_function), rb, .9, explorers.AdditiveGaussian(.1), replay_start_size=90, minibatch_size=1, phi=phi)
            parts = lambda: [A.policy]

    def new_obs():
        return np.random.normal(size=2).astype('f')

    def state_of(m, obss):
        """state of a copy of m after the observations, from the initial state"""
        y = copy.deepcopy(m)
        y.reset_state()
        with chainer.using_config('train', False), chainer.no_backprop_mode():
            for o in obss:
                feed(y, o[None])
        return y.get_state()

    def check_state(ep, what):
        for k, x in enumerate(parts()):
            want = state_of(x, ep)
            if not state_eq(x.get_state(), want, np):
                return '%s: the state (%d) after %d steps of the episode is %s, the episode alone gives %s' % (what, k, len(ep), flatten(x.get_state(), np), flatten(want, np))
        return None
    ep, obs, r = [], new_obs(), 0.
    for t, (rew, done, reset) in enumerate(c['steps']):
        what = '%s step %d' % (cls, t)
        ep.append(obs)
        A.act_and_train(obs, r)
        bad = check_state(ep, what)
        if bad:
            return bad
        nxt = new_obs()
        if done or reset:
            A.stop_episode_and_train(nxt, rew, done)
            bad = check_state([], what + ' end')
            if bad:
                return bad
            e = []
            for _ in range(c['evals'][t]):
                o = new_obs()
                e.append(o)
                A.act(o)
                if cls not in ('NSQ', 'ACER'):
                    bad = check_state(e, what + ' evaluation')
                    if bad:
                        return bad
            if c['evals'][t]:
                A.stop_episode()
                bad = check_state([], what + ' end of evaluation')
                if bad:
                    return bad
            ep, obs, r = [], new_obs(), 0.
        else:
            obs, r = nxt, rew
    return None


CASES = [('act', gen_act, run_act), ('serial', gen_serial, run_serial), ('links', gen_links, run_links), ('keep', gen_keep, run_keep)]
