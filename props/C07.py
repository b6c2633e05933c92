"""C07 Batching experiences yields exact n-step returns, discounts and flags."""
from props.lib import *
from pyvc import npmodel as N
from pyvc.models import Mod
LEVEL = 'proof'
LEVEL_NOTE = ('batch_experiences and batch_recurrent_experiences for any number of experiences of any lengths with arbitrary contents')
TRUSTED = ['chainer.dataset.concat_examples stacks its arguments in order', 'numpy.asarray keeps order and values',
           'lemma: position off(j) + k of a concatenation is item k of sequence j',
           'model.concatenate_recurrent_states is used as a contract (C29)']
ASSUMPTIONS = ['numbers are mathematical: rounding to float32 is not modelled', 'the discount factor is a positive real or zero']
RB = 'chainerrl.replay_buffer'


class Batched(Obj):
    """the result of concat_examples: the examples in order"""

    def __init__(self, feats):
        self.__dict__['_pvghost_f'] = to_seq(feats)


def mods07():
    cu = Mod('chainer.cuda', available=False)
    ds = Mod('chainer.dataset', concat_examples=lambda b, device=None, padding=None: Batched(b))
    return {'chainer': Mod('chainer', cuda=cu, dataset=ds), 'chainer.cuda': cu, 'chainer.dataset': ds}


W = world('batch', models=mods07)


class Data(object):
    """arbitrary experiences: n of them, experience i has len(i) >= 1 transitions with arbitrary fields"""

    def __init__(self):
        I = z3.IntSort()
        self.n = fresh_int('n', 1)
        self.L = fun('len', I, z3.IntSort())
        self.real = {k: fun(k, I, I, z3.RealSort()) for k in ('action', 'reward', 'next_action')}
        self.bool = {k: fun(k, I, I, z3.BoolSort()) for k in ('is_state_terminal', 'has_next')}
        self.obj = {k: fun_obj(k, I, I) for k in ('state', 'next_state', 'recurrent_state', 'next_recurrent_state')}
        i = z3.Int('pv_len_i')
        core.CTX.add(z3.ForAll([i], self.L(i) >= 1, patterns=[self.L(i)]))
        self.exps = Seq(n=self.n, at=heap.memo_at(lambda i: PList(seq=self.exp(i))))

    def len(self, i):
        v = mk(self.L(zint(i)))
        if not core.CTX.in_quant:
            assume(v >= 1)
        return v

    def exp(self, i):
        return Seq(n=self.len(i), at=heap.memo_at(lambda k: Tr(self, i, k)))

    def f(self, nm, i, k):
        i, k = zint(i), zint(k)
        if nm in self.real:
            return mk(self.real[nm](i, k))
        if nm in self.bool:
            return mk(self.bool[nm](i, k))
        return core.obj_of(self.obj[nm](i, k))


class Tr(loops.Handle):
    """transition k of experience i"""

    def __getitem__(self, nm):
        D, i, k = self.parts
        if nm == 'next_action':
            return Maybe(D, i, k)
        return D.f(nm, i, k)


class Maybe(loops.Handle):
    """a next action that may be None"""

    def __pv_isnone__(self):
        D, i, k = self.parts
        return Not(D.f('has_next', i, k))

    def __pv_kind__(self):
        return 'f'

    def __pv_num__(self):
        D, i, k = self.parts
        return D.f('next_action', i, k)


def phi_fun():
    f = fun_obj('PHI', ObjSort)
    return lambda x: core.obj_of(f(x.t))


def feats(b):
    if not isinstance(b, Batched):
        raise Unsupported('batched states are %r' % type(b))
    return b._pvghost_f


def p_batch():
    D = Data()
    m = W.load(RB)
    g = fresh_real('gamma')
    assume(g >= 0)
    phi = phi_fun()
    if choose(2):
        b = m.batch_experiences(PList(seq=D.exps), N.NP, phi, g)
    else:
        b = m.batch_experiences(PList(seq=D.exps), N.NP, phi, g, batch_states=lambda s, xp, phi: Batched([phi(x) for x in s] if isinstance(s, list)
                                                                                                         else to_seq(s).map(phi)))
    j = fresh_int('j', 0)
    assume(j < D.n)
    n = D.len(j)
    last = n - 1
    s, ns = feats(b['state']), feats(b['next_state'])
    check(And(same(s.n, D.n), same(ns.n, D.n)), 'one state and next state per experience')
    check(same(s.at(j), phi(D.f('state', j, 0))), 'the state of an entry is the first one')
    check(same(ns.at(j), phi(D.f('next_state', j, last))), 'the next state of an entry is the last one')
    for k in ('action', 'reward', 'is_state_terminal', 'discount'):
        check(isinstance(b[k], N.Arr) and b[k].ndim == 1, 'arrays of one number per experience')
        check(same(b[k].shape[0], D.n), 'one %s per experience' % k)
    check(same(b['action'].at(j), D.f('action', j, 0)), 'the action of an entry is the first one')
    R = heap.symsum(Seq(n=n, at=lambda k: core.power(g, k) * D.f('reward', j, k)))
    check(same(b['reward'].at(j), R), 'the reward is the discounted sum over all transitions')
    check(same(b['discount'].at(j), core.power(g, n)), 'the discount is gamma ** length')
    t = b['is_state_terminal'].at(j)
    k = fresh_int('k', 0)
    check(Or(same(t, 0), same(t, 1)), 'terminal flags are zero or one')
    if k < n:
        check(Implies(D.f('is_state_terminal', j, k), same(t, 1)), 'terminal if any transition is')
    none = heap.sym_all(Seq(n=n, at=lambda k: Not(D.f('is_state_terminal', j, k))))
    check(Implies(none, same(t, 0)), 'not terminal if no transition is')
    present = 'next_action' in b
    if present:
        check(D.f('has_next', j, last), 'next actions only if every experience has one at its end')
        check(And(same(b['next_action'].shape[0], D.n), same(b['next_action'].at(j), D.f('next_action', j, last))),
              'the next action of an entry is the last one')
        cover('next actions')
    else:
        allp = heap.sym_all(Seq(n=D.n, at=lambda i: D.f('has_next', i, mk(D.L(zint(i))) - 1)))
        check(Not(allp), 'next actions whenever every experience has one at its end')
        cover('no next actions')


def p_recurrent():
    D = Data()
    m = W.load(RB)
    g = fresh_real('gamma')
    assume(g >= 0)
    phi = phi_fun()
    asked = []

    class Model(Obj):
        def concatenate_recurrent_states(self, states):
            asked.append(to_seq(states))
            return ('states', len(asked) - 1)
    b = m.batch_recurrent_experiences(PList(seq=D.exps), Model(), N.NP, phi, g)
    fl = heap.flat_of(D.exps)
    j, k = fresh_int('j', 0), fresh_int('k', 0)
    assume(j < D.n)
    assume(k < D.len(j))
    p = fl.pos(j, k)
    st, nst = to_seq(b['state']), to_seq(b['next_state'])
    check(And(same(st.n, D.n), same(nst.n, D.n)), 'recurrent: one state sequence per episode')
    s, ns = feats(st.at(j)), feats(nst.at(j))
    check(And(same(s.n, D.len(j)), same(ns.n, D.len(j))), 'recurrent: one state per transition')
    check(same(s.at(k), phi(D.f('state', j, k))), 'recurrent: states in order')
    check(same(ns.at(k), phi(D.f('next_state', j, k))), 'recurrent: next states in order')
    for nm in ('action', 'reward', 'is_state_terminal', 'discount'):
        a = b[nm]
        check(isinstance(a, N.Arr) and a.ndim == 1, 'recurrent: arrays of one number per transition')
        check(same(a.shape[0], fl.total), 'recurrent: one %s per transition' % nm)
        want = D.f(nm, j, k) if nm != 'discount' else g
        if nm == 'is_state_terminal':
            want = ite(want, 1, 0)
        check(same(a.at(p), want), 'recurrent: %s of each transition in episode order' % nm)
    for nm in ('recurrent_state', 'next_recurrent_state'):
        v = b[nm]
        check(isinstance(v, tuple) and v[0] == 'states', 'recurrent: hidden states are concatenated by the model')
        q = asked[v[1]]
        check(And(same(q.n, D.n), same(q.at(j), D.f(nm, j, 0))), 'recurrent: the %s of the first transition of each episode' % nm)
    if 'next_action' in b:
        core.CTX.add(fl.OUT(zint(p)) == zint(j))
        check(D.f('has_next', j, k), 'recurrent: next actions only if every transition has one')
        a = b['next_action']
        check(And(same(a.shape[0], fl.total), same(a.at(p), D.f('next_action', j, k))), 'recurrent: next actions in order')
        cover('next actions')
    else:
        i, q = z3.Ints('pv_i pv_q')
        allp = mk(z3.ForAll([i, q], z3.Implies(z3.And(i >= 0, i < zint(D.n), q >= 0, q < D.L(i)), D.bool['has_next'](i, q))))
        check(Not(allp), 'recurrent: next actions whenever every transition has one')
        cover('no next actions')


PROOFS = [p_batch, p_recurrent]


# ---------------------------------------------------------------------------------- concrete companion
def gen(rng):
    n = rng.randint(1, 4)
    exps = []
    for i in range(n):
        m = rng.randint(1, 5)
        exps.append([[rng.randint(-5, 5), rng.randint(-8, 8) / 4.0, rng.random() < 0.2, rng.random() < 0.85] for _ in range(m)])
    return dict(exps=exps, gamma=rng.choice([0.0, 0.5, 0.9, 1.0, 0.99]), allnext=rng.random() < 0.5, rec=rng.random() < 0.5, vec=rng.random() < 0.3)


def run(c):
    import numpy as np
    from chainerrl.replay_buffer import batch_experiences, batch_recurrent_experiences
    g = c['gamma']
    t, exps = 0, []
    for e in c['exps']:
        ep = []
        for a, r, d, has in e:
            act = np.array([a, a + 1], dtype=np.float32) if c['vec'] else np.int32(a)
            ep.append(dict(state=np.array([t, t + 0.5], dtype=np.float32), action=act, reward=r, is_state_terminal=d,
                           next_state=np.array([t + 100, 0], dtype=np.float32), next_action=act + 7 if has or c['allnext'] else None,
                           recurrent_state=('h', t), next_recurrent_state=('n', t)))
            t += 1
        exps.append(ep)
    phi = lambda x: x * 2

    class Model:
        def concatenate_recurrent_states(self, s):
            return list(s)
    eq = lambda x, y: np.shape(x) == np.shape(y) and np.allclose(x, y, rtol=1e-5, atol=1e-5)
    if c['rec']:
        b = batch_recurrent_experiences(exps, Model(), np, phi, g)
        flat = [x for e in exps for x in e]
        for k, nm in (('state', 'state'), ('next_state', 'next_state')):
            if len(b[k]) != len(exps) or not all(eq(x, np.stack([phi(y[nm]) for y in e])) for x, e in zip(b[k], exps)):
                return 'recurrent %s: %r' % (k, b[k])
        for k, want in (('action', [x['action'] for x in flat]), ('reward', [x['reward'] for x in flat]),
                        ('is_state_terminal', [float(x['is_state_terminal']) for x in flat]), ('discount', [g] * len(flat))):
            if not eq(b[k], want):
                return 'recurrent %s: %r instead of %r' % (k, b[k], want)
        for k in ('recurrent_state', 'next_recurrent_state'):
            if b[k] != [e[0][k] for e in exps]:
                return 'recurrent %s: %r' % (k, b[k])
        nxt = [x['next_action'] for x in flat]
    else:
        b = batch_experiences(exps, np, phi, g)
        for k, want in (('state', [phi(e[0]['state']) for e in exps]), ('next_state', [phi(e[-1]['next_state']) for e in exps]),
                        ('action', [e[0]['action'] for e in exps]),
                        ('reward', [sum(g ** i * x['reward'] for i, x in enumerate(e)) for e in exps]),
                        ('is_state_terminal', [float(any(x['is_state_terminal'] for x in e)) for e in exps]),
                        ('discount', [g ** len(e) for e in exps])):
            if not eq(b[k], want):
                return '%s: %r instead of %r' % (k, b[k], want)
        nxt = [e[-1]['next_action'] for e in exps]
    if all(x is not None for x in nxt):
        if 'next_action' not in b or not eq(b['next_action'], nxt):
            return 'next actions: %r instead of %r' % (b.get('next_action'), nxt)
    elif 'next_action' in b:
        return 'next actions although some are missing'
    return None


CASES = [('batches', gen, run)]
