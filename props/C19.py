"""C19 Vector environments act as independent environments side by side."""
from props.envs import *
from pyvc.models import Mod
import random as _random
import numpy as np
LEVEL = 'proof'
LEVEL_NOTE = ('any number of environments: every operation of SerialVectorEnv and MultiprocessVectorEnv from an arbitrary state is compared '
              'with one functional specification, for an arbitrary environment index; the worker loop for any sequence of commands; '
              'VectorFrameStack for up to three environments (bounded) and any number of frames')
TRUSTED = ['multiprocessing.Pipe delivers messages in order and unchanged; Process runs its target with its args',
           'cached_property.cached_property behaves like a property computed once', 'signal.signal has no effect on the results']
ASSUMPTIONS = ['the environments are arbitrary; results depend on the environment and the operation only through uninterpreted functions']
SV = 'chainerrl.envs.serial_vector_env'
MV = 'chainerrl.envs.multiprocess_vector_env'
VF = 'chainerrl.wrappers.vector_frame_stack'


def mods19():
    d = mods()
    d['signal'] = Mod('signal', SIGINT=2, SIG_IGN=1, signal=lambda *a: None)
    d['cached_property'] = Mod('cached_property', cached_property=property)
    d['multiprocessing'] = Mod('multiprocessing', Pipe=None, Process=None)
    d['warnings'] = Mod('warnings', warn=lambda *a, **k: None)
    return d


W = world('vecenv', models=mods19)


class State(Obj):
    """what happens to the arbitrary environment j, plus the functional specification of all results"""

    def __init__(self, n, j):
        self.n, self.j = n, j
        self.ns = self.nr = self.nsd = self.nc = 0
        self.action, self.sd = fresh_obj('a0'), fresh_obj('s0')
        self.sent = self.recvd = 0
        self.arg = fresh_obj('arg0')
        self.stopped = 0
        self.__dict__['_pvghost_kind'] = None
        self.__dict__['_pvghost_bad'] = None
        I = z3.IntSort()
        mkf = lambda nm, srt: fun(nm, I, srt)
        self.__dict__['_pvghost_f'] = dict(
            obs=fun_obj('obs', I), robs=fun_obj('robs', I), info=fun_obj('info', I), r=mkf('r', z3.RealSort()), d=mkf('d', z3.BoolSort()),
            aspace=fun_obj('aspace', I), ospace=fun_obj('ospace', I), spec=fun_obj('spec', I), sret=fun_obj('sret', I))

    def f(self, nm, i):
        v = self.__dict__['_pvghost_f'][nm](zint(i))
        return core.obj_of(v) if nm in ('obs', 'robs', 'info', 'aspace', 'ospace', 'spec', 'sret') else mk(v)

    def stepped(self, i):
        return (self.f('obs', i), self.f('r', i), self.f('d', i), self.f('info', i))


class EnvRef(loops.Handle):
    """environment number i"""
    _pvghost_e = property(lambda self: (ctx().roots['E'], self.parts[0]))
    action_space = property(lambda self: self._pvghost_e[0].f('aspace', self._pvghost_e[1]))
    observation_space = property(lambda self: self._pvghost_e[0].f('ospace', self._pvghost_e[1]))
    spec = property(lambda self: self._pvghost_e[0].f('spec', self._pvghost_e[1]))

    def step(self, a):
        heap.pure_guard('env.step')
        E, i = self._pvghost_e
        hit = same(i, E.j)
        E.ns = E.ns + ite(hit, 1, 0)
        E.action = ite(hit, a, E.action)
        return E.stepped(i)

    def reset(self):
        heap.pure_guard('env.reset')
        E, i = self._pvghost_e
        E.nr = E.nr + ite(same(i, E.j), 1, 0)
        return E.f('robs', i)

    def seed(self, s=None):
        heap.pure_guard('env.seed')
        E, i = self._pvghost_e
        hit = same(i, E.j)
        E.nsd = E.nsd + ite(hit, 1, 0)
        E.sd = ite(hit, s, E.sd)
        return E.f('sret', i)

    def close(self):
        heap.pure_guard('env.close')
        E, i = self._pvghost_e
        E.nc = E.nc + ite(same(i, E.j), 1, 0)


def hint(L, E, fields):
    """facts about the arbitrary environment j at iteration k: nothing happened to it before its turn, once after"""
    j = E.j
    out = {}
    for nm, before, after in fields:
        v = L.get('R.E.' + nm)
        if isnum(before):
            out['after ' + nm] = same(v, ite(L.k > j, after, before))
        else:
            out['after ' + nm] = same(v, ite(L.k > j, after, before))
        out['never ' + nm] = same(v, before)
    return out


isnum = core.isnum


def sequences_of(w):
    return [nm for nm, v in w.__dict__.items() if isinstance(v, (PList, tuple)) or (isinstance(v, list))]


def op(E, w, kind, n, j, last_name, start):
    """one operation from a state in which every last observation is arbitrary; -> the last observations after it"""
    m = fresh_int('last')
    last = sym_seq('last', 'obj', n=n)
    w.__dict__[last_name] = PList(seq=last)
    c = ctx()
    ns, nr, nsd, act, sd, arg, sent, recvd = E.ns, E.nr, E.nsd, E.action, E.sd, E.arg, E.sent, E.recvd
    mp = start == 'mp'
    E.__dict__['_pvghost_kind'] = kind
    if kind == 'step':
        actions = sym_seq('actions', 'obj', n=n)
        if mp:
            c.invfuns.append(lambda L: hint(L, E, [('sent', sent, sent + 1), ('arg', arg, actions.at(j))]))
            c.invfuns.append(lambda L: hint(L, E, [('recvd', recvd, recvd + 1)]))
        else:
            c.invfuns.append(lambda L: hint(L, E, [('ns', ns, ns + 1), ('action', act, actions.at(j))]))
        c.defs.append(loops.Def(lambda p: p.endswith('.s'), lambda L, p: Seq(n=L.k, at=lambda i: E.stepped(i))))
        got = w.step(PList(seq=actions))
        check(len(got) == 4, kind + ': four results')
        for x, nm in zip(got, ('obs', 'r', 'd', 'info')):
            x = to_seq(x)
            check(And(same(x.n, n), same(x.at(j), E.f(nm, j))), kind + ': result %s of environment i at index i' % nm)
        if mp:
            check(And(same(E.sent, sent + 1), same(E.recvd, recvd + 1), same(E.arg, actions.at(j))), kind + ': environment i is asked once, with action i')
        else:
            check(And(same(E.ns, ns + 1), same(E.action, actions.at(j)), same(E.nr, nr)), kind + ': environment i is stepped once, with action i')
        new = lambda i: E.f('obs', i)
    elif kind == 'reset':
        mask, k = None, choose(3)
        ms = sym_seq('mask', 'bool', n=n)
        if k == 1:
            mask = PList(seq=ms)
        elif k == 2:
            mask = N.Arr((n,), lambda i: ms.at(i), 'b')
        mj = lambda i: False if mask is None else ms.at(i)
        one = ite(mj(j), 0, 1)
        if mp:
            c.invfuns.append(lambda L: hint(L, E, [('sent', sent, sent + one)]))
            c.invfuns.append(lambda L: hint(L, E, [('recvd', recvd, recvd + one)]))
        else:
            c.invfuns.append(lambda L: hint(L, E, [('nr', nr, nr + one)]))
        want = lambda i: ite(mj(i), last.at(i), E.f('robs', i))
        c.defs.append(loops.Def(lambda p: p.endswith('.s'), lambda L, p: Seq(n=L.k, at=want)))
        x = w.reset() if mask is None and choose(2) else w.reset(mask=mask)
        x = to_seq(x)
        check(same(x.n, n), 'reset: one observation per environment')
        check(same(x.at(j), want(j)), 'reset: the reset observation of unmasked, the last observation of masked environments')
        if mp:
            check(And(same(E.sent, sent + one), same(E.recvd, recvd + one)), 'reset: exactly the unmasked environments are reset')
        else:
            check(And(same(E.nr, nr + one), same(E.ns, ns)), 'reset: exactly the unmasked environments are reset')
        new = want
    else:
        seeds = sym_seq('seeds', 'obj', n=n)
        if mp:
            c.invfuns.append(lambda L: hint(L, E, [('sent', sent, sent + 1), ('arg', arg, seeds.at(j))]))
            c.invfuns.append(lambda L: hint(L, E, [('recvd', recvd, recvd + 1)]))
        else:
            c.invfuns.append(lambda L: hint(L, E, [('nsd', nsd, nsd + 1), ('sd', sd, seeds.at(j))]))
        c.defs.append(loops.Def(lambda p: p.endswith('.s'), lambda L, p: Seq(n=L.k, at=lambda i: E.f('sret', i))))
        w.seed(PList(seq=seeds))
        if mp:
            check(And(same(E.sent, sent + 1), same(E.recvd, recvd + 1), same(E.arg, seeds.at(j))), 'seed: environment i is seeded once, with seed i')
        else:
            check(And(same(E.nsd, nsd + 1), same(E.sd, seeds.at(j)), same(E.ns, ns), same(E.nr, nr)), 'seed: environment i is seeded once, with seed i')
        new = last.at
    cover(kind)
    s = to_seq(w.__dict__[last_name])
    check(And(same(s.n, n), same(s.at(j), new(j))), kind + ': the newest observation of each environment is kept')


def find_last(w, n, j):
    """the attribute that holds the last observations (n times None after construction)"""
    c = []
    for nm, v in w.__dict__.items():
        if isinstance(v, PList) and core.CTX.known(same(v.s.n, n)) is True:
            try:
                if v.s.at(j) is None:
                    c.append(nm)
            except Unsupported:
                pass
    if len(c) != 1:
        raise Unsupported('last observations not found')
    return c[0]


def setup(E_kind):
    ctx().effect_comps = True
    n = fresh_int('n', 1)
    j = fresh_int('j', 0)
    assume(j < n)
    E = root('E', State(n, j))
    return n, j, E


def serial(n, E):
    envs = PList(seq=Seq(n=n, at=heap.memo_at(lambda i: EnvRef(i))))
    return W.load(SV).SerialVectorEnv(envs)


def _serial_op(kind):
    n, j, E = setup('serial')
    w = serial(n, E)
    check(same(w.num_envs, n), 'as many environments as given')
    op(E, w, kind, n, j, find_last(w, n, j), 'serial')


def p_serial_step():
    _serial_op('step')


def p_serial_reset():
    _serial_op('reset')


def p_serial_seed():
    _serial_op('seed')


def p_serial_misc():
    n, j, E = setup('serial')
    w = serial(n, E)
    check(And(same(w.action_space, E.f('aspace', 0)), same(w.observation_space, E.f('ospace', 0)), same(w.spec, E.f('spec', 0))),
          'spaces and spec are those of the first environment')
    ctx().invfuns.append(lambda L: hint(L, E, [('nc', 0, 1)]))
    w.close()
    check(same(E.nc, 1), 'closing closes every environment once')


class Remote(loops.Handle):
    """the parent's end of the pipe of environment i"""

    def send(self, msg):
        heap.pure_guard('send')
        E, i = ctx().roots['E'], self.parts[0]
        cmd, data = msg
        check(cmd == E._pvghost_kind, 'only the requested command is sent (%s)' % E._pvghost_kind)
        hit = same(i, E.j)
        E.sent = E.sent + ite(hit, 1, 0)
        if cmd in ('step', 'seed'):
            E.arg = ite(hit, data, E.arg)

    def recv(self):
        heap.pure_guard('recv')
        E, i = ctx().roots['E'], self.parts[0]
        hit = same(i, E.j)
        check(Implies(hit, E.sent > E.recvd), 'a reply is awaited only from an environment that was asked')
        E.recvd = E.recvd + ite(hit, 1, 0)
        k = E._pvghost_kind
        if k == 'step':
            return E.stepped(i)
        return {'reset': lambda: E.f('robs', i), 'seed': lambda: E.f('sret', i), 'spec': lambda: E.f('spec', i),
                'get_spaces': lambda: (E.f('aspace', i), E.f('ospace', i))}[k]()


class Work(loops.Handle):
    """the worker's end of the pipe of environment i"""


class Proc(loops.Handle):
    """a process; contract: runs target(*args)"""

    def __init__(self, target=None, *a, args=None):
        loops.Handle.__init__(self, target, *(a if args is None else tuple(args)))

    def start(self):
        heap.pure_guard('start')
        E = ctx().roots['E']
        t, a = self.parts[0], self.parts[1:]
        ok = t is E._pvghost_worker and len(a) == 2 and isinstance(a[0], Work)
        check(ok, 'every process runs the worker on its end of a pipe')
        hit = same(a[0].parts[0], E.j)
        E.started = E.started + ite(hit, 1, 0)
        check(Implies(hit, same(a[1], E._pvghost_fns.at(E.j))), 'with the constructor of its own environment')

    def join(self):
        heap.pure_guard('join')
        E = ctx().roots['E']
        E.stopped = E.stopped + ite(same(self.parts[1].parts[0], E.j), 1, 0)


def parallel(n, j, E):
    """MultiprocessVectorEnv built by its real constructor over pipes and processes under contract"""
    m = W.load(MV)
    E.made, E.started = 0, 0
    fns = sym_seq('fns', 'obj', n=n)
    E.__dict__['_pvghost_fns'] = fns
    E.__dict__['_pvghost_worker'] = m.worker
    E.__dict__['_pvghost_kind'] = 'get_spaces'

    def pipe():
        heap.pure_guard('Pipe')
        i = E.made
        E.made = E.made + 1
        return (Remote(i), Work(i))
    patch(m, 'Pipe', pipe)
    patch(m, 'Process', Proc)
    c = ctx()
    c.invfuns.append(lambda L: hint(L, E, [('started', 0, 1)]))
    w = m.MultiprocessVectorEnv(PList(seq=fns))
    check(same(w.num_envs, n), 'parallel: as many environments as given')
    check(same(E.started, 1), 'parallel: one process per environment')
    check(And(same(w.action_space, E.f('aspace', 0)), same(w.observation_space, E.f('ospace', 0))), 'parallel: spaces of the first environment')
    check(same(E.sent, E.recvd), 'parallel: every question is answered')
    del c.invfuns[:]
    return w


def _parallel_op(kind):
    n, j, E = setup('mp')
    w = parallel(n, j, E)
    op(E, w, kind, n, j, find_last(w, n, j), 'mp')


def p_parallel_step():
    _parallel_op('step')


def p_parallel_reset():
    _parallel_op('reset')


def p_parallel_seed():
    _parallel_op('seed')


def p_parallel_misc():
    n, j, E = setup('mp')
    w = parallel(n, j, E)
    c = ctx()
    k = choose(5)
    sent, recvd, arg = E.sent, E.recvd, E.arg
    if k == 0:
        E.__dict__['_pvghost_kind'] = 'spec'
        check(same(w.spec, E.f('spec', 0)), 'parallel: spec of the first environment')
        check(same(E.sent - sent, E.recvd - recvd), 'parallel: spec: every question is answered')
    elif k in (1, 2):
        E.__dict__['_pvghost_kind'] = 'seed'
        s = fresh_int('seed') if k == 1 else None
        E.arg = arg = None
        c.defs.append(loops.Def(lambda p: p.endswith('.s'), lambda L, p: Seq(n=L.k, at=lambda i: E.f('sret', i))))
        c.invfuns.append(lambda L: dict(hint(L, E, [('sent', sent, sent + 1)]), arg=Implies(L.k > j, same(L.get('R.E.arg'), s))))
        c.invfuns.append(lambda L: hint(L, E, [('recvd', recvd, recvd + 1)]))
        w.seed(s) if k == 1 or choose(2) else w.seed()
        check(And(same(E.sent, sent + 1), same(E.recvd, recvd + 1)), 'seed: one number seeds every environment once')
        check(same(E.arg, s), 'seed: with that number')
    elif k == 3:
        m = fresh_int('m', 0)
        assume(Not(same(m, n)))
        E.__dict__['_pvghost_kind'] = 'none'
        r, _ = raises(ValueError, lambda: w.seed(PList(seq=sym_seq('seeds', 'obj', n=m))))
        check(r and same(E.sent, sent), 'seed: a wrong number of seeds is refused')
    else:
        E.__dict__['_pvghost_kind'] = 'close'
        c.invfuns.append(lambda L: hint(L, E, [('sent', sent, sent + 1)]))
        c.invfuns.append(lambda L: hint(L, E, [('stopped', 0, 1)]))
        w.close()
        check(And(same(E.sent, sent + 1), same(E.stopped, 1)), 'parallel: closing ends every process once')
        for f in (lambda: w.reset(), lambda: w.step(PList(seq=sym_seq('acts', 'obj', n=n))), lambda: w.close(), lambda: w.seed(1)):
            r, _ = raises(AssertionError, f)
            check(r, 'parallel: nothing is accepted after closing')
        check(same(E.sent, sent + 1), 'parallel: nothing is sent after closing')


class Job(Obj):
    """what the worker is asked, what the environment was asked, and the answers"""

    def __init__(self):
        self.asked = self.answered = self.called = self.closes = self.made = 0
        self.code = 0
        self.data = fresh_obj('data')
        self.obs, self.r, self.d, self.info, self.s = fresh_obj('o'), fresh_real('r'), fresh_bool('d'), fresh_obj('i'), fresh_obj('s')
        self.action_space, self.observation_space, self.spec = fresh_obj('as'), fresh_obj('os'), fresh_obj('spec')


class WorkerEnv(Obj):
    def __init__(self, J):
        self.__dict__['_pvghost_J'] = J
        self.action_space, self.observation_space, self.spec = J.action_space, J.observation_space, J.spec

    def _call(self, code, data=None):
        J = self._pvghost_J
        heap.pure_guard('env')
        check(same(J.code, code), 'worker: only the operation asked for')
        if data is not None:
            check(same(data, J.data), 'worker: with the given data')
        J.called = J.called + 1

    def step(self, a):
        self._call(1, a)
        J = self._pvghost_J
        J.obs, J.r, J.d, J.info = fresh_obj('o'), fresh_real('r'), fresh_bool('d'), fresh_obj('i')
        return J.obs, J.r, J.d, J.info

    def reset(self):
        self._call(2)
        self._pvghost_J.obs = fresh_obj('o')
        return self._pvghost_J.obs

    def seed(self, s=None):
        self._call(3, s)
        self._pvghost_J.s = fresh_obj('s')
        return self._pvghost_J.s

    def close(self):
        heap.pure_guard('env')
        self._pvghost_J.closes = self._pvghost_J.closes + 1


class Conn(Obj):
    def __init__(self, J):
        self.__dict__['_pvghost_J'] = J
        self.closed = False

    def recv(self):
        J = self._pvghost_J
        heap.pure_guard('recv')
        check(same(J.asked, J.answered), 'worker: every command is answered before the next one is read')
        k = choose(7)
        cmd = ['step', 'reset', 'seed', 'get_spaces', 'spec', 'close', 'nonsense'][k]
        J.code, J.data, J.called = k + 1, fresh_obj('data'), 0
        if k < 5:
            J.asked = J.asked + 1
        return cmd, J.data

    def send(self, x):
        J = self._pvghost_J
        heap.pure_guard('send')
        check(same(J.asked, J.answered + 1), 'worker: exactly one answer per command')
        J.answered = J.answered + 1
        want = None
        for code, w, calls in ((1, (J.obs, J.r, J.d, J.info), 1), (2, J.obs, 1), (3, J.s, 1),
                               (4, (J.action_space, J.observation_space), 0), (5, J.spec, 0)):
            if same(J.code, code):
                check(And(same(J.called, calls), same(x, w)), 'worker: answers the result of exactly one operation')
                return
        check(False, 'worker: answer to nothing')

    def close(self):
        heap.pure_guard('close')
        self.closed = True


def p_worker():
    J = root('J', Job())
    conn = root('conn', Conn(J))

    def make():
        J.made = J.made + 1
        return WorkerEnv(J)
    r, _ = raises(NotImplementedError, lambda: W.load(MV).worker(conn, make))
    cover('ended')
    check(And(same(J.made, 1), same(J.closes, 1)), 'worker: one environment is made and closed')
    check(same(J.asked, J.answered), 'worker: every command is answered')
    check(same(J.code, 7 if r else 6), 'worker: ends exactly when told to close (or on an unknown command)')


class LazyStandIn(Obj):
    def __init__(self, frames, stack_axis=2):
        self._pv_frames, self.stack_axis = frames, stack_axis

    def seq(self):
        return to_seq(self._pv_frames)


class Inner(Obj):
    def __init__(self, n):
        self.num_envs = n
        self.action_space = Obj()
        self.observation_space = gymmodel.Box(N.Arr((2, 3), lambda i, j: 0, 'i'), N.Arr((2, 3), lambda i, j: 255, 'i'))
        self.n_step = self.n_reset = 0

    def step(self, a):
        self.n_step += 1
        n = self.num_envs
        self.got = a
        self.res = tuple(PList([fresh_obj('o') for _ in range(n)]) for _ in range(1)) + tuple(
            PList([f('x') for _ in range(n)]) for f in (fresh_real, fresh_bool, fresh_obj))
        return self.res

    def reset(self, mask=None):
        self.n_reset += 1
        self.mask = mask
        self.obs = PList([fresh_obj('o') for _ in range(self.num_envs)])
        return self.obs


def _frame_stack(n):
    m = W.load(VF)
    patch(m, 'LazyFrames', LazyStandIn)
    e = root('e', Inner(n))
    k = fresh_int('k', 1)
    ax = choose(2)
    w = m.VectorFrameStack(e, k, stack_axis=ax)
    check(same(w.observation_space.low.shape[ax], (2, 3)[ax] * k), 'frame stack: the space is k times as deep')
    qs = None
    for v in w.__dict__.values():
        v = list(v.s.items) if isinstance(v, PList) and v.s.items is not None else v
        if isinstance(v, list) and len(v) == n and all(isinstance(x, PDeque) for x in v):
            qs = v
    if qs is None:
        raise Unsupported('no frame queues')
    old = [sym_seq('w%d' % i, 'obj', n=k) for i in range(n)]
    started = choose(2)
    for q, o in zip(qs, old):
        q.s = o if started else Seq(items=[])
    a = fresh_int('a', 0)
    assume(a < k)
    if started and choose(2):
        act = fresh_obj('act')
        got = w.step(act)
        check(And(same(e.n_step, 1), same(e.n_reset, 0), e.got is act), 'frame stack: one step with the given actions')
        check(And(got[1] is e.res[1], got[2] is e.res[2], got[3] is e.res[3]), 'frame stack: rewards, done flags and infos are passed through')
        ob = to_seq(got[0])
        check(same(ob.n, n), 'frame stack: one observation per environment')
        for i in range(n):
            f = ob.at(i).seq()
            check(And(same(f.n, k), same(f.at(a), ite(same(a, k - 1), e.res[0].s.at(i), old[i].at(a + 1)))),
                  'frame stack: the last k observations of each environment, oldest first')
            check(seq_same(to_seq(qs[i]), f), 'frame stack: the remembered frames are the returned ones')
        cover('step')
        return
    mask = None
    if started:
        mask = [None, PList([fresh_bool('m') for _ in range(n)])][choose(2)]
    for i in range(n):
        def d(L, p, i=i):
            ob = e.obs.s.at(i)
            o = old[i] if started else Seq(items=[])
            full = o.concat(Seq(n=L.k, at=lambda q: ob))
            return full.slice(ite(full.n >= k, full.n - k, 0), full.n)
        ctx().defs.append(loops.Def(lambda p: p.endswith('.s'), d))
    r = w.reset() if mask is None and choose(2) else w.reset(mask=mask)
    check(And(same(e.n_reset, 1), same(e.n_step, 0), e.mask is mask), 'frame stack: one reset with the given mask')
    ob = to_seq(r)
    check(same(ob.n, n), 'frame stack: one observation per environment')
    for i in range(n):
        f = ob.at(i).seq()
        keep = False if mask is None else mask.s.at(i)
        check(And(same(f.n, k), same(f.at(a), ite(keep, old[i].at(a), e.obs.s.at(i)))),
              'frame stack: refilled with the first observation whenever and only when reset')
        check(seq_same(to_seq(qs[i]), f), 'frame stack: the remembered frames are the returned ones (reset)')
    cover('reset')


def p_frame_stack_1():
    _frame_stack(1)


def p_frame_stack_2():
    _frame_stack(2)


def p_frame_stack_3():
    _frame_stack(3)


for _f in (p_frame_stack_1, p_frame_stack_2, p_frame_stack_3):
    _f.bounded = 'the number of environments (1, 2 and 3); frames per stack unbounded'

PROOFS = [p_serial_step, p_serial_reset, p_serial_seed, p_serial_misc, p_parallel_step, p_parallel_reset, p_parallel_seed, p_parallel_misc,
          p_worker, p_frame_stack_1, p_frame_stack_2, p_frame_stack_3]


# ---------------------------------------------------------------------------------- concrete companion
def gen_vec(rng):
    impl = rng.choice(['serial', 'serial', 'mp'] if rng.random() < 0.3 else ['serial'])
    n = rng.randint(1, 4 if impl == 'serial' else 3)
    ops = [['reset', rng.choice(['none', 'default']), []]]
    for _ in range(rng.randint(1, 12 if impl == 'serial' else 6)):
        x = rng.random()
        if x < 0.5:
            ops.append(['step', '', [rng.randint(0, 9) for _ in range(n)]])
        elif x < 0.85:
            ops.append(['reset', rng.choice(['list', 'array', 'int', 'none', 'default', 'tuple']), [rng.random() < 0.5 for _ in range(n)]])
        else:
            ops.append(['seed', '', [rng.randint(0, 99) for _ in range(n)]])
    return dict(impl=impl, n=n, ops=ops, k=rng.choice([0, 0, 1, 2, 3, 4]), done=rng.randint(2, 5), salt=rng.randint(0, 5), rank=rng.randint(1, 2))


class _Answers:
    """what environment i answers: a function of its own history only"""

    def __init__(self, i, c):
        self.i, self.c, self.h = i, c, [c['salt'], i]

    def reset(self):
        self.h.append('r')
        return self._ob()

    def step(self, a):
        self.h.append(int(a))
        x = self._code()
        return self._ob(), x / 7.0, x % self.c['done'] == 0, {'code': x, 'env': self.i}

    def seed(self, s):
        self.h.append(('s', s))
        return self._code()

    def _code(self):
        import zlib
        return zlib.crc32(repr(self.h).encode()) % 1009

    def _ob(self):
        x = self._code()
        v = [x, self.i, len(self.h)]
        return np.asarray(v if self.c['rank'] == 1 else [v, v[::-1]], dtype=np.float32)


def run_vec(c):
    import gym
    from gym import spaces
    from chainerrl.envs import SerialVectorEnv, MultiprocessVectorEnv
    from chainerrl.wrappers import VectorFrameStack
    import multiprocessing
    multiprocessing.current_process()._config['daemon'] = False      # the check's own workers are daemonic
    shape = (3,) if c['rank'] == 1 else (2, 3)

    class E(gym.Env):
        def __init__(self, i):
            self.m = _Answers(i, c)
            self.observation_space = spaces.Box(-i - 1., i + 1., shape=shape, dtype=np.float32)
            self.action_space = spaces.Discrete(i + 3)
            self.spec = 'spec%d' % i

        def reset(self):
            return self.m.reset()

        def step(self, a):
            return self.m.step(a)

        def seed(self, s=None):
            return self.m.seed(s)

    n, k = c['n'], c['k']
    models = [_Answers(i, c) for i in range(n)]
    if c['impl'] == 'serial':
        v = SerialVectorEnv([E(i) for i in range(n)])
    else:
        v = MultiprocessVectorEnv([(lambda i=i: E(i)) for i in range(n)])
    base = v
    try:
        if v.num_envs != n or v.action_space.n != 3 or v.observation_space.high.max() != 1 or v.spec != 'spec0':
            return 'spaces or spec are not those of the first environment: spec %r' % (v.spec,)
        if k:
            v = VectorFrameStack(v, k)
            if v.observation_space.shape != (shape[0] * k,) + shape[1:]:
                return 'stacked observation space'
        last = [None] * n
        stack = [None] * n
        for t, (op, kind, arg) in enumerate(c['ops']):
            if op == 'seed':
                v.seed(list(arg))
                for m, s in zip(models, arg):
                    m.seed(s)
                continue
            if op == 'step':
                want = [m.step(a) for m, a in zip(models, arg)]
                got = v.step(list(arg))
                if len(got) != 4 or any(len(x) != n for x in got):
                    return 'step: shape of the results'
                ob, r, d, info = got
                for i in range(n):
                    if r[i] != want[i][1] or bool(d[i]) != bool(want[i][2]) or info[i] != want[i][3]:
                        return 'operation %d: environment %d: %r instead of %r' % (t, i, (r[i], d[i], info[i]), want[i][1:])
                    last[i] = want[i][0]
                    if k:
                        stack[i] = (stack[i] + [last[i]])[-k:]
            else:
                keep = [False] * n if kind in ('none', 'default') else arg
                mask = {'list': list(arg), 'array': np.asarray(arg), 'int': [int(x) for x in arg], 'tuple': tuple(arg), 'none': None,
                        'default': None}[kind]
                ob = v.reset() if kind == 'default' else v.reset(mask)
                for i in range(n):
                    if not keep[i]:
                        last[i] = models[i].reset()
                        if k:
                            stack[i] = [last[i]] * k
            if len(ob) != n:
                return '%s: %d observations for %d environments' % (op, len(ob), n)
            for i in range(n):
                o = np.asarray(ob[i])
                w = np.concatenate(stack[i], axis=0) if k else last[i]
                if o.shape != w.shape or not np.array_equal(o, w):
                    return 'operation %d (%s): observation of environment %d: %r instead of %r' % (t, op, i, o.tolist(), w.tolist())
    finally:
        base.close()
    return None


run_vec.weight = 2
CASES = [('vector environment histories', gen_vec, run_vec)]
