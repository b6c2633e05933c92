"""C28 Saving and loading an agent round-trips every declared attribute."""
from props.lib import *
from pyvc import models, chmodel
from pyvc.load import SFmt
LEVEL = 'proof'
LEVEL_NOTE = ('any number of declared attributes, each None, a serialisable object, a nested agent with any number of attributes of its own, or a '
              'reference back to the object itself; deeper nesting (three levels, cycles through two and three objects) is bounded')
TRUSTED = ['chainer.serializers.save_npz/load_npz/NpzDeserializer store and restore the contents of the object they are given',
           'os.makedirs(exist_ok=True) and os.path.join behave as documented']
AG = 'chainerrl.agent'


class Files(object):
    """the file operations, told to the store of the current harness"""

    def save_npz(self, path, obj, compression=True):
        heap.pure_guard('save_npz')
        ctx().store.touch(path, obj, True)

    def load_npz(self, path, obj, path_='', strict=True, ignore_names=None):
        heap.pure_guard('load_npz')
        ctx().store.touch(path, obj, False)

    def deserializer(self, npz, path='', strict=True, ignore_names=None):
        return ctx().store.deserializer(npz, strict)


def mods():
    d = chmodel.add(models.base_models())
    f = Files()
    ser = models.Mod('chainer.serializers', save_npz=f.save_npz, load_npz=f.load_npz, NpzDeserializer=f.deserializer)
    d['chainer'].__dict__['serializers'] = ser
    d['chainer.serializers'] = ser
    return d


W = world('files', models=mods)
NONE, LEAF, CHILD, SELF = range(4)


class Leaf(loops.Handle):
    """the object held by attribute i (level 0), or by attribute j of the nested agent at i (level 1)"""

    def __pv_tmpl__(self):
        return ('poison',)


class Store(Obj):
    """Operations on the files of an arbitrary attribute (g, and g2 if it is nested) are counted, all others are checked."""

    def __init__(self, top, saving):
        self._pvghost_top, self.saving = top, saving
        self.cnt = self.cnt2 = 0
        self.made = self.made_g = False
        self.refused = False

    def touch(self, path, obj, saving):
        t = self._pvghost_top
        check(saving == self.saving, 'saving writes and loading reads')
        if not isinstance(obj, Leaf):
            unreachable('only serialisable attributes have files')
            return
        lvl, i, j = obj.parts
        check(Or(not saving, self.made), 'the directory exists before its files are written')
        if same(lvl, 0):
            check(same(path, SFmt(['dir/', t.nm(i), '.npz'])), 'the file of an attribute is named after it inside the directory')
            check(And(i >= 0, i < t.n, same(t.kind(i), LEAF)), 'only declared attributes that are not None have files')
            self.cnt = self.cnt + ite(same(i, t.g), 1, 0)
        else:
            check(same(path, SFmt(['dir/', t.nm(i), '/', t.nm2(i, j), '.npz'])), 'the file of a nested attribute is in the sub-directory named after it')
            check(And(i >= 0, i < t.n, same(t.kind(i), CHILD), j >= 0, j < t.n2(i), same(t.kind2(i, j), LEAF)),
                  'only declared attributes of nested agents that are not None have files')
            if saving:
                check(Implies(same(i, t.g), self.made_g), 'the sub-directory exists before its files are written')
            self.cnt2 = self.cnt2 + ite(And(same(i, t.g), same(j, t.g2)), 1, 0)

    # the fs model: directories
    def makedirs(self, path, exist_ok=False, **k):
        heap.pure_guard('makedirs')
        t = self._pvghost_top
        check(self.saving, 'loading makes no directories')
        check(exist_ok is True, 'an existing directory is accepted')
        if isinstance(path, str):
            check(path == 'dir', 'only the given directory and sub-directories of nested agents are made')
            self.made = True
            return
        ps = path.parts if isinstance(path, SFmt) else []
        ok = len(ps) == 2 and ps[0] == 'dir/' and core.is_sym(ps[1])
        check(ok, 'only the given directory and sub-directories of nested agents are made')
        if ok:
            i = t.of(ps[1])
            check(And(same(t.nm(i), ps[1]), same(t.kind(i), CHILD)), 'sub-directories only for nested agents')
            self.made_g = Or(self.made_g, same(i, t.g))

    def exists(self, path):
        return fresh_bool('exists')


def classes():
    M = W.load(AG).AttributeSavingMixin

    class Names(object):
        def __init__(self):
            c = ctx()
            self.F = {k: fun(k, *s) for k, s in dict(
                nm=(z3.IntSort(), ObjSort), of=(ObjSort, z3.IntSort()), kind=(z3.IntSort(), z3.IntSort()), n2=(z3.IntSort(), z3.IntSort()),
                nm2=(z3.IntSort(), z3.IntSort(), ObjSort), of2=(ObjSort, z3.IntSort()), kind2=(z3.IntSort(), z3.IntSort(), z3.IntSort())).items()}

    class Top(M):
        """an agent with n declared attributes"""
        __module__ = 'pv'

        def pv_init(self):
            f = Names().F
            self.__dict__['_pvghost_f'] = f
            self.n = fresh_int('n', 0)
            self.g, self.g2 = fresh_int('g', 0), fresh_int('g2', 0)
            self.__dict__['_pvghost_children'] = {}

        @property
        def saved_attributes(self):
            return PList(seq=Seq(n=self.n, at=heap.memo_at(self.nm)))

        def nm(self, i):
            f = self._pvghost_f
            t = f['nm'](zint(i))
            if not ctx().in_quant:
                ctx().add(f['of'](t) == zint(i))
            return core.obj_of(t)

        def of(self, k):
            return mk(self._pvghost_f['of'](k.t))

        def kind(self, i):
            k = mk(self._pvghost_f['kind'](zint(i)))
            return k

        def n2(self, i):
            k = mk(self._pvghost_f['n2'](zint(i)))
            if not ctx().in_quant:
                assume(k >= 0)
            return k

        def nm2(self, i, j):
            f = self._pvghost_f
            t = f['nm2'](zint(i), zint(j))
            if not ctx().in_quant:
                ctx().add(f['of2'](t) == zint(j))
            return core.obj_of(t)

        def kind2(self, i, j):
            return mk(self._pvghost_f['kind2'](zint(i), zint(j)))

        def __pv_hasattr__(self, k):
            return True if core.is_sym(k) else hasattr(self, k)

        def __pv_getattr__(self, k, *d):
            if not core.is_sym(k):
                return getattr(self, k, *d)
            i = self.of(k)
            check(And(i >= 0, i < self.n, same(self.nm(i), k)), 'only declared attributes are looked at')
            kd = self.kind(i)
            if same(kd, NONE):
                return None
            if same(kd, LEAF):
                return Leaf(0, i, 0)
            if same(kd, CHILD):
                key = zint(i).get_id()
                ch = self._pvghost_children
                if key not in ch:
                    ctx().keepalive.append(zint(i))
                    ch[key] = Child.__new__(Child)
                    ch[key].__dict__['_pvghost_top'], ch[key].__dict__['_pvghost_i'] = self, i
                return ch[key]
            ctx().store.refused = True
            return self

    class Child(M):
        __module__ = 'pv'

        def __pv_tmpl__(self):
            return ('poison',)

        @property
        def saved_attributes(self):
            t, i = self._pvghost_top, self._pvghost_i
            return PList(seq=Seq(n=t.n2(i), at=heap.memo_at(lambda j: t.nm2(i, j))))

        def __pv_hasattr__(self, k):
            return True if core.is_sym(k) else hasattr(self, k)

        def __pv_getattr__(self, k, *d):
            if not core.is_sym(k):
                return getattr(self, k, *d)
            t, i = self._pvghost_top, self._pvghost_i
            j = mk(t._pvghost_f['of2'](k.t))
            check(And(j >= 0, j < t.n2(i), same(t.nm2(i, j), k)), 'only declared attributes are looked at')
            if same(t.kind2(i, j), LEAF):
                return Leaf(1, i, j)
            return None
    return Top, Child


def whole(saving):
    Top, Child = classes()
    t = Top.__new__(Top)
    t.pv_init()
    root('top', t)
    s = ctx().store = ctx().fs = root('store', Store(t, saving))
    leaf_g = same(t.kind(t.g), LEAF)
    leaf_g2 = And(same(t.kind(t.g), CHILD), same(t.kind2(t.g, t.g2), LEAF), t.g2 < t.n2(t.g))
    for k in (t.kind(t.g), t.kind2(t.g, t.g2)):
        assume(And(k >= 0, k <= 3))

    def inv(L):
        try:
            c1, c2 = L.get('R.store.cnt'), L.get('R.store.cnt2')
        except KeyError:
            c1, c2 = s.cnt, s.cnt2
        d = {}
        try:
            mg = L.get('R.store.made_g')
        except KeyError:
            mg = s.made_g
        d['own files so far'] = same(c1, ite(And(t.g < L.k, leaf_g), 1, 0))
        d['nested files so far'] = same(c2, ite(And(t.g < L.k, leaf_g2), 1, 0))
        ch = L.loop.frame0.get('self')
        if ch is not None and getattr(ch, '_pvghost_i', None) is not None:
            mine = And(same(ch._pvghost_i, t.g), t.g2 < L.k, leaf_g2)
            d['files of this nested agent'] = same(c2, ite(same(ch._pvghost_i, t.g), ite(mine, 1, 0), ite(And(t.g < ch._pvghost_i, leaf_g2), 1, 0)))
        if saving:
            d['sub-directory'] = Implies(And(t.g < L.k, same(t.kind(t.g), CHILD)), mg)
        if ch is t:
            d['no reference to itself so far'] = Implies(t.g < L.k, Not(same(t.kind(t.g), SELF)))
        return d
    ctx().invfuns.append(inv)
    bad, _ = raises(AssertionError, lambda: (t.save if saving else t.load)('dir'))
    if bad:
        cover('refused')
        check(s.refused, 'an assertion error only for a cycle')
        return
    cover('done')
    check(Implies(t.g < t.n, Not(same(t.kind(t.g), SELF))), 'a reference to the object itself is refused')
    check(Or(not saving, s.made), 'the directory is made even when nothing is saved')
    if t.g < t.n:
        check(same(s.cnt, ite(leaf_g, 1, 0)), 'exactly one file per declared attribute that is not None')
        check(same(s.cnt2, ite(leaf_g2, 1, 0)), 'exactly one file per declared attribute of a nested agent that is not None')
        if saving:
            check(Implies(same(t.kind(t.g), CHILD), s.made_g), 'one sub-directory per nested agent')


def p_save():
    whole(True)


def p_load():
    whole(False)


class Log(object):
    def __init__(self):
        self.files, self.dirs = [], []

    def touch(self, path, obj, saving):
        self.files.append((path, obj))

    def makedirs(self, path, exist_ok=False, **k):
        check(exist_ok is True, 'tree: an existing directory is accepted')
        self.dirs.append(path)


def tree(saving):
    """agents x (attributes a, b), y (a, c), z (a): every assignment of None, an object or any of the agents"""
    M = W.load(AG).AttributeSavingMixin

    class X(M):
        saved_attributes = ('a', 'b')

    class Y(M):
        saved_attributes = ['a', 'c']

    class Z(M):
        saved_attributes = ('a',)
    x, y, z = X.__new__(X), Y.__new__(Y), Z.__new__(Z)
    ags = [x, y, z]
    done = set()

    def fill(o):
        if id(o) in done:
            return
        done.add(id(o))
        for nm in o.saved_attributes:
            k = choose(5)
            v = None if k == 0 else (Leaf(0, fresh_int('leaf'), 0) if k == 1 else ags[k - 2])
            setattr(o, nm, v)
            if k >= 2:
                fill(v)
    fill(x)
    files, dirs, cyc = [], [], [False]

    def walk(o, path, anc):
        dirs.append(path)
        for nm in o.saved_attributes:
            v = getattr(o, nm)
            if v is None or cyc[0]:
                continue
            if isinstance(v, Leaf):
                files.append((path + '/' + nm + '.npz', v))
            elif any(v is q for q in anc + [o]):
                cyc[0] = True
            else:
                walk(v, path + '/' + nm, anc + [o])
    walk(x, 'dir', [])
    s = ctx().store = ctx().fs = Log()
    bad, _ = raises(AssertionError, lambda: (x.save if saving else x.load)('dir'))
    check(bad == cyc[0], 'tree: refused iff some agent contains itself')
    if bad:
        return
    check(sorted(p for p, _ in files) == sorted(p for p, _ in s.files), 'tree: exactly the files of the declared attributes')
    check(all(any(p == q and v is w for q, w in s.files) for p, v in files), 'tree: each with its own contents')
    check(sorted(set(s.dirs)) == (sorted(dirs) if saving else []), 'tree: exactly the directories of the nested agents')
    if not saving:
        # a second load works as well
        n = len(s.files)
        x.load('dir')
        check(len(s.files) == 2 * n, 'tree: loading again works')


def p_tree_save():
    tree(True)


def p_tree_load():
    tree(False)


for _f in (p_tree_save, p_tree_load):
    _f.bounded = 'three agents with two, two and one attributes, every assignment'


class Strict(object):
    """a file written before the optimizer had state: strict loading fails"""

    def __init__(self):
        self.calls = []

    def touch(self, path, obj, saving):
        self.calls.append(('load', path, obj))
        raise KeyError('state')

    def deserializer(self, npz, strict):
        me = self

        class D(object):
            def load(self, obj):
                me.calls.append(('nonstrict', npz, strict, obj))
        return D()


def p_not_strict():
    s = ctx().store = Strict()
    m = W.load(AG)

    class F(object):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    f = F()

    class NP(object):
        def load(self, path):
            s.calls.append(('open', path))
            return f
    patch(m, 'numpy', NP())
    o = Leaf(0, 0, 0)
    m.load_npz_no_strict('some/file.npz', o)
    check(len(s.calls) == 3, 'not strict: one strict attempt, then the same file is opened and loaded')
    check(s.calls[0] == ('load', 'some/file.npz', o), 'not strict: strict loading first')
    check(s.calls[1] == ('open', 'some/file.npz'), 'not strict: the same file')
    check(s.calls[2][1] is f and s.calls[2][2] is False and s.calls[2][3] is o, 'not strict: into the same object, ignoring missing entries')


PROOFS = [p_save, p_load, p_tree_save, p_tree_load, p_not_strict]


# ---- companion: real serialisation into scratch directories
def gen_t(rng):
    def agent(depth):
        d = {}
        for nm in rng.sample(['model', 'target', 'opt', 'x', 'child', 'other'], rng.randrange(0, 5)):
            k = rng.choice(['none', 'link', 'link', 'opt', 'agent', 'agent', 'shared'] if depth < 3 else ['none', 'link', 'opt', 'shared'])
            d[nm] = agent(depth + 1) if k == 'agent' else k
            if k == 'link':
                d[nm] = ['link', rng.choice([1, 2, 5]), rng.choice(['w', 'weight'])]
        return {'attrs': d, 'tuple': rng.random() < .5}
    return {'tree': agent(0), 'cycle': rng.choice([None, None, None, 1, 2, 3]), 'real': rng.choice([None, None, 'dqn']), 'seed': rng.randrange(10 ** 6),
            'exists': rng.random() < .3, 'updates': rng.randrange(0, 3)}


def run_t(c):
    import os
    import sys
    import shutil
    import tempfile
    import warnings
    import chainer
    import numpy as np
    from chainerrl.agent import AttributeSavingMixin
    rs = np.random.RandomState(c['seed'])

    def build(t, vals, whole=None):
        # whole: the objects built so far (an object may be reached by several paths)
        whole = [] if whole is None else whole

        class A(AttributeSavingMixin):
            saved_attributes = tuple(t['attrs']) if t['tuple'] else list(t['attrs'])
        a = A()
        for nm, k in t['attrs'].items():
            if k == 'none':
                v = None
            elif k == 'shared':
                v = whole[-1] if whole else None
            elif isinstance(k, dict):
                v = build(k, vals, whole)
                whole.append(v)
            else:
                v = chainer.Link()
                with v.init_scope():
                    setattr(v, k[2] if k != 'opt' else 'w', chainer.Parameter(np.zeros(k[1] if k != 'opt' else 2, dtype=np.float32)))
                if vals:
                    for p in v.params():
                        p.array[...] = rs.uniform(-1, 1, p.shape)
                if k == 'opt':
                    o = chainer.optimizers.Adam().setup(v)
                    if vals:
                        for _ in range(c['updates']):
                            for p in v.params():
                                p.grad = rs.uniform(-1, 1, p.shape).astype(np.float32)
                            o.update()
                    v = o
                if c['seed'] % 2:
                    whole.append(v)
            setattr(a, nm, v)
        return a

    def files(a, pre):
        out = {}
        for nm in a.saved_attributes:
            v = getattr(a, nm)
            if isinstance(v, AttributeSavingMixin):
                out[pre + nm] = None
                out.update(files(v, pre + nm + '/'))
            elif v is not None:
                out[pre + nm + '.npz'] = v
        return out

    def contents(v):
        if isinstance(v, chainer.Optimizer):
            d = {'t': v.t}
            for n, p in v.target.namedparams():
                for k, x in (p.update_rule.state or {}).items():
                    if np.any(x):       # (an optimizer before its first update has no or zero states)
                        d[n + k] = np.array(x)
            return d
        return {n: np.array(p.array) for n, p in v.namedparams()}

    def eq(x, y):
        return sorted(x) == sorted(y) and all(np.array_equal(x[k], y[k]) for k in x)

    top = tempfile.mkdtemp(prefix='pv28')
    lim = sys.getrecursionlimit()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = os.path.join(top, 'a', 'b')
            if c['exists']:
                os.makedirs(d)
            if c['cycle']:
                ags = []
                for i in range(c['cycle']):
                    class A(AttributeSavingMixin):
                        saved_attributes = ('child',)
                    ags.append(A())
                for i, a in enumerate(ags):
                    a.child = ags[(i + 1) % len(ags)]
                for nm in ('save', 'load'):
                    sys.setrecursionlimit(300)
                    try:
                        getattr(ags[0], nm)(d)
                        return 'cycle of %d is not refused on %s' % (len(ags), nm)
                    except AssertionError:
                        pass
                    except RecursionError:
                        return 'cycle of %d is not refused on %s (endless recursion)' % (len(ags), nm)
                    finally:
                        sys.setrecursionlimit(lim)
                return None
            if c['real'] == 'dqn':
                import chainerrl
                from chainerrl import agents, explorers, replay_buffer, q_functions

                def mk_(vals):
                    q = q_functions.FCStateQFunctionWithDiscreteAction(2, 3, n_hidden_channels=4, n_hidden_layers=1)
                    o = chainer.optimizers.Adam().setup(q)
                    a = agents.DQN(q, o, replay_buffer.ReplayBuffer(100), 0.9, explorers.Greedy(), replay_start_size=40, phi=lambda x: x.astype(np.float32))
                    if vals:
                        for m in (a.model, a.target_model):
                            for p in m.params():
                                p.array[...] = rs.uniform(-1, 1, p.shape)
                        for _ in range(c['updates']):
                            for p in q.params():
                                p.grad = rs.uniform(-1, 1, p.shape).astype(np.float32)
                            o.update()
                    return a
                a, b = mk_(True), mk_(False)
            else:
                a, b = build(c['tree'], True), build(c['tree'], False)
            want = files(a, '')
            before = {k: contents(v) for k, v in want.items() if v is not None}
            a.save(d)
            got = set()
            for r, ds, fs in os.walk(d):
                for x in ds + fs:
                    got.add(os.path.relpath(os.path.join(r, x), d))
            if got != set(want):
                return 'saved %r instead of %r' % (sorted(got), sorted(want))
            if os.listdir(top) != ['a'] or os.listdir(os.path.join(top, 'a')) != ['b']:
                return 'something was written outside the directory'
            b.load(d)
            after = files(b, '')
            for k, x in before.items():
                if not eq(contents(want[k]), x):
                    return 'saving or loading changed %s of the saved agent' % k
                if not eq(contents(after[k]), x):
                    return 'loading does not restore %s' % k
            b.load(d)
    finally:
        sys.setrecursionlimit(lim)
        shutil.rmtree(top)
    return None


CASES = [('trees of agents', gen_t, run_t)]
