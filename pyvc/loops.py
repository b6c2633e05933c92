"""Loop contracts: cut points, learned frame conditions, Houdini-pruned invariants."""
import os
import sys
import types
from fractions import Fraction
import z3
from . import core, heap
from . import names as pvnames
from .core import (SInt, SReal, SBool, SObj, Sym, Unsupported, PathEnd, And, Or, Not, Implies, ite, same, mk,
                   zint, zreal, zbool, isnum, isintlike, is_sym, fresh_int, ObjSort)
from .heap import Seq, PList, PDict, PSet, seq_same


class RestartAt(core.Restart):
    def __init__(self, prefix):
        self.prefix = prefix


class LoopRec(object):
    def __init__(self, key):
        self.key = key
        self.mods = {}        # path -> template
        self.mode = {}        # path -> list of remaining constructive modes
        self.killed = set()
        self.dead = set()     # (path, mode) refuted
        self.deltas = {}
        self.strong = 0       # how often the contract got stronger
        self.under = ()
        self.appends = {}     # path -> (kconst term, [values]) or None
        self.sums = {}
        self.split = False
        self.known = set()
        self.version = 0
        self.rounds = 0


MISSING = object()


class AbsClass(object):
    """Representation contract of a class: view(obj)->Seq and gen(obj, Seq) sets obj to an arbitrary state with
    that view."""
    registry = {}          # (module, class name) -> (view, gen, extra_fields)


def abstraction_of(o):
    for k in type(o).__mro__:
        a = AbsClass.registry.get((k.__module__, k.__name__))
        if a is not None:
            return a
    return None


def is_inst(o):
    t = type(o)
    return hasattr(o, '__dict__') and (getattr(t, '__module__', '').startswith('chainerrl')
                                       or getattr(o, '__pv_obj__', False)) and not isinstance(o, (type, types.ModuleType))


class Loc(object):
    __slots__ = ('path', 'kind', 'obj', 'key', 'val')

    def __init__(self, path, kind, obj, key, val):
        self.path, self.kind, self.obj, self.key, self.val = path, kind, obj, key, val

    def set(self, v, frame):
        k = self.kind
        if k == 'local':
            frame[self.key] = v
        elif k == 'attr':
            self.obj.__dict__[self.key] = v
        elif k == 'seq':
            self.obj.s = v
        elif k == 'view':
            abstraction_of(self.obj)[1](self.obj, v)
        elif k == 'item':
            self.obj.e[self.key] = v
        elif k == 'arr':
            self.obj.set_content(v)
        else:
            raise Unsupported('set %s' % k)


def capture(f):
    """Everything mutable that the function f can read now: [(object, getter of its state, setter, state)]."""
    out, seen, queue = [], set(), [f]

    def state(o):
        if isinstance(o, types.CellType):
            try:
                return (o.cell_contents,)
            except ValueError:
                return ()
        if isinstance(o, PList):
            return (o.s,)
        if isinstance(o, PDict):
            return (o.base, len(o.e)) + tuple(o.e.items()) + tuple(o.sy)
        if isinstance(o, PSet):
            return (o.base,)
        if hasattr(o, '__pv_arr__'):
            return (o._at, o._shape)
        if type(o) is dict:
            return tuple(o.items())
        if type(o) is list:
            return tuple(o)
        return tuple(o.__dict__.items())

    while queue:
        o = queue.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.MethodType):
            queue.append(o.__self__)
            continue
        if isinstance(o, types.FunctionType):
            if o.__closure__ and '_pv' in (o.__globals__.get('__builtins__') or {}):
                queue.extend(o.__closure__)
            continue
        if isinstance(o, tuple):
            queue.extend(x for x in o if not is_sym(x))
            continue
        if isinstance(o, types.CellType):
            st = state(o)
            queue.extend(x for x in st if not is_sym(x))
        elif isinstance(o, PList):
            st = state(o)
            if o.s.items is not None and len(o.s.items) <= 64:
                queue.extend(x for x in o.s.items if not is_sym(x))
        elif isinstance(o, PDict):
            st = state(o)
            queue.extend(o.e.values())
            queue.extend(v for _, v in o.sy)
        elif isinstance(o, PSet):
            st = state(o)
            queue.append(o.m)
        elif hasattr(o, '__pv_arr__'):
            st = state(o)
            if o.base is not None:
                queue.append(o.base)
        elif type(o) is dict:
            st = state(o)
            if len(o) <= 64:
                queue.extend(x for x in o.values() if not is_sym(x))
        elif type(o) is list:
            st = state(o)
            if len(o) <= 64:
                queue.extend(x for x in o if not is_sym(x))
        elif is_inst(o):
            st = state(o)
            queue.extend(x for k, x in o.__dict__.items() if not is_sym(x) and not k.startswith('_pvghost'))
        else:
            continue
        out.append((o, st))
        if len(out) > 20000:
            raise Unsupported('too much state behind a lazy sequence')
    return out, state


def _same_state(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y:
            if type(x) is tuple and type(y) is tuple and len(x) == 2 and len(y) == 2 and x[0] is y[0] and x[1] is y[1]:
                continue
            if isinstance(x, types.MethodType) and x == y:
                continue
            return False
    return True


def _set_state(o, st):
    if isinstance(o, types.CellType):
        if st:
            o.cell_contents = st[0]
    elif isinstance(o, PList):
        o.s = st[0]
    elif isinstance(o, PDict):
        o.base, n = st[0], st[1]
        o.e = dict(st[2:2 + n])
        o.sy = list(st[2 + n:])
    elif isinstance(o, PSet):
        o.base = st[0]
    elif hasattr(o, '__pv_arr__'):
        o._at, o._shape = st
    elif type(o) is dict:
        o.clear()
        o.update(st)
    elif type(o) is list:
        o[:] = st
    else:
        o.__dict__.clear()
        o.__dict__.update(st)


def frozen(f):
    """f, evaluated in the state of now whenever it is called (elements of lazy sequences)."""
    if f is None:
        return None
    cap, state = capture(f)

    def g(*a):
        moved = []
        for o, st in cap:
            cur = state(o)
            if not _same_state(cur, st):
                moved.append((o, cur, st))
        if not moved:
            return f(*a)
        for o, cur, st in moved:
            _set_state(o, st)
        try:
            return f(*a)
        finally:
            for o, cur, st in moved:
                _set_state(o, cur)
    return g


def snapshot(frame, names, roots):
    """path -> Loc for every location reachable from the frame and the registered roots."""
    out = {}
    seen = {}
    queue = []

    def push(path, v):
        if isinstance(v, (PList, PDict, PSet)) or hasattr(v, '__pv_arr__') or is_inst(v):
            if id(v) not in seen:
                seen[id(v)] = (path, v)
                queue.append((path, v))
        elif isinstance(v, types.MethodType):
            push(path + '.__self__', v.__self__)
        elif isinstance(v, types.FunctionType) and v.__closure__ and id(v) not in seen \
                and '_pv' in (v.__globals__.get('__builtins__') or {}):
            seen[id(v)] = (path, v)
            for nm, c in zip(v.__code__.co_freevars, v.__closure__):
                try:
                    x = c.cell_contents
                except ValueError:
                    continue
                if not is_sym(x):
                    push('%s.%s' % (path, nm), x)
        elif isinstance(v, tuple) or type(v) is list:
            for i, x in enumerate(v):
                if not is_sym(x):
                    push('%s[%d]' % (path, i), x)
        elif type(v) is dict:
            for k, x in v.items():
                push('%s[%r]' % (path, k), x)

    for n in sorted(roots):
        push('R.' + n, roots[n])
    # names assigned in the loop come last: what they refer to keeps the name it has elsewhere
    late = []
    for n in sorted(frame):
        if n.startswith('_pv'):
            continue
        v = frame[n]
        if n in names:
            out['L.' + n] = Loc('L.' + n, 'local', None, n, v)
            late.append(n)
        else:
            push('L.' + n, v)
    while queue or late:
        if not queue:
            for n in late:
                push('L.' + n, frame[n])
            late = []
            continue
        path, o = queue.pop(0)
        ab = abstraction_of(o)
        if ab is not None:
            out[path + '.view'] = Loc(path + '.view', 'view', o, None, ab[0](o))
            for f in ab[2]:
                if f in o.__dict__:
                    out[path + '.' + f] = Loc(path + '.' + f, 'attr', o, f, o.__dict__[f])
        elif isinstance(o, PList):
            out[path + '.s'] = Loc(path + '.s', 'seq', o, None, o.s)
            if o.s.items is not None:
                for i, x in enumerate(o.s.items):
                    push('%s[%d]' % (path, i), x)
        elif isinstance(o, PDict):
            for k in list(o.e):
                p = '%s[%r]' % (path, k)
                out[p] = Loc(p, 'item', o, k, o.e[k])
                push(p, o.e[k])
            out[path + '.keys'] = Loc(path + '.keys', 'keys', o, None, (tuple(o.e), tuple(id(k) for k, _ in o.sy)))
            for i, (k, v) in enumerate(o.sy):
                push('%s.sy%d' % (path, i), v)
        elif isinstance(o, PSet):
            out[path + '.m'] = Loc(path + '.m', 'attr', o, 'm', o.m)
            push(path + '.m', o.m)
        elif hasattr(o, '__pv_arr__'):
            if getattr(o, '__pv_arr__') == 'lazy':
                continue
            out[path + '.a'] = Loc(path + '.a', 'arr', o, None, o.content())
        else:
            for f in sorted(o.__dict__):
                if f.startswith('_pvghost'):
                    continue
                v = o.__dict__[f]
                out[path + '.' + f] = Loc(path + '.' + f, 'attr', o, f, v)
                push(path + '.' + f, v)
    return out, seen


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.items is not None and b.items is not None:
            return len(a.items) == len(b.items) and all(unchanged(x, y) for x, y in zip(a.items, b.items))
        return False
    if hasattr(a, '__pv_unchanged__'):
        return a.__pv_unchanged__(b)
    if is_sym(a) and is_sym(b):
        return type(a) is type(b) and a.t.eq(b.t)
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(unchanged(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (int, float, str, Fraction, bool)):
        return a == b
    return False


# ------------------------------------------------------------------ templates

class Poison(object):
    """Value of a location that holds an object born inside the loop: reading it is outside the fragment."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('use of an object born in an earlier iteration')

    def __call__(self, *a, **k):
        raise Unsupported('use of an object born in an earlier iteration')

    def __pv_tmpl__(self):
        return ('poison',)


class Handle(object):
    """A value of a collaborator class identified by symbolic parts (e.g. environment number i)."""

    def __init__(self, *parts):
        self.__dict__['parts'] = parts

    def __pv_same__(self, o):
        if type(o) is not type(self) or len(o.parts) != len(self.parts):
            return False
        return And([same(x, y) for x, y in zip(self.parts, o.parts)] + [True])

    def __pv_ite__(self, c, o):
        if type(o) is not type(self):
            raise Unsupported('choice between different collaborators')
        return type(self)(*[ite(c, x, y) for x, y in zip(self.parts, o.parts)])

    def __pv_tmpl__(self):
        return ('handle', type(self)) + tuple(tmpl(x, 1) for x in self.parts)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def tmpl(v, depth=0):
    if v is MISSING:
        return ('undef',)
    if v is None:
        return ('none',)
    if isinstance(v, (bool, SBool)):
        return ('bool',)
    if isinstance(v, SInt) or (isinstance(v, int)):
        return ('int',)
    if isinstance(v, (SReal, Fraction)):
        return ('real',)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return ('const', v)
        return ('real',)
    if isinstance(v, SObj):
        return ('obj',)
    if isinstance(v, str):
        return ('const', v)
    if isinstance(v, Seq):
        return ('seq', elem_tmpl(v, depth))
    if isinstance(v, PList):
        return ('list', v.kind, v.maxlen, elem_tmpl(v.s, depth), type(v))
    if isinstance(v, tuple):
        return ('tuple',) + tuple(tmpl(x, depth + 1) for x in v)
    if isinstance(v, PDict):
        if v.sy or v.base is not None:
            raise Unsupported('havoc of a symbolic dict')
        return ('dict', tuple(v.e), tuple(tmpl(x, depth + 1) for x in v.e.values()), v.default_factory)
    if hasattr(v, '__pv_arr_template__'):
        return v.__pv_arr_template__()
    if hasattr(v, '__pv_tmpl__'):
        return v.__pv_tmpl__()
    if is_inst(v) and depth > 0:
        return ('inst', type(v), tuple(sorted(v.__dict__)),
                tuple(tmpl(v.__dict__[k], depth + 1) for k in sorted(v.__dict__)))
    return ('ref', v)


def elem_tmpl(s, depth):
    if depth > 4:
        raise Unsupported('deep template')
    if s.items is not None:
        t = ('empty',)
        for x in s.items:
            t = join(t, tmpl(x, depth + 1))
        return t
    if isinstance(s.n, int) and s.n == 0:
        return ('empty',)
    i = SInt(z3.Int('pvtmpl_i'))
    c = core.CTX
    c.in_quant += 1
    try:
        return tmpl(s.at(i), depth + 1)
    finally:
        c.in_quant -= 1


def join(a, b):
    if a[0] == b[0] and a[0] in ('arr', 'acont'):
        from . import npmodel
        sh = npmodel.join_shape(a[1], b[1])
        if sh is None:
            return ('union', a, b)
        el = join(a[2], b[2])
        if sh is a[1] and el == a[2]:
            return a
        return (a[0], sh, el)
    if a == b:
        return a
    if {a[0], b[0]} == {'poison', 'ref'}:
        return ('poison',)
    if a[0] == 'empty':
        return b
    if b[0] == 'empty':
        return a
    if a[0] == 'undef' or b[0] == 'undef':
        x = b if a[0] == 'undef' else a
        return x if x[0] == 'undefor' else ('undefor', x)
    if a[0] == 'undefor':
        return ('undefor', join(a[1], b[1] if b[0] == 'undefor' else b))
    if b[0] == 'undefor':
        return ('undefor', join(a, b[1]))
    num = {'int', 'real', 'bool'}
    if a[0] in num and b[0] in num:
        if 'real' in (a[0], b[0]):
            return ('real',)
        return ('int',)
    if a[0] == 'union' or b[0] == 'union':
        xs = list(a[1:]) if a[0] == 'union' else [a]
        for y in (list(b[1:]) if b[0] == 'union' else [b]):
            for i, x in enumerate(xs):
                j = join(x, y)
                if j[0] != 'union':
                    xs[i] = j
                    break
            else:
                xs.append(y)
        return ('union',) + tuple(xs)
    if a[0] == b[0] == 'tuple' and len(a) == len(b):
        return ('tuple',) + tuple(join(x, y) for x, y in zip(a[1:], b[1:]))
    if a[0] == b[0] == 'list' and a[1:3] == b[1:3]:
        return ('list', a[1], a[2], join(a[3], b[3]), a[4])
    if a[0] == b[0] == 'handle' and a[1] is b[1] and len(a) == len(b):
        return a[:2] + tuple(join(x, y) for x, y in zip(a[2:], b[2:]))
    if a[0] == b[0] == 'seq':
        return ('seq', join(a[1], b[1]))
    if a[0] == b[0] == 'dict' and a[1] == b[1]:
        return ('dict', a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])), a[3])
    if a[0] == b[0] == 'inst' and a[1:3] == b[1:3]:
        return a[:3] + (tuple(join(x, y) for x, y in zip(a[3], b[3])),)
    return ('union', a, b)


def fresh_of(t, name, idx=()):
    """A fresh value of template t; with idx (z3 Int terms) a function application."""
    c = core.CTX
    k = t[0]

    def leaf(sort, wrap):
        if not idx:
            return wrap(z3.Const(c.name_(name), sort))
        key = ('leaf', name, str(sort))
        f = c.leaffuns.get(key)
        if f is None:
            serial = next((c.born[name[:L]] for L in range(len(name), 0, -1) if name[:L] in c.born), None)
            fn = c.name_(name + '_f')
            if serial is not None:
                # the function belongs to a sequence that exists since then, whenever it is first read
                c.born[fn] = serial
            f = z3.Function(fn, *([z3.IntSort()] * len(idx) + [sort]))
            c.leaffuns[key] = f
        return wrap(f(*idx))
    if k == 'int':
        return leaf(z3.IntSort(), SInt)
    if k == 'real':
        return leaf(z3.RealSort(), SReal)
    if k == 'bool':
        return leaf(z3.BoolSort(), SBool)
    if k == 'obj':
        return leaf(ObjSort, core.obj_of)
    if k == 'none':
        return None
    if k == 'const':
        return t[1]
    if k == 'ref':
        return t[1]
    if k == 'tuple':
        return tuple(fresh_of(x, '%s.%d' % (name, i), idx) for i, x in enumerate(t[1:]))
    if k == 'seq':
        return fresh_seq(t[1], name, idx)
    if k == 'list':
        o = t[4].__new__(t[4])
        o.maxlen = t[2]
        o.s = fresh_seq(t[3], name, idx)
        if t[2] is not None:
            c.assume(o.s.n <= t[2])
        return o
    if k == 'dict':
        d = PDict(default_factory=t[3])
        for kk, tt in zip(t[1], t[2]):
            d.e[kk] = fresh_of(tt, '%s[%r]' % (name, kk), idx)
        return d
    if k == 'inst':
        o = t[1].__new__(t[1])
        for f, tt in zip(t[2], t[3]):
            o.__dict__[f] = fresh_of(tt, name + '.' + f, idx)
        return o
    if k == 'union':
        w = fresh_of(('int',), name + '_alt', idx)
        for i, x in enumerate(t[1:-1]):
            if w == i:
                return fresh_of(x, '%s|%d' % (name, i), idx)
        return fresh_of(t[-1], '%s|%d' % (name, len(t) - 2), idx)
    if k == 'arr':
        from . import npmodel
        return npmodel.fresh_arr(t, name, idx)
    if k == 'acont':
        from . import npmodel
        return npmodel.fresh_arr(t, name, idx).content()
    if k == 'custom':
        return t[1](name, idx)
    if k == 'handle':
        return t[1](*[fresh_of(x, '%s.%d' % (name, i), idx) for i, x in enumerate(t[2:])])
    if k == 'poison':
        return Poison()
    raise Unsupported('fresh value of template %r' % (t,))


def fresh_seq(et, name, idx):
    c = core.CTX
    n = fresh_of(('int',), name + '_n', idx)
    c.assume(n >= 0)
    if et[0] == 'empty':
        return Seq(())
    # element functions are keyed by a serial so that each havoc gets new ones
    c.havocs = getattr(c, 'havocs', 0) + 1
    nm = '%s#%d' % (name, c.name_serial()) if not idx else name + '#'
    if not idx:
        c.born[nm] = len(c.born)
    return Seq(n=n, at=heap.memo_at(lambda i: fresh_of(et, nm, tuple(idx) + (zint(i),))))


# ------------------------------------------------------------------ helpers on values

def subst(v, pairs):
    if is_sym(v):
        return mk(z3.substitute(v.t, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, PList):
        if v.s.items is not None:
            r = v.copy()
            r.s = Seq([subst(x, pairs) for x in v.s.items])
            return r
        s = v.s
        r = v.copy()
        r.s = Seq(n=subst(s.n, pairs), at=lambda i: subst(s.at(i), pairs))
        return r
    if isinstance(v, PDict) and not v.sy and v.base is None:
        d = PDict(default_factory=v.default_factory)
        d.e = {k: subst(x, pairs) for k, x in v.e.items()}
        return d
    if isinstance(v, Handle):
        return type(v)(*[subst(x, pairs) for x in v.parts])
    if v is None or isinstance(v, (int, float, str, Fraction, types.FunctionType)):
        return v
    raise Unsupported('substitution in %r' % type(v))


def consts_of(v, acc):
    if is_sym(v):
        seen = set()
        st = [v.t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() == 0 or d.name() in core.CTX.born):
                    acc.add(d.name())
                st.extend(x.children())
    elif isinstance(v, tuple):
        for x in v:
            consts_of(x, acc)
    elif isinstance(v, PList):
        if v.s.items is not None:
            for x in v.s.items:
                consts_of(x, acc)
        else:
            consts_of(v.s.n, acc)
            consts_of(v.s.at(SInt(z3.Int('pvtmpl_j'))), acc)
            acc.discard('pvtmpl_j')
    elif isinstance(v, PDict):
        if v.sy or v.base is not None:
            raise Unsupported('dict')
        for x in v.e.values():
            consts_of(x, acc)
    elif isinstance(v, Handle):
        for x in v.parts:
            consts_of(x, acc)
    elif v is None or isinstance(v, (int, float, str, Fraction, types.FunctionType)):
        pass
    else:
        raise Unsupported('consts of %r' % type(v))
    return acc


def simple_tmpl(t):
    return t[0] in ('int', 'real', 'bool', 'obj', 'poison') or (t[0] in ('undefor', 'seq') and simple_tmpl(t[1]))


def akind(k):
    return 'arr' if k == 'acont' else k


def own(v, k):
    """An equal value of its own: arrays are mutable, so equal contents never mean the same object."""
    from . import npmodel
    if k == 'acont':
        return v if isinstance(v, npmodel.Content) else v.snapshot().content()
    if k == 'arr':
        c = v if isinstance(v, npmodel.Content) else v.snapshot().content()
        return npmodel.Arr(c.shape, c.at, c.kind)
    return v


def vsame(a, b):
    from . import npmodel
    if isinstance(a, npmodel.Content) or isinstance(b, npmodel.Content):
        if hasattr(a, '__pv_arr__'):
            a = a.content()
        if hasattr(b, '__pv_arr__'):
            b = b.content()
        if not (isinstance(a, npmodel.Content) and isinstance(b, npmodel.Content)):
            return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_same(a, b)
    if hasattr(a, '__pv_content_same__'):
        return a.__pv_content_same__(b)
    if isinstance(a, Seq) or isinstance(b, Seq):
        return False
    return same(a, b)


class LoopView(object):
    """What a harness invariant sees."""

    def __init__(self, loop, get, k):
        self.loop, self._get, self.k = loop, get, k
        self.n = loop.seq.n if loop.seq is not None else None
        self.entry = loop.entry_user
        self.id = loop.q

    def get(self, path):
        v = self._get(path)
        if v is MISSING:
            n = path[2:]
            if path.startswith('L.') and n not in self.loop.names and n in self.loop.frame0:
                return self.loop.frame0[n]      # a local the loop does not assign
            if path.startswith('L.'):
                i = min([len(path)] + [path.index(ch, 2) for ch in '.[' if ch in path[2:]])
                new = pvnames.renamed(self.loop.code, path[2:i])
                if new is not None:
                    return self.get('L.' + new + path[i:])
            raise KeyError(path)
        return v


# ------------------------------------------------------------------ the loop object

class Loop(object):
    def __init__(self, q, no, kind, it, names):
        c = core.CTX
        self.q, self.no, self.kind, self.names = q, no, kind, names
        self.exhausted = False
        self.visits = 0
        self.seq = None
        self.src = None
        self.vals = None
        self.idx = 0
        self.entry_taken = tuple(c.taken)
        fr = sys._getframe(2)
        self.code = fr.f_code
        chain = []
        while fr is not None and len(chain) < 12:
            if '_pv' in fr.f_globals.get('__builtins__', {}) if isinstance(fr.f_globals.get('__builtins__'), dict) else False:
                chain.append((fr.f_code.co_name, fr.f_lineno))
            fr = fr.f_back
        self.key0 = (q, no, tuple(chain))
        self.cut = False
        self.concrete_it = None
        if kind == 'for':
            if heap.is_symseq(it):
                self.seq = heap.to_seq(it)
                if isinstance(it, PList):
                    self.src = (it, it.s)
                if isinstance(it, heap.PSeqIter):
                    it.pos = it.s.n
                self.cut = True
            elif isinstance(it, PList):
                self.src = (it, None)
            else:
                self.concrete_it = iter(heap.iter_native(it))
        if self.key0 in c.cutset:
            self.cut = True
        self.forks0 = getattr(c, 'forks', 0)

    # -- protocol used by the rewritten code
    def head(self, frame):
        c = core.CTX
        c.tick()
        self.visits += 1
        if not self.cut:
            if self.kind == 'while' and self.visits > 2 and not getattr(c, 'nocut', False):
                f = getattr(c, 'forks', 0)
                if f > self.forks0 + 1 or self.visits > 200 or c.loopforks.get(self.key0, 0) > 2:
                    self._cut_now()
            if self.visits > 3000:
                raise Unsupported('loop too long')
            return False
        if self.visits == 1:
            self._enter(frame)
            return True
        self._backedge(frame)
        raise PathEnd()

    def _cut_now(self):
        c = core.CTX
        c.cutset.add(self.key0)
        raise RestartAt(self.entry_taken)

    def has(self, name):
        return name in self.vals

    def get(self, name):
        return self.vals[name]

    def more(self):
        if self.cut:
            if self.seq is not None:
                if (self.k < self.seq.n):
                    return True
                self.exhausted = True
                self._exit()
                return False
            raise Unsupported('cut concrete for')
        if self.src is not None:
            lst = self.src[0]
            it = lst.s.force()
            if it is None:
                raise Unsupported('list became symbolic during iteration')
            if self.idx < len(it):
                self.cur = it[self.idx]
                self.idx += 1
                return True
            self.exhausted = True
            return False
        try:
            self.cur = next(self.concrete_it)
            return True
        except StopIteration:
            self.exhausted = True
            return False

    def next(self):
        if self.cut:
            if self.src is not None and self.src[0].s is not self.src[1]:
                raise Unsupported('sequence modified while iterated')
            return self.seq.at(self.k)
        return self.cur

    def test(self, f):
        c = core.CTX
        if not self.cut:
            before = getattr(c, 'forks', 0)
            r = bool(f())
            if getattr(c, 'forks', 0) != before:
                self._cut_now()
        else:
            r = bool(f())
        if not r:
            self.exhausted = True
            if self.cut:
                self._exit()
        return r

    def _exit(self):
        c = core.CTX
        if c.active and c.active[-1] is self.rec:
            c.active.pop()

    # -- cut machinery
    def _rec(self):
        c = core.CTX
        key = (self.key0, self.entry_taken, tuple((id(r), r.version) for r in c.active))
        r = c.loops.get(key)
        if r is None:
            r = c.loops[key] = LoopRec(key)
            c.keepalive.extend(c.active)
            # an enclosing contract got weaker: what was refuted under the stronger one stays refuted
            wk = (self.key0, self.entry_taken, tuple(id(x) for x in c.active))
            w = c.warm.get(wk)
            if w is not None:
                r.mods = {p: t for p, t in w.mods.items() if simple_tmpl(t) and p not in w.appends and p not in w.sums}
                strong = tuple(x.strong for x in c.active)
                if w.under == strong:
                    r.killed, r.dead = set(w.killed), set(w.dead)
                r.deltas = {p: set(d) for p, d in w.deltas.items() if p in r.mods or p[:-1] in r.mods}
            r.under = tuple(x.strong for x in c.active)
            c.warm[wk] = r
        return r

    def _enter(self, frame):
        c = core.CTX
        # decisions taken while evaluating the iterable happened before construction; entry point is here
        self.entry_taken = tuple(c.taken)
        if len(c.active) > 6:
            raise Unsupported('deeply nested cut loops')
        self.rec = self._rec()
        rec = self.rec
        self.frame_names = set(frame) | set(self.names)
        self.frame0 = dict(frame)
        S0, _ = snapshot(frame, self.names, c.roots)
        self.S0 = {p: l.val for p, l in S0.items()}
        self.entry_user = [f() for f in c.entryfuns]
        nserial = len(c.born)
        self.entry_sat = (not c.infer) and c.sat() == 'sat'
        self.k = fresh_int('k', 0)
        kname = str(self.k.t)
        if self.seq is not None:
            c.assume(self.k <= self.seq.n)
        self.born_entry = nserial
        vals = {}
        # first iteration split
        mods = rec.mods
        undef = [p for p, t in mods.items() if t[0] == 'undefor']
        first = False
        # candidates must hold on entry, proved before anything is assumed about the head state
        # (when the first iteration is split off, facts are only assumed after at least one iteration)
        split = bool(undef or rec.split or c.split_all or self.kind == 'while')
        if not split:
            self._prune(self._cands(lambda p: self.S0.get(p, MISSING), 0), 'holds on entry', True)
        self._construct_check_entry()
        if split:
            if (self.k == 0):
                first = True
        if not first and mods:
            if split:
                pass
            new = self._construct(self.k)
            locs = S0
            # set parents before children: sort by path length
            for p in sorted(new, key=lambda x: (x.count('.') + x.count('['), x)):
                v = new[p]
                if p.startswith('L.') and p.count('.') == 1 and '[' not in p:
                    vals[p[2:]] = v
                    frame[p[2:]] = v
                else:
                    if p not in locs:
                        raise Unsupported('modified location %s not present at loop entry' % p)
                    locs[p].set(v, frame)
        Sh, _ = snapshot(frame, self.names, c.roots)
        self.Sh = {p: l.val for p, l in Sh.items()}
        self.first = first
        if not first:
            hd = self._cands(lambda p: self.Sh.get(p, MISSING), self.k)
            new_names = set(nm for nm, _ in hd) - rec.known
            if new_names:
                rec.known |= new_names
                self._changed()
            for nm, cond in hd:
                c.assume(cond)
            if not split and not c.infer and c.sat(self.k.t == 0) == 'unsat' and self.entry_sat:
                raise Unsupported('contradictory loop contract at %s' % self.q)
        if first:
            c.assume(self.k == 0)
        c.active.append(rec)
        self.vals = vals

    # constructive values for every modified location at iteration count k
    def _modes(self, p, t):
        rec = self.rec
        if p in rec.mode:
            return rec.mode[p]
        c = core.CTX
        k = t[0]
        v0 = self.S0.get(p, MISSING)
        modes = []
        if k == 'undefor':
            if t[1][0] in ('int', 'real', 'bool', 'obj', 'arr'):
                modes += [('eq', q) for q in self._earlier(p, t[1][0])]
            rec.mode[p] = [m for m in modes if (p, m) not in rec.dead] + [('fresh',)]
            return rec.mode[p]
        for d in c.defs:
            if d.matches(p):
                modes.append(('def', d))
        if k == 'int':
            modes += [('delta',)]
            modes += [('diff', q) for q in self._earlier(p, 'int')]
        elif k == 'real':
            modes += [('eq', q) for q in self._earlier(p, 'real')]
            modes += [('sum',)]
        elif k in ('bool', 'obj', 'tuple'):
            modes += [('eq', q) for q in self._earlier(p, k)]
        elif k in ('seq', 'arr', 'acont'):
            modes += [('eq', q) for q in self._earlier(p, k)]
            if k == 'seq':
                modes += [('append',), ('suffix',), ('prefix',), ('samelen',)]
        modes = [m for m in modes if m[0] == 'def' or (p, m) not in rec.dead] + [('fresh',)]
        rec.mode[p] = modes
        return modes

    def _order(self):
        # ghost roots first, so that code locations are expressed through ghosts
        return sorted(self.rec.mods, key=lambda p: (not p.startswith('R.'), p))

    def _earlier(self, p, kind):
        out = []
        for q in self._order():
            if q == p:
                break
            if akind(self.rec.mods[q][0]) == akind(kind):
                if akind(kind) == 'arr':
                    tp = self.rec.mods[p]
                    if (tp[1] if tp[0] == 'undefor' else tp)[2] != self.rec.mods[q][2]:
                        continue
                out.append(q)
        return out[:40]

    def _usable(self, p, mode):
        m = mode[0]
        rec = self.rec
        if m == 'delta':
            d = rec.deltas.get(p)
            return d is not None and len(d) == 1
        if m in ('eq', 'diff'):
            q = mode[1]
            if q not in rec.mods:
                return False
            if rec.mods[p][0] == 'undefor':
                return akind(rec.mods[q][0]) == akind(rec.mods[p][1][0])
            if akind(rec.mods[q][0]) != akind(rec.mods[p][0]):
                return False
            a, b = self.S0.get(p, MISSING), self.S0.get(q, MISSING)
            if a is MISSING or b is MISSING:
                return False
            if m == 'eq':
                r = vsame(a, b)
                if r is True:
                    return True
                if r is False:
                    return False
                return core.CTX.prove(r, 1500)[0] == 'unsat'
            return isnum(a) and isnum(b)
        if m == 'append':
            return rec.appends.get(p) is not None
        if m == 'sum':
            return rec.sums.get(p) is not None
        return True

    def _mode(self, p, t):
        ms = self._modes(p, t)
        while not self._usable(p, ms[0]):
            ms.pop(0)
        return ms[0]

    def _resolve(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == 'at':
                if t[1] in self.rec.mods or t[1] not in self.S0:
                    raise Unsupported('alias of %s' % t[1])
                return ('ref', self.S0[t[1]])
            if t[0] in ('undefor', 'union', 'tuple'):
                return (t[0],) + tuple(self._resolve(x) for x in t[1:])
        return t

    def _construct(self, k):
        c = core.CTX
        rec = self.rec
        new = {}
        for p in self._order():
            t = self._resolve(rec.mods[p])
            v0 = self.S0.get(p, MISSING)
            if t[0] == 'undefor':
                # defined from the first iteration on: the relation is checked at every back edge only
                m = self._mode(p, t)
                new[p] = own(new[m[1]], t[1][0]) if m[0] == 'eq' else fresh_of(t[1], 'h_' + p)
                continue
            m = self._mode(p, t)
            new[p] = self._make(p, t, m, v0, k, lambda q: new[q])
        return new

    def _make(self, p, t, m, v0, k, getq):
        c = core.CTX
        rec = self.rec
        if m[0] == 'delta':
            (d,) = rec.deltas[p]
            return v0 + d * k
        if m[0] == 'diff':
            q = m[1]
            return getq(q) + (v0 - self.S0[q])
        if m[0] == 'eq':
            return own(getq(m[1]), t[0])
        if m[0] == 'sum':
            kc, e = rec.sums[p]
            from . import sums
            return v0 + sums.partial(kc, e, k)
        if m[0] == 'def':
            return m[1].make(LoopView(self, getq, k), p)
        if m[0] == 'append':
            kc, es = rec.appends[p]
            m_ = len(es)

            def at(i):
                if m_ == 1:
                    return subst(es[0], [(kc, zint(i))])
                q, r = core.intdiv(i, m_)
                v = subst(es[-1], [(kc, zint(q))])
                for j in range(m_ - 2, -1, -1):
                    v = ite(r == j, subst(es[j], [(kc, zint(q))]), v)
                return v
            return v0.concat(Seq(n=m_ * k, at=heap.memo_at(at)))
        if m[0] == 'suffix':
            n1 = self._flen(p, k)
            n0 = v0.n
            return v0.slice(n0 - n1, n0)
        if m[0] == 'prefix':
            n1 = self._flen(p, k)
            return v0.slice(0, n1)
        if m[0] == 'samelen':
            f = fresh_of(t, 'h_' + p)
            if f.items is not None:
                return f
            return Seq(n=v0.n, at=f.at)
        return fresh_of(t, 'h_' + p)

    def _flen(self, p, k):
        c = core.CTX
        n0 = self.S0[p].n
        d = self.rec.deltas.get(p + '#')
        if d is not None and len(d) == 1:
            (dd,) = d
            n1 = n0 + dd * k
            c.assume(n1 >= 0)       # a length
            return n1
        n1 = fresh_int('h_len_' + p, 0)
        c.assume(n1 <= n0)
        return n1

    def _construct_check_entry(self):
        """'eq' modes were checked when chosen; harness definitions are checked here."""
        rec = self.rec
        for p in self._order():
            t = rec.mods[p]
            if t[0] == 'undefor':
                continue
            m = self._mode(p, t)
            if m[0] == 'def':
                v = m[1].make(LoopView(self, lambda q: self.S0[q], 0), p)
                self._mode_check(p, vsame(self.S0[p], v), 'definition of %s on loop entry' % p, True)

    def _mode_check(self, p, cond, what, now=False):
        c = core.CTX
        rec = self.rec
        if cond is True:
            return
        st = c.prove(cond, 4000)[0] if cond is not False else 'sat'
        if st != 'unsat':
            if os.environ.get('PYVC_LOOP'):
                print('LOOP', self.q, self.no, 'drop', p, rec.mode[p][0], st, file=sys.stderr)
            m0 = rec.mode[p].pop(0)
            if m0[0] not in ('append', 'sum', 'def'):
                rec.dead.add((p, m0))
            if m0[0] == 'append':
                rec.appends[p] = None
            elif m0[0] == 'sum':
                rec.sums.pop(p, None)
            if now:
                self._changed()
            self.pending = True
        elif not c.infer:
            c.count_inv(self)

    def _changed(self):
        c = core.CTX
        rec = self.rec
        rec.version += 1
        rec.rounds += 1
        if rec.rounds > 150:
            raise Unsupported('loop contract inference does not converge at %s' % self.q)
        raise RestartAt(self.entry_taken)

    def _learn(self, p, t, v0):
        rec = self.rec
        old = rec.mods.get(p)
        # None before the loop and a value after every iteration: like a name first bound in the loop
        nothing = v0 is MISSING or (v0 is None and (t[0] in ('int', 'real', 'bool', 'obj', 'arr') or t[0] == 'undefor'))
        new = join(join(old, t) if old is not None else t, ('undef',) if nothing else tmpl(v0))
        if new != old:
            if os.environ.get('PYVC_LOOP'):
                print('LOOP', self.q, self.no, 'learn', p, new, file=sys.stderr)
            rec.mods[p] = new
            if old is None:
                # a new ghost or variable: others may be expressible through it
                rec.mode = {q: ms for q, ms in rec.mode.items() if any(m[0] == 'def' for m in ms)}
            rec.mode.pop(p, None)
            return True
        return False

    def _backedge(self, frame):
        c = core.CTX
        rec = self.rec
        S1l, seen1 = snapshot(frame, self.names, c.roots)
        S1 = {p: l.val for p, l in S1l.items()}
        changed = False
        self._changed_soft = False
        # modified references to heap objects: the object itself is havocked through the reference
        for p, v in S1.items():
            h = self.Sh.get(p, MISSING)
            if h is not MISSING and unchanged(h, v):
                continue
            l = S1l[p]
            parent_mod = any(p.startswith(q + s) for q in rec.mods for s in ('.', '[')) and p not in rec.mods
            if parent_mod:
                continue
            if l.kind == 'keys':
                raise Unsupported('keys of a dict change inside a cut loop (%s)' % p)
            if h is MISSING and l.kind not in ('local',):
                # reachable only through something that changed
                if l.kind == 'attr' and p.rsplit('.', 1)[0] in [x.rsplit('.', 1)[0] for x in self.Sh]:
                    raise Unsupported('new attribute %s inside a cut loop' % p)
                continue
            tv = self._ref_tmpl(p, l, seen1)
            v0 = self.S0.get(p, MISSING)
            if self._learn(p, tv, v0):
                changed = True
                # numeric deltas from the unhavocked run
            self._delta(p, h, v)
        if changed:
            self._changed()
        for p in list(rec.mods):
            if p in S1 and p in self.Sh:
                self._delta(p, self.Sh[p], S1[p])
        if self._changed_soft:
            self._changed()
        # template conformance
        for p, t in rec.mods.items():
            if p in S1:
                tv = self._ref_tmpl(p, S1l[p], seen1)
                j = join(t, tv)
                if j != t:
                    rec.mods[p] = j
                    rec.mode.pop(p, None)
                    changed = True
            elif t[0] not in ('undefor',):
                if p.startswith('L.') and p.count('.') == 1:
                    rec.mods[p] = join(t, ('undef',))
                    changed = True
        if changed:
            self._changed()
        k1 = self.k + 1
        self.pending = False
        # constructive modes
        for p in self._order():
            t = rec.mods[p]
            if p not in S1:
                if t[0] == 'undefor':
                    rec.mode[p] = [('fresh',)]
                continue
            m = self._mode(p, t)
            v = S1[p]
            v0 = self.S0.get(p)
            if m[0] == 'fresh':
                continue
            if m[0] == 'delta':
                (d,) = rec.deltas[p]
                self._mode_check(p, same(v, v0 + d * k1), m)
            elif m[0] == 'diff':
                self._mode_check(p, same(v - S1[m[1]], v0 - self.S0[m[1]]), m)
            elif m[0] == 'eq':
                self._mode_check(p, vsame(v, S1[m[1]]), m)
            elif m[0] in ('append', 'sum', 'def'):
                w = self._make(p, t, m, v0, k1, lambda q: S1[q])
                self._mode_check(p, vsame(v, w), m)
            elif m[0] == 'suffix':
                self._mode_check(p, And(v.n <= v0.n, seq_same(v, v0.slice(v0.n - v.n, v0.n)))
                                 if c.prove(v.n <= v0.n, 2000)[0] == 'unsat' else False, m)
                d = rec.deltas.get(p + '#')
                if d is not None and len(d) == 1:
                    if not c.prove(same(v.n, v0.n + list(d)[0] * k1), 2000)[0] == 'unsat':
                        rec.deltas[p + '#'] = set()
                        self._changed()
            elif m[0] == 'prefix':
                self._mode_check(p, seq_same(v, v0.slice(0, v.n))
                                 if c.prove(v.n <= v0.n, 2000)[0] == 'unsat' else False, m)
                d = rec.deltas.get(p + '#')
                if d is not None and len(d) == 1:
                    if not c.prove(same(v.n, v0.n + list(d)[0] * k1), 2000)[0] == 'unsat':
                        rec.deltas[p + '#'] = set()
                        self._changed()
            elif m[0] == 'samelen':
                self._mode_check(p, same(v.n, v0.n), m)
        if self.pending:
            self._changed()
        self._prune(self._cands(lambda p: S1.get(p, MISSING), k1), 'preserved', True)

    def _ref_tmpl(self, p, l, seen):
        return self._scrub(self._ref_tmpl0(p, l, seen))

    def _scrub(self, t):
        """Array dimensions that depend on values born inside the loop are unknown at the head."""
        from . import npmodel
        if isinstance(t, tuple) and t and t[0] in ('arr', 'acont'):
            sh = tuple(d if self._stable(d) else None for d in t[1].shape)
            if all((a is b) for a, b in zip(sh, t[1].shape)):
                return t
            return (t[0], npmodel.ShapeRef(sh), t[2])
        if isinstance(t, tuple) and any(isinstance(x, tuple) for x in t):
            return tuple(self._scrub(x) if isinstance(x, tuple) else x for x in t)
        return t

    def _stable(self, d):
        if not is_sym(d):
            return True
        c = core.CTX
        for nm in consts_of(d, set()):
            s = c.born.get(nm)
            if s is None or s >= self.born_entry:
                return False
        return True

    def _ref_tmpl0(self, p, l, seen):
        v = l.val
        if l.kind in ('local', 'attr', 'item') and (isinstance(v, (PList, PDict)) or is_inst(v)):
            path, _ = seen.get(id(v), (p, v))
            h = self.Sh.get(p, MISSING)
            q = None
            for x in [path] + ([x for x, y in self.Sh.items() if y is v] if path == p else []):
                if x != p and x not in self.rec.mods and x in self.S0 and self.S0[x] is v:
                    q = x
                    break
            if q is not None:
                return ('at', q)        # the object another, unmodified location refers to
            if h is v:
                return ('ref', v)
            if path != p and not is_inst(v):
                return ('alias', path)
            if is_inst(v) and abstraction_of(v) is None and not any(x is v for x in self.Sh.values()) \
                    and path not in self.Sh:
                return ('poison',)
        return tmpl(v)

    def _delta(self, p, h, v):
        rec = self.rec
        c = core.CTX
        if isinstance(h, Seq) and isinstance(v, Seq):
            try:
                d = v.n - h.n
            except Exception:
                d = None
            key = p + '#'
            if key not in rec.deltas:
                rec.deltas[key] = {d} if isinstance(d, int) else set()
            # appended elements
            if isinstance(d, int) and 0 < d <= 6 and not self.first:
                es = []
                ok = True
                names = set()
                try:
                    for j in range(d):
                        e = v.at(h.n + j)
                        consts_of(e, names)
                        es.append(e)
                except Unsupported:
                    ok = False
                kn = str(self.k.t)
                for nm in names:
                    if nm == kn:
                        continue
                    s = c.born.get(nm)
                    if s is None or s >= self.born_entry:
                        ok = False
                if ok:
                    prev = rec.appends.get(p)
                    if prev is None and rec.appends.get((p, 'tries'), 0) < 4:
                        rec.appends[(p, 'tries')] = rec.appends.get((p, 'tries'), 0) + 1
                        rec.appends[p] = (self.k.t, es)
                        rec.strong += 1
                        if os.environ.get('PYVC_LOOP'):
                            print('LOOP', self.q, self.no, 'append', p, es, [getattr(e, 't', None) for e in es], rec.mode.get('R.b.draws'), file=sys.stderr)
                        if p in rec.mode and ('append',) not in rec.mode[p]:
                            rec.mode[p].insert(0, ('append',))
                        self._changed_soft = True
            return
        if isnum(h) and isnum(v) and not core._inf(h) and not core._inf(v):
            d = v - h
            if isinstance(d, Fraction) and d.denominator == 1:
                d = int(d)
            if isintlike(h) and isintlike(v):
                if p not in rec.deltas:
                    rec.deltas[p] = {d} if isinstance(d, int) and not isinstance(d, bool) else set()
            else:
                if p not in rec.sums and not self.first:
                    rec.sums[p] = None
                    try:
                        names = consts_of(d, set())
                        kn = str(self.k.t)
                        tries = rec.sums.get((p, 'tries'), 0)
                        if tries < 4 and all(nm == kn or (c.born.get(nm) is not None and c.born[nm] < self.born_entry)
                                             for nm in names):
                            rec.sums[p] = (self.k.t, d)
                            rec.strong += 1
                            rec.sums[(p, 'tries')] = tries + 1
                            if p in rec.mode and ('sum',) not in rec.mode[p]:
                                rec.mode[p].insert(0, ('sum',))
                            self._changed_soft = True
                    except Unsupported:
                        pass

    # -- candidate facts
    def _cands(self, get, k):
        """Alive (name, cond) for the state `get` at iteration count k."""
        c = core.CTX
        rec = self.rec
        out = []

        def emit(nm, f):
            if nm in rec.killed:
                return
            try:
                cond = f()
            except (Unsupported, TypeError, KeyError, AttributeError):
                rec.killed.add(nm)
                return
            if cond is None:
                return
            out.append((nm, cond))
        ints = []
        for p in self._order():
            t = rec.mods[p]
            v0 = self.S0.get(p, MISSING)
            v = get(p)
            if t[0] in ('int', 'real') and isnum(v0) and isnum(v):
                emit('ge0 ' + p, lambda: v >= v0)
                emit('le0 ' + p, lambda: v <= v0)
                if t[0] == 'int':
                    ints.append((p, v))
                    emit('nonneg ' + p, lambda: v >= 0)
            if t[0] in ('seq',) and isinstance(v, Seq) and isinstance(v0, Seq):
                emit('len>= ' + p, lambda: v.n >= v0.n)
                d = rec.deltas.get(p + '#')
                if d is not None and len(d) == 1:
                    emit('len+%r ' % (list(d)[0],) + p, lambda: same(v.n, v0.n + list(d)[0] * k))
                ints.append((p + '#', v.n))
                if isinstance(v0.n, int) and isinstance(v.n, int) and v0.n == v.n <= 2 and t[1] == ('int',):
                    ints += [('%s@%d' % (p, i), v.at(i)) for i in range(v.n)]
            if t[0] == 'bool' and isinstance(v, (bool, SBool)):
                emit('true ' + p, lambda: v)
                emit('false ' + p, lambda: Not(v))
        us = self._ubounds(k)
        for p, v in ints:
            for un, u in us:
                if un == p:
                    continue
                emit('%s <= %s' % (p, un), lambda: v <= u)
                emit('%s < %s' % (p, un), lambda: v < u)
                emit('%s >= %s' % (p, un), lambda: v >= u)
        if len(ints) <= 8:
            for i in range(len(ints)):
                for j in range(len(ints)):
                    if i != j:
                        (p, a), (q, b) = ints[i], ints[j]
                        emit('%s <= %s' % (p, q), lambda: a <= b)
                        if i < j:
                            p0, q0 = self._v0(p), self._v0(q)
                            if p0 is not None and q0 is not None:
                                emit('%s + %s' % (p, q), lambda: same(a + b, p0 + q0))
                                emit('%s - %s' % (p, q), lambda: same(a - b, p0 - q0))
        for f in c.invfuns:
            L = LoopView(self, get, k)
            try:
                d = f(L)
            except (KeyError, AttributeError, TypeError, Unsupported) as e:
                if os.environ.get('PYVC_LOOP'):
                    print('LOOP invfun failed', self.q, self.no, type(e), e, file=sys.stderr)
                continue
            for nm, cond in (d or {}).items():
                emit('harness ' + nm, lambda: cond)
        return out

    def _v0(self, p):
        if p.endswith('#'):
            v = self.S0.get(p[:-1])
            return v.n if isinstance(v, Seq) else None
        if p[-2:] in ('@0', '@1'):
            return self.S0[p[:-2]].at(int(p[-1]))
        return self.S0.get(p)

    def _ubounds(self, k):
        c = core.CTX
        if not hasattr(self, '_us'):
            us = []
            for p, v in self.S0.items():
                if hasattr(v, '__pv_unchanged__'):
                    for d, x in enumerate(v.shape):
                        if isinstance(x, SInt):
                            us.append(('%s.dim%d' % (p, d), x))
                    continue
                if p in self.rec.mods:
                    if isintlike(v) and not isinstance(v, (bool, SBool)):
                        pass
                    continue
                if isinstance(v, SInt):
                    us.append((p, v))
                elif isinstance(v, Seq) and isinstance(v.n, SInt):
                    us.append((p + '#', v.n))
            if self.seq is not None and isinstance(self.seq.n, SInt):
                us.append(('n', self.seq.n))
            uniq, seen = [], set()
            for p, v in us:
                if v.t.get_id() not in seen:
                    seen.add(v.t.get_id())
                    uniq.append((p, v))
            self._us = uniq[:12]
        return self._us

    def _prune(self, cands, what, complete=False):
        c = core.CTX
        rec = self.rec
        if complete:
            lost = rec.known - rec.killed - set(n for n, _ in cands)
            if lost:
                # assumed at the head but not expressible here: not an invariant
                if os.environ.get('PYVC_LOOP'):
                    print('LOOP', self.q, self.no, what, 'not expressible', sorted(lost), file=sys.stderr)
                rec.killed |= lost
                self._changed()
        todo = [(n, cond) for n, cond in cands if cond is not True]
        if not todo:
            return
        killed = False
        dead = [n for n, cond in todo if cond is False]
        todo = [(n, cond) for n, cond in todo if cond is not False]
        while todo:
            conj = And([x for _, x in todo])
            if conj is True:
                break
            c.tick()
            c.solver.set('timeout', 3000)
            r = str(c.solver.check(z3.Not(zbool(conj))))
            c.queries += 1
            if r == 'unsat':
                break
            if r == 'sat':
                m = c.solver.model()
                d2 = [n for n, x in todo if z3.is_false(m.eval(zbool(x), model_completion=True))]
                if os.environ.get('PYVC_LOOP') == '3':
                    for n, x in todo:
                        if n in d2 and n.startswith('harness'):
                            print('   kill', self.no, n, x, file=sys.stderr)
                            for p in c.solver.assertions():
                                print('     as', p, file=sys.stderr)
                            print('   model', m, file=sys.stderr)
                if not d2:
                    d2 = self._each(todo)
                dead += d2
                todo = [(n, x) for n, x in todo if n not in set(d2)]
            else:
                d2 = self._each(todo)
                dead += d2
                todo = [(n, x) for n, x in todo if n not in set(d2)]
                break
        if dead:
            if os.environ.get('PYVC_LOOP'):
                print('LOOP', self.q, self.no, what, 'kill', dead, file=sys.stderr)
            rec.killed.update(dead)
            self._changed()
        elif not c.infer:
            c.count_inv(self, len(todo))

    def _each(self, todo):
        c = core.CTX
        out = []
        for n, x in todo:
            r = c.prove(x, 4000 if n.startswith('harness') else 800)
            if r[0] != 'unsat':
                if os.environ.get('PYVC_LOOP') and n.startswith('harness'):
                    print('   each', n, r[0], r[2][:700], file=sys.stderr)
                    if os.environ['PYVC_LOOP'] == '2':
                        print('   goal', x, file=sys.stderr)
                        for p in c.pc:
                            print('     pc', p, file=sys.stderr)
                out.append(n)
        return out


class Def(object):
    """Harness-supplied constructive content of a location."""

    def __init__(self, match, make):
        self.m, self.mk = match, make

    def matches(self, p):
        return self.m(p) if callable(self.m) else self.m == p

    def make(self, L, p):
        return self.mk(L, p)
