"""Model of numpy arrays with symbolic shape and symbolic elements. Calls whose arguments are all concrete go to the
real numpy. Floats are mathematical reals. Trusted."""
import types
from fractions import Fraction
import numpy as np
import z3
from . import core, heap
from .core import (SInt, SReal, SBool, SObj, Sym, Unsupported, And, Or, Not, Implies, ite, same, mk, zint, zreal,
                   zbool, isnum, isintlike, is_sym, fresh_int)
from .heap import Seq, PList, PDict


def to_real(x):
    if isinstance(x, (SInt, SBool)):
        return mk(zreal(x))
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float) and x == x and x not in (float('inf'), float('-inf')):
        return core.frac(x)
    return x


def to_int(x):
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (SReal, Fraction, float)):
        return heap.pv_int(x)
    return x


def to_bool(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, (SInt, SReal)):
        return mk(x.t != 0)
    if x is None:
        return False
    if isnum(x):
        return bool(x)
    return x


def kind_of_dtype(dt):
    """'f','i','b','O' or None."""
    if dt is None:
        return None
    dt = heap.UNMAP.get(dt, dt) if isinstance(dt, (type, types.FunctionType)) else dt
    if isinstance(dt, DType):
        return dt.kind
    try:
        k = np.dtype(dt).kind
    except TypeError:
        raise Unsupported('dtype %r' % (dt,))
    return {'u': 'i'}.get(k, k)


def cast(x, k):
    if hasattr(x, '__pv_num__'):
        x = x.__pv_num__()
    if k == 'f':
        return to_real(x)
    if k == 'i':
        return to_int(x)
    if k == 'b':
        return to_bool(x)
    return x


def kind_of(x):
    if isinstance(x, Arr):
        return x.kind
    if isinstance(x, (bool, SBool, np.bool_)):
        return 'b'
    if isintlike(x):
        return 'i'
    if isnum(x):
        return 'f'
    if hasattr(x, '__pv_kind__'):
        return x.__pv_kind__()
    return 'O'


class DType(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.kind
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype(%s)' % self.name

    def type(self, v=0):
        return cast(v, self.kind)


DT = {'f': DType('f', 'float32'), 'i': DType('i', 'int32'), 'b': DType('b', 'bool'), 'O': DType('O', 'object')}


class Content(object):
    __slots__ = ('shape', 'at', 'kind')

    def __init__(self, shape, at, kind='f'):
        self.shape, self.at, self.kind = shape, at, kind

    def __pv_unchanged__(self, o):
        return isinstance(o, Content) and self.at == o.at and len(self.shape) == len(o.shape) and \
            all(dim_same(x, y) for x, y in zip(self.shape, o.shape))

    def __pv_arr_template__(self):
        return ('acont', ShapeRef(self.shape), elem_template(self.kind))

    def __pv_content_same__(self, o):
        return content_same(self, o)


class ShapeRef(object):
    """A shape inside a template; None = unknown dimension. Compared by identity."""

    def __init__(self, shape):
        self.shape = tuple(shape)

    def __repr__(self):
        return 'shape%s' % (self.shape,)


def dim_same(x, y):
    if x is None or y is None:
        return x is y
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if is_sym(x) and is_sym(y):
        return x.t.eq(y.t)
    return False


def join_shape(a, b):
    """-> ShapeRef (a itself when nothing changes) or None for different ranks"""
    if len(a.shape) != len(b.shape):
        return None
    sh = tuple(x if dim_same(x, y) else None for x, y in zip(a.shape, b.shape))
    if all(dim_same(x, y) for x, y in zip(sh, a.shape)):
        return a
    return ShapeRef(sh)


def elem_template(kind):
    return {'f': ('real',), 'i': ('int',), 'b': ('bool',), 'O': ('obj',)}[kind]


def fresh_arr(t, name, idx):
    """t = ('arr', ShapeRef, elem)"""
    from . import loops
    c = core.CTX
    shape = []
    for d, x in enumerate(t[1].shape):
        if x is None:
            x = loops.fresh_of(('int',), '%s_d%d' % (name, d), idx)
            c.assume(x >= 0)
        shape.append(x)
    nm = '%s#%d' % (name, c.name_serial())
    kind = {'real': 'f', 'int': 'i', 'bool': 'b'}.get(t[2][0], 'O')
    return Arr(shape, memo_nd(lambda *ix: loops.fresh_of(t[2], nm, tuple(idx) + tuple(zint(i) for i in ix))), kind)


def content_same(a, b):
    if len(a.shape) != len(b.shape):
        return False
    sh = And([same(x, y) for x, y in zip(a.shape, b.shape)] + [True])
    idx = []
    rng = []
    for d in a.shape:
        if isinstance(d, int) and d == 0:
            return sh
    conc = all(isinstance(d, int) for d in a.shape)
    size = 1
    if conc:
        for d in a.shape:
            size *= d
    if conc and size <= 64:
        out = [sh]
        for ix in np.ndindex(*a.shape):
            out.append(same(a.at(*ix), b.at(*ix)))
        return And(out + [True])
    for d in a.shape:
        i = fresh_int('ska')
        idx.append(i)
        rng += [i >= 0, i < d]
    body = same(a.at(*idx), b.at(*idx))
    return And(sh, Implies(And(rng), body))


class Arr(object):
    """Mutable array. `base`/`maps` make it a view: maps[d] is ('fix', i) or ('off', lo) per base dimension, and
    newaxis dims are not views."""
    __pv_arr__ = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, at, kind='f', base=None, maps=None):
        self._shape = tuple(shape)
        self._at = at
        self.kind = kind
        self.base, self.maps = base, maps

    # content --------------------------------------------------
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DT[self.kind]

    def content(self):
        if self.base is not None:
            return Content(self._shape, self.at, self.kind)
        return Content(self._shape, self._at, self.kind)

    def set_content(self, c):
        if self.base is not None:
            raise Unsupported('havoc of an array view')
        self._shape, self._at = c.shape, c.at

    def at(self, *idx):
        if self.base is not None:
            return self.base.at(*self._map(idx))
        return self._at(*idx)

    def _map(self, idx):
        out, j = [], 0
        for m in self.maps:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                i = idx[j]
                j += 1
                out.append(i if (isinstance(m[1], int) and m[1] == 0) else i + m[1])
        return out

    def assign(self, cond_val):
        """cond_val(idx) -> (cond, value): new content where cond holds."""
        heap.pure_guard('array store')
        if self.base is not None:
            b, maps, shape = self.base, self.maps, self._shape

            def cv(bidx):
                cs, idx, j = [], [], 0
                for d, m in enumerate(maps):
                    if m[0] == 'fix':
                        cs.append(same(bidx[d], m[1]))
                    else:
                        i = bidx[d] - m[1]
                        cs += [i >= 0, i < shape[j]]
                        idx.append(i)
                        j += 1
                c = And(cs + [True])
                if c is False:
                    return False, None
                c2, v = cond_val(tuple(idx))
                return And(c, c2), v
            b.assign(cv)
            return
        old, k = self._at, self.kind

        def at(*idx):
            c, v = cond_val(idx)
            if c is True:
                return cast(v, k)
            if c is False:
                return old(*idx)
            return ite(c, cast(v, k), old(*idx))
        self._at = memo_nd(at)

    # sequence view --------------------------------------------
    def __pv_seq__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        if self.ndim == 1:
            return Seq(n=self._shape[0], at=lambda i: self.at(i))
        return Seq(n=self._shape[0], at=lambda i: self.row(i))

    def row(self, i):
        return Arr(self._shape[1:], None, self.kind, base=self._root(), maps=self._compose([('fix', i)] + [('off', 0)] * (self.ndim - 1)))

    def _root(self):
        return self if self.base is None else self.base

    def _compose(self, maps):
        """maps over own dims -> maps over the root's dims."""
        if self.base is None:
            return maps
        out, j = [], 0
        for m in self.maps:
            if m[0] == 'fix':
                out.append(m)
            else:
                m2 = maps[j]
                j += 1
                if m2[0] == 'fix':
                    out.append(('fix', m2[1] + m[1]))
                else:
                    out.append(('off', m2[1] + m[1]))
        return out

    def __pv_len__(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __len__(self):
        return core.concretize(self.__pv_len__())

    def __iter__(self):
        s = self.__pv_seq__().force()
        if s is None:
            raise Unsupported('native iteration over a symbolic-length array')
        return iter(s)

    def __pv_isinstance__(self, ks):
        return any(k in (Arr, np.ndarray, object) for k in ks)

    # indexing -------------------------------------------------
    def _parse(self, key):
        """-> list of per-dim selectors"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            key[i:i + 1] = [slice(None)] * (self.ndim - n)
        return key

    def __getitem__(self, key):
        if isinstance(key, Arr) and key.kind == 'b':
            return self._mask_get(key)
        if isinstance(key, (list, PList, np.ndarray)):
            key = asarray(key)
            if isinstance(key, Arr) and key.kind == 'b':
                return self._mask_get(key)
        key = self._parse(key)
        adv = [k for k in key if isinstance(k, (Arr, PList, list, np.ndarray))]
        if adv:
            return self._fancy(key)
        a = self
        maps, shape, newax = [], [], False
        d = 0
        for k in key:
            if k is None:
                newax = True
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    if k.step == -1 and k.start is None and k.stop is None and len(key) == 1:
                        me = self.snapshot()
                        nn = n
                        return Arr(self._shape, lambda i, *r: me.at(nn - 1 - i, *r), self.kind)
                    raise Unsupported('array slice step')
                lo = heap.clampidx(k.start, n, 0)
                hi = heap.clampidx(k.stop, n, n)
                ln = hi - lo
                if not isinstance(ln, int):
                    ln = ite(ln < 0, 0, ln) if core.CTX.known(ln >= 0) is not True else ln
                else:
                    ln = max(0, ln)
                maps.append(('off', lo))
                shape.append(ln)
            else:
                i = heap.norm_index(k, n, 'index out of bounds')
                maps.append(('fix', i))
            d += 1
        while d < self.ndim:
            maps.append(('off', 0))
            shape.append(self._shape[d])
            d += 1
        if not newax and not shape:
            return self.at(*[m[1] for m in maps])
        v = Arr(shape, None, self.kind, base=self._root(), maps=self._compose(maps))
        if newax:
            out, pos, j = [], [], 0
            for k in key:
                if k is None:
                    out.append(1)
                    pos.append(None)
                elif isinstance(k, slice):
                    out.append(shape[j])
                    pos.append(j)
                    j += 1
            while j < len(shape):
                out.append(shape[j])
                pos.append(j)
                j += 1
            sn = v.snapshot()
            return Arr(out, lambda *ix: sn.at(*[ix[q] for q, p in enumerate(pos) if p is not None]), self.kind)
        return v

    def _mask_get(self, mask):
        """Filtered copy: its length and order are abstracted, each element is some selected element."""
        c = core.CTX
        n = fresh_int('nsel', 0)
        c.assume(n <= self._shape[0])
        f = z3.Function(c.name_('sel'), z3.IntSort(), z3.IntSort())
        me, mk_ = self.snapshot(), mask.snapshot()

        def at(i, *r):
            j = mk(f(zint(i)))
            if not c.in_quant:
                c.assume(Implies(And(i >= 0, i < n), And(j >= 0, j < self._shape[0], mk_.at(j))))
            return me.at(j, *r)
        return Arr((n,) + self._shape[1:], at, self.kind)

    def _fancy(self, key):
        if len(key) > self.ndim:
            raise IndexError('too many indices')
        key = key + [slice(None)] * (self.ndim - len(key))
        me = self.snapshot()
        idx = [asarray(k) if isinstance(k, (Arr, PList, list, np.ndarray)) else k for k in key]
        arrs = [k for k in idx if isinstance(k, (Arr, np.ndarray))]
        for k in idx:
            if isinstance(k, slice) and k != slice(None):
                raise Unsupported('mixed fancy indexing')
        arrs = [lift(a) for a in arrs]
        sh = arrs[0].shape
        for a in arrs[1:]:
            sh = bshape(sh, a.shape)
        rest = [self._shape[d] for d, k in enumerate(idx) if isinstance(k, slice)]
        first = [d for d, k in enumerate(idx) if not isinstance(k, slice)]
        # numpy: the broadcast dimensions replace adjacent indices in place and come first otherwise
        pos = first[0] if first == list(range(first[0], first[0] + len(first))) else 0
        r = len(sh)

        def at(*ix):
            o, j = [], 0
            ai, ri = ix[pos:pos + r], list(ix[:pos] + ix[pos + r:])
            for d, k in enumerate(idx):
                if isinstance(k, slice):
                    o.append(ri.pop(0))
                elif isinstance(k, (Arr, np.ndarray)):
                    v = bat(lift(k), ai)
                    n = self._shape[d]
                    if isinstance(v, int) and isinstance(n, int):
                        if not -n <= v < n:
                            raise IndexError('index out of bounds')
                        v = v % n
                    else:
                        v = ite(v < 0, v + n, v)
                    o.append(v)
                else:
                    o.append(heap.norm_index(k, self._shape[d]))
            return me.at(*o)
        return Arr(tuple(rest[:pos]) + tuple(sh) + tuple(rest[pos:]), at, self.kind)

    def __setitem__(self, key, val):
        if isinstance(key, (PList, list, np.ndarray)):
            key = asarray(key)
        if isinstance(key, np.ndarray):
            key = lift(key)
        if isinstance(key, Arr):
            if key.kind == 'b':
                m = key.snapshot()
                v = val if not isinstance(val, (Arr, PList)) else None
                if v is None:
                    raise Unsupported('masked store of an array')
                self.assign(lambda ix: (to_bool(bat(m, ix[:m.ndim])), v))
                return
            raise Unsupported('fancy store')
        key = self._parse(key)
        if any(isinstance(k, (Arr, PList, list, np.ndarray)) for k in key):
            return self._fancy_store(key, val)
        maps, shape, d = [], [], 0
        for k in key:
            if k is None:
                raise Unsupported('newaxis store')
            n = self._shape[d]
            if isinstance(k, slice):
                lo = heap.clampidx(k.start, n, 0)
                hi = heap.clampidx(k.stop, n, n)
                if k.step not in (None, 1):
                    raise Unsupported('store step')
                maps.append(('off', lo))
                shape.append(hi - lo)
            else:
                maps.append(('fix', heap.norm_index(k, n, 'index out of bounds')))
            d += 1
        while d < self.ndim:
            maps.append(('off', 0))
            shape.append(self._shape[d])
            d += 1
        view = Arr(shape, None, self.kind, base=self._root(), maps=self._compose(maps))
        view.fill_from(val)

    def _fancy_store(self, key, val):
        """a number stored at a list of indices along one axis"""
        at = [d for d, k in enumerate(key) if isinstance(k, (Arr, PList, list, np.ndarray))]
        if len(at) != 1 or len(key) > self.ndim or isinstance(val, (Arr, PList, list, np.ndarray)):
            raise Unsupported('fancy store')
        if any(d != at[0] and k != slice(None) for d, k in enumerate(key)):
            raise Unsupported('fancy store')
        k = key[at[0]]
        s = heap.to_seq(k) if isinstance(k, (PList, list)) else None
        if s is None:
            a = lift(k).snapshot()
            if a.ndim != 1 or a.kind not in 'i':
                raise Unsupported('fancy store')
            s = heap.Seq(n=a.shape[0], at=a.at)
        m = heap.Members(s, self._shape[at[0]])
        self.assign(lambda ix: (m.has(ix[at[0]]), val))

    def fill_from(self, val):
        if isinstance(val, (PList, list, np.ndarray, tuple)):
            val = asarray(val)
        if isinstance(val, (Arr, np.ndarray)):
            s = lift(val).snapshot()
            bshape(self._shape, s.shape)
            self.assign(lambda ix: (True, bat(s, ix)))
        else:
            self.assign(lambda ix: (True, val))

    def fill(self, v):
        self.assign(lambda ix: (True, v))

    def snapshot(self):
        if self.base is not None:
            b, at = self.base, self.base._at
            maps = self.maps
            me = self

            def f(*ix):
                return at(*me._map(ix))
            return Arr(self._shape, f, self.kind)
        return Arr(self._shape, self._at, self.kind)

    # methods --------------------------------------------------
    def copy(self, *a, **k):
        return self.snapshot()
    __copy__ = copy

    def astype(self, dt, copy=True):
        k = kind_of_dtype(dt)
        s = self.snapshot()
        return Arr(self._shape, lambda *ix: cast(s.at(*ix), k), k)

    def item(self):
        return self.at(*([0] * self.ndim))

    def tolist(self):
        return PList(seq=self.__pv_seq__().map(lambda x: x.tolist() if isinstance(x, Arr) else x))

    def __pv_scalar__(self):
        if all(isinstance(d, int) and d == 1 for d in self._shape):
            return self.item()
        if core.CTX.known(And([same(d, 1) for d in self._shape] + [True])) is True:
            return self.item()
        raise TypeError('only size-1 arrays can be converted to scalars')

    def __bool__(self):
        return bool(self.__pv_scalar__())

    flat_of = None

    def ravel(self, *a):
        return self.reshape(-1)

    def flatten(self, *a):
        return self.snapshot().reshape(-1)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, PList, list)):
            shape = tuple(heap.iter_native(shape[0]))
        r = reshape(self, shape)
        if self.ndim == 2 and r.ndim == 1:
            r.flat_of = self
        return r

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    @property
    def T(self):
        s = self.snapshot()
        return Arr(self._shape[::-1], lambda *ix: s.at(*ix[::-1]), self.kind)

    def transpose(self, *axes):
        return transpose(self, axes if axes else None)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'sum', axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return reduce_(self, 'mean', axis, keepdims)

    def max(self, axis=None, keepdims=False):
        return reduce_(self, 'max', axis, keepdims)

    def min(self, axis=None, keepdims=False):
        return reduce_(self, 'min', axis, keepdims)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def all(self, axis=None):
        return reduce_(self, 'all', axis, False)

    def any(self, axis=None):
        return reduce_(self, 'any', axis, False)

    def __pv_tmpl__(self):
        return ('arr', ShapeRef(self._shape), elem_template(self.kind))

    def __pv_arr_template__(self):
        return self.__pv_tmpl__()

    def __pv_same__(self, o):
        if isinstance(o, np.ndarray):
            o = lift(o)
        if not isinstance(o, Arr):
            return False
        return content_same(self.content(), o.content())

    def __pv_ite__(self, c, o):
        if isinstance(o, (Arr, np.ndarray)):
            o = lift(o)
            if len(o.shape) == len(self._shape):
                a, b = self.snapshot(), o.snapshot()
                cc = mk(c)
                sh = tuple(x if same(x, y) is True else ite(cc, x, y) for x, y in zip(self._shape, o.shape))
                return Arr(sh, lambda *ix: ite(cc, a.at(*ix), b.at(*ix)), self.kind)
        return NotImplemented

    def __repr__(self):
        return 'Arr(shape=%s)' % (self._shape,)

    def __format__(self, s):
        return '<arr>'

    __hash__ = object.__hash__


def _zero_like(k):
    return {'f': Fraction(0), 'i': 0, 'b': False, 'O': None}[k]


def memo_nd(f):
    cache = {}

    def at(*idx):
        k = tuple(('c', i) if isinstance(i, int) else i.t.get_id() for i in idx)
        if k not in cache:
            cache[k] = (f(*idx), idx)
        return cache[k][0]
    return at


def lift(x):
    """Anything array-like -> Arr."""
    if isinstance(x, Arr):
        return x
    if isinstance(x, np.ndarray):
        k = {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)
        y = x

        def at(*ix):
            if all(isinstance(i, int) for i in ix):
                v = y[ix]
                v = v.item() if isinstance(v, np.generic) else v
                return to_real(v) if k == 'f' else v
            return pick(y, ix, k)
        return Arr(x.shape, at, k)
    if hasattr(x, '__pv_toarr__'):
        return x.__pv_toarr__()
    if isnum(x) or isinstance(x, SObj):
        return Arr((), lambda: x, kind_of(x))
    raise Unsupported('lift %r' % type(x))


def pick(y, ix, k):
    s = Seq([lift(r) if isinstance(r, np.ndarray) else (to_real(r.item()) if k == 'f' else r.item()) for r in y])
    r = s.at(ix[0])
    return r.at(*ix[1:]) if isinstance(r, Arr) else r


def bdim(x, y):
    if isinstance(x, int) and x == 1:
        return y
    if isinstance(y, int) and y == 1:
        return x
    r = same(x, y)
    if r is True:
        return y if isinstance(y, int) else x
    if r is False:
        raise ValueError('operands could not be broadcast together')
    if core.CTX.in_quant:
        return x
    if r:
        return y if isinstance(y, int) else x
    if same(x, 1):
        return y
    if same(y, 1):
        return x
    raise ValueError('operands could not be broadcast together')


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    return tuple(bdim(x, y) for x, y in zip(a, b))


def bat(a, ix):
    """Element of `a` at broadcast index ix."""
    if a.ndim == 0:
        return a.at()
    ix = ix[len(ix) - a.ndim:]
    return a.at(*[0 if (isinstance(d, int) and d == 1) else i for d, i in zip(a._shape, ix)])


class Broadcast(Arr):
    """np.broadcast_to: a read-only view that sees later changes of its source"""

    def __init__(self, src, shape):
        Arr.__init__(self, shape, None, src.kind, base=src._root(), maps=[])
        self.src = src

    def at(self, *ix):
        return bat(self.src, ix)

    def snapshot(self):
        s = self.src.snapshot()
        return Arr(self._shape, memo_nd(lambda *ix: bat(s, ix)), self.kind)

    def content(self):
        return self.snapshot().content()

    def assign(self, cv):
        raise ValueError('assignment destination is read-only')

    def __getitem__(self, k):
        return self.snapshot()[k]

    def row(self, i):
        return self.snapshot().row(i)


def broadcast_to(a, shape):
    a = lift(_arrlike(a))
    shape = (shape,) if isnum(shape) else tuple(heap.iter_native(shape))
    off = len(shape) - a.ndim
    if off < 0:
        raise ValueError('input operand has more dimensions than allowed')
    for d, q in zip(a.shape, shape[off:]):
        if not (isinstance(d, int) and d == 1) and same(d, q) is not True and not same(d, q):
            raise ValueError('operands could not be broadcast together with remapped shapes')
    return Broadcast(a, shape)


def np_var(a, axis=None, keepdims=False, **k):
    """population variance, as mean of squares minus squared mean (never negative)"""
    if k:
        raise Unsupported('np.var arguments')
    a = lift(_arrlike(a)).snapshot()
    m = reduce_(a, 'mean', axis, keepdims)
    q = reduce_(a * a, 'mean', axis, keepdims)

    def v(s, t):
        r = _n(s) - _n(t) * _n(t)
        if not core.CTX.in_quant and is_sym(r):
            core.CTX.add(core.zbool(r >= 0))
        return r
    return binary(v, 'f', q, m)


def isarr(x):
    return isinstance(x, (Arr, np.ndarray)) or hasattr(x, '__pv_toarr__')


def binary(f, kind, a, b):
    la, lb = lift(a).snapshot(), lift(b).snapshot()
    if la.ndim == 0 and lb.ndim == 0:
        return f(la.at(), lb.at())
    sh = bshape(la.shape, lb.shape)
    k = kind if kind in ('f', 'i', 'b', 'O') else ('f' if 'f' in (la.kind, lb.kind) or kind == 'div' else 'i')
    return Arr(sh, memo_nd(lambda *ix: f(bat(la, ix), bat(lb, ix))), k)


def unary(f, kind, a):
    la = lift(a).snapshot()
    if la.ndim == 0:
        return f(la.at())
    return Arr(la.shape, memo_nd(lambda *ix: f(la.at(*ix))), kind or la.kind)


def _elem_div(x, y):
    """Array division: no exception for zero divisors; the quotient is then unspecified."""
    if core._inf(y):
        return Fraction(0)
    zy = zreal(y)
    return mk(zreal(x) / zy)


def _num(op, kind='n'):
    def f(self, o):
        if isinstance(o, (PList, list)):
            o = asarray(o)
        if not (isnum(o) or isarr(o)):
            return NotImplemented
        return binary(op, kind, self, o)
    return f


def _rnum(op, kind='n'):
    def f(self, o):
        if isinstance(o, (PList, list)):
            o = asarray(o)
        if not (isnum(o) or isarr(o)):
            return NotImplemented
        return binary(op, kind, o, self)
    return f


def _n(x):
    """booleans behave as ints in arithmetic"""
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float) and not core._inf(x):
        return core.frac(x)
    return x


OPS = dict(
    add=(lambda a, b: _n(a) + _n(b), 'n'), sub=(lambda a, b: _n(a) - _n(b), 'n'), mul=(lambda a, b: _n(a) * _n(b), 'n'),
    truediv=(lambda a, b: _elem_div(_n(a), _n(b)), 'div'),
    floordiv=(lambda a, b: core.intdiv(_n(a), _n(b))[0], 'n'), mod=(lambda a, b: core.intdiv(_n(a), _n(b))[1], 'n'),
    pow=(lambda a, b: core.power(_n(a), _n(b)), 'n'))
for _nm, (_f, _k) in OPS.items():
    setattr(Arr, '__%s__' % _nm, _num(_f, _k))
    setattr(Arr, '__r%s__' % _nm, _rnum(_f, _k))

    def _mki(_f, _k):
        def g(self, o):
            if isinstance(o, (PList, list)):
                o = asarray(o)
            if not (isnum(o) or isarr(o)):
                return NotImplemented
            r = binary(_f, _k, self.snapshot(), o)
            self.fill_from(r)
            return self
        return g
    setattr(Arr, '__i%s__' % _nm, _mki(_f, _k))


def _cmp(op):
    def g(a, b):
        return op(_n(a), _n(b))
    return g


for _nm, _f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b).items():
    setattr(Arr, '__%s__' % _nm, _num(_cmp(_f), 'b'))


def _eqop(self, o):
    if isinstance(o, (PList, list)):
        o = asarray(o)
    if o is None or isinstance(o, str):
        return unary(lambda x: False, 'b', self)
    if not (isnum(o) or isarr(o) or isinstance(o, SObj)):
        return NotImplemented
    return binary(lambda a, b: same(a, b), 'b', self, o)


def _neop(self, o):
    r = _eqop(self, o)
    return r if r is NotImplemented else logical_not(r)


Arr.__eq__ = _eqop
Arr.__ne__ = _neop
Arr.__hash__ = object.__hash__
Arr.__neg__ = lambda self: unary(lambda x: -_n(x), None, self)
Arr.__abs__ = lambda self: unary(lambda x: abs(x), None, self)
Arr.__invert__ = lambda self: logical_not(self) if self.kind == 'b' else unary(lambda x: -x - 1, 'i', self)
Arr.__and__ = Arr.__rand__ = lambda self, o: logical_and(self, o)
Arr.__or__ = Arr.__ror__ = lambda self, o: logical_or(self, o)
Arr.__xor__ = lambda self, o: binary(lambda a, b: Not(core.Iff(to_bool(a), to_bool(b))), 'b', self, o)


def _ior(self, o):
    self.fill_from(logical_or(self.snapshot(), o))
    return self


def _iand(self, o):
    self.fill_from(logical_and(self.snapshot(), o))
    return self


Arr.__ior__, Arr.__iand__ = _ior, _iand


def _arrlike(x):
    if isinstance(x, (PList, list, tuple)) or isinstance(x, heap.PSeqIter):
        return asarray(x)
    return x


def logical_or(a, b):
    return binary(lambda x, y: Or(to_bool(x), to_bool(y)), 'b', _arrlike(a), _arrlike(b))


def logical_and(a, b):
    return binary(lambda x, y: And(to_bool(x), to_bool(y)), 'b', _arrlike(a), _arrlike(b))


def logical_not(a):
    return unary(lambda x: Not(to_bool(x)), 'b', _arrlike(a))


def anysym(x, depth=0):
    if is_sym(x) or isinstance(x, (Arr, heap.PSeqIter, heap.PRange)) or hasattr(x, '__pv_toarr__') \
            or hasattr(x, '__pv_obj__'):
        return True
    if isinstance(x, PList):
        if x.s.items is None:
            if x.s.force() is None:
                return True
        return any(anysym(y, depth + 1) for y in x.s.items)
    if isinstance(x, (list, tuple)):
        return any(anysym(y, depth + 1) for y in x)
    return False


def native(x):
    """Concrete value for the real numpy."""
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, PList):
        return [native(y) for y in x]
    if isinstance(x, tuple):
        return tuple(native(y) for y in x)
    if isinstance(x, list):
        return [native(y) for y in x]
    if isinstance(x, heap.PSet):
        return [native(y) for y in x]
    if isinstance(x, DType):
        return np.dtype(x.name)
    if isinstance(x, (types.FunctionType,)) and x in heap.UNMAP:
        return heap.UNMAP[x]
    return x


def asarray(x, dtype=None, copy=None, **kw):
    k = kind_of_dtype(dtype)
    if isinstance(x, Arr):
        if k is not None and k != x.kind:
            return x.astype(dtype)
        return x
    if hasattr(x, '__pv_toarr__'):
        return asarray(x.__pv_toarr__(), dtype)
    if isnum(x) and is_sym(x):
        return cast(x, k) if k else x
    if isinstance(x, SObj):
        return x
    if not anysym(x):
        return np.asarray(native(x), dtype=native(dtype) if dtype is not None else None)
    s = heap.to_seq(x)
    return from_seq(s, k)


def from_seq(s, k=None):
    c = core.CTX
    n = s.n
    if isinstance(n, int) and n == 0:
        return np.zeros((0,))
    # probe the element structure
    if s.items is not None or isinstance(n, int):
        items = list(s.force())
        kinds = [kind_of(y) if not isinstance(y, (PList, list, tuple, Arr, np.ndarray)) else None for y in items]
        probe = items[0]
    else:
        probe = None
        i = fresh_int('pv_probe')
        core.assume(Implies(n > 0, And(i >= 0, i < n)))
        c.in_quant += 1
        try:
            probe = s.at(i)
        finally:
            c.in_quant -= 1
        items = None
    if isinstance(probe, (PList, list, tuple, Arr, np.ndarray)) or hasattr(probe, '__pv_toarr__'):
        sub = probe if isinstance(probe, (Arr,)) else lift(asarray(probe))
        kk = k or sub.kind

        def at(i, *r):
            row = s.at(i)
            row = lift(row if isinstance(row, Arr) else asarray(row))
            return cast(row.at(*r), kk)
        return Arr((n,) + tuple(sub.shape), memo_nd(at), kk)
    if k is None:
        if items is not None:
            ks = set(kinds)
            k = 'f' if ks & {'f'} and not ks & {'O'} else ('O' if 'O' in ks else ('i' if 'i' in ks else 'b'))
        else:
            k = kind_of(probe)
    return Arr((n,), memo_nd(lambda i: cast(s.at(i), k)), k)


def array(x, dtype=None, copy=True, **kw):
    r = asarray(x, dtype)
    if isinstance(r, Arr):
        return r.copy()
    return r


def reshape(a, shape):
    a = lift(a).snapshot()
    shape = list(shape)
    old = a.shape
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
        if a.ndim == 1:
            return a
        if a.ndim == 2 and isinstance(old[1], int) and old[1] == 1:
            return Arr((old[0],), lambda i: a.at(i, 0), a.kind)
    if len(shape) == a.ndim:
        ok = all((isinstance(t, int) and t == -1) or same(s, t) is True for s, t in zip(old, shape))
        if ok:
            return a
    # insertion/removal of unit dims
    def strip(sh):
        return [d for d in sh if not (isinstance(d, int) and d == 1)]
    so, sn = strip(old), strip(shape)
    if len(so) == len(sn) and all((isinstance(t, int) and t == -1) or same(s, t) is True
                                  or core.CTX.known(same(s, t)) is True for s, t in zip(so, sn)):
        it = iter(so)
        fin = []
        for d in shape:
            if isinstance(d, int) and d == 1:
                fin.append(1)
            else:
                fin.append(next(it))
        fin_pos = [j for j, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def at(*ix):
            vals = [ix[j] for j in fin_pos]
            o = []
            for d in old:
                o.append(0 if (isinstance(d, int) and d == 1) else vals.pop(0))
            return a.at(*o)
        return Arr(fin, at, a.kind)
    if len(shape) == a.ndim + 1 and any(isinstance(t, int) and t == -1 for t in shape) and same(shape[-1], 1) is True:
        return Arr(tuple(old) + (1,), lambda *ix: a.at(*ix[:-1]), a.kind)
    # trailing concrete dims: (n, m) <-> (n*m,)
    if all(isinstance(d, int) for d in old) and all(isinstance(d, int) for d in shape):
        tot = int(np.prod(old)) if old else 1
        if -1 in shape:
            rest = int(np.prod([d for d in shape if d != -1]))
            shape[shape.index(-1)] = tot // max(rest, 1)
        items = {}
        for n, ix in enumerate(np.ndindex(*old)):
            items[n] = ix
        sh = tuple(shape)

        def at2(*ix):
            flat = 0
            for d, i in zip(sh, ix):
                flat = flat * d + i
            if isinstance(flat, int):
                return a.at(*items[flat])
            return Seq([a.at(*items[q]) for q in range(tot)]).at(flat)
        return Arr(sh, at2, a.kind)
    def eq(s, t):
        return same(s, t) is True or core.CTX.known(same(s, t)) is True
    if len(shape) == a.ndim - 1 and all(eq(s, t) for s, t in zip(old[2:], shape[1:])) and (
            (isinstance(shape[0], int) and shape[0] == -1) or eq(shape[0], old[0] * old[1])):
        # the two leading axes become one
        m = old[1]

        def at3(i, *ix):
            q, r = core.intdiv(i, m)
            return a.at(q, r, *ix)
        return Arr((old[0] * m,) + tuple(old[2:]), at3, a.kind)
    if len(shape) == a.ndim + 1 and not (isinstance(shape[1], int) and shape[1] == -1) and all(eq(s, t) for s, t in zip(old[1:], shape[2:])):
        # the leading axis becomes two
        n, m = shape[:2]
        if isinstance(n, int) and n == -1:
            n = core.intdiv(old[0], m)[0]
        elif not eq(n * m, old[0]):
            raise Unsupported('reshape %s -> %s' % (old, shape))

        def at4(i, j, *ix):
            p = i * m + j
            if not core.CTX.in_quant and not isinstance(p, int):
                # lemma: quotient and remainder of i * m + j are i and j
                q, r = core.intdiv(p, m)
                core.CTX.assume(Implies(And(j >= 0, j < m), And(same(q, i), same(r, j))))
            return a.at(p, *ix)
        return Arr((n, m) + tuple(old[1:]), at4, a.kind)
    if len(so) < len(old) and so:
        return reshape(squeeze(a), shape)
    raise Unsupported('reshape %s -> %s' % (old, shape))


def squeeze(a, axis=None):
    a = lift(a).snapshot()
    axs = None if axis is None else [x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]
    keep = [d for d in range(a.ndim) if not ((axs is None and isinstance(a.shape[d], int) and a.shape[d] == 1)
                                             or (axs is not None and d in axs))]

    def at(*ix):
        o = [0] * a.ndim
        for j, d in enumerate(keep):
            o[d] = ix[j]
        return a.at(*o)
    if not keep:
        return at()
    return Arr([a.shape[d] for d in keep], at, a.kind)


def transpose(a, axes=None):
    a = lift(a).snapshot()
    if axes is None:
        axes = tuple(range(a.ndim))[::-1]
    if len(axes) == 1 and isinstance(axes[0], (tuple, PList, list)):
        axes = tuple(heap.iter_native(axes[0]))

    def at(*ix):
        o = [None] * a.ndim
        for j, d in enumerate(axes):
            o[d] = ix[j]
        return a.at(*o)
    return Arr([a.shape[d] for d in axes], at, a.kind)


def reduce_(a, op, axis, keepdims=False):
    a = lift(a).snapshot()
    if isinstance(axis, PList):
        axis = tuple(axis)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % a.ndim,)
    keep = [d for d in range(a.ndim) if d not in axes]

    def at(*ix):
        if keepdims:
            base = {d: ix[d] for d in keep}
        else:
            base = dict(zip(keep, ix))
        return red(a, op, axes, base)
    if not keep and not keepdims:
        return at()
    sh = [(1 if d in axes else a.shape[d]) for d in range(a.ndim)] if keepdims else [a.shape[d] for d in keep]
    k = 'f' if op == 'mean' else ('b' if op in ('all', 'any') else a.kind if a.kind != 'b' else 'i')
    return Arr(sh, memo_nd(at), k)


def red(a, op, axes, base):
    axes = sorted(axes)
    if op == 'mean':
        tot = red(a, 'sum', axes, base)
        n = 1
        for d in axes:
            n = n * a.shape[d]
        return _elem_div(tot, n)
    d = axes[0]
    n = a.shape[d]

    def elem(i):
        b = dict(base)
        b[d] = i
        if len(axes) > 1:
            return red(a, op, axes[1:], b)
        return a.at(*[b[q] for q in range(a.ndim)])
    s = Seq(n=n, at=elem)
    if op == 'sum':
        if isinstance(n, int):
            r = Fraction(0) if a.kind == 'f' else 0
            for i in range(n):
                r = r + _n(elem(i))
            return r
        from . import sums
        return sums.seq_sum(s.map(_n))
    if op in ('max', 'min'):
        if isinstance(n, int):
            if n == 0:
                raise ValueError('zero-size array to reduction operation %s' % op)
            r = elem(0)
            for i in range(1, n):
                v = elem(i)
                r = ite(v > r if op == 'max' else v < r, v, r)
            return r
        from . import sums
        return sums.reduce_term(s, op)
    if op == 'all':
        if isinstance(n, int):
            return And([to_bool(elem(i)) for i in range(n)] + [True])
        return heap.sym_all(s.map(to_bool))
    if op == 'any':
        if isinstance(n, int):
            return Or([to_bool(elem(i)) for i in range(n)] + [False])
        return Not(heap.sym_all(s.map(lambda v: Not(to_bool(v)))))
    raise Unsupported(op)


def argmax(a, axis=None, op='max'):
    a = lift(a).snapshot()
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('flat argmax')
        axis = 0
    axis = axis % a.ndim
    n = a.shape[axis]
    keep = [d for d in range(a.ndim) if d != axis]

    def at(*ix):
        base = dict(zip(keep, ix))

        def elem(i):
            b = dict(base)
            b[axis] = i
            return a.at(*[b[q] for q in range(a.ndim)])
        if isinstance(n, int):
            bi, bv = 0, elem(0)
            for i in range(1, n):
                v = elem(i)
                c = (v > bv) if op == 'max' else (v < bv)
                bi, bv = ite(c, i, bi), ite(c, v, bv)
            return bi
        from . import sums
        return sums.arg_term(Seq(n=n, at=elem), op)
    if not keep:
        return at()
    return Arr([a.shape[d] for d in keep], memo_nd(at), 'i')


def where(c, a=None, b=None):
    if a is None:
        c = lift(_arrlike(c)).snapshot()
        if c.ndim != 1 or not isinstance(c.shape[0], int):
            raise Unsupported('np.where with one argument')
        return (asarray(PList([i for i in range(c.shape[0]) if to_bool(c.at(i))])),)
    c, a, b = lift(_arrlike(c)).snapshot(), lift(_arrlike(a)).snapshot(), lift(_arrlike(b)).snapshot()
    sh = bshape(bshape(c.shape, a.shape), b.shape)
    k = a.kind if a.kind == b.kind else 'f'
    f = lambda *ix: ite(to_bool(bat(c, ix)), cast(bat(a, ix), k), cast(bat(b, ix), k))
    if not sh:
        return f()
    return Arr(sh, memo_nd(f), k)


def _shape(sh):
    if isinstance(sh, PList):
        return tuple(heap.iter_native(sh))
    if isinstance(sh, tuple):
        return sh
    return (sh,)


def zeros(shape, dtype=None, **kw):
    return full(shape, Fraction(0), dtype if dtype is not None else np.float64)


def ones(shape, dtype=None, **kw):
    return full(shape, Fraction(1), dtype if dtype is not None else np.float64)


def full(shape, v, dtype=None, **kw):
    k = kind_of_dtype(dtype) if dtype is not None else kind_of(v)
    v = cast(v, k)
    return Arr(_shape(shape), lambda *ix: v, k)


def empty(shape, dtype=None, **kw):
    k = kind_of_dtype(dtype) if dtype is not None else 'f'
    sh = _shape(shape)
    if k == 'O':
        return Arr(sh, lambda *ix: None, k)
    from . import loops
    c = core.CTX
    nm = c.name_('empty')
    t = {'f': ('real',), 'i': ('int',), 'b': ('bool',)}[k]
    return Arr(sh, memo_nd(lambda *ix: loops.fresh_of(t, nm, tuple(zint(i) for i in ix)) if ix else loops.fresh_of(t, nm)), k)


def zeros_like(a, dtype=None, **k):
    a = lift(a)
    return zeros(a.shape, dtype or DT[a.kind]) if a.shape else cast(0, a.kind)


def ones_like(a, dtype=None, **k):
    a = lift(a)
    return ones(a.shape, dtype or DT[a.kind])


def arange(*a, **kw):
    if len(a) == 3 and is_sym(a[2]):
        # a multiple of a symbolic positive step
        lo, hi, st = a
        c = core.CTX
        if c.known(st > 0) is not True:
            raise Unsupported('arange step')
        n = fresh_int('arange', 0)
        c.assume(ite(hi > lo, And((n - 1) * st < hi - lo, hi - lo <= n * st, n > 0), same(n, 0)))
        d = z3.simplify(zint(hi - lo))
        if d.decl().kind() == z3.Z3_OP_MUL:
            for q in d.children():
                if q.eq(z3.simplify(zint(st))):
                    m = 1
                    rest = list(d.children())
                    rest.pop([x.get_id() for x in rest].index(q.get_id()))
                    for x in rest:
                        m = m * mk(x)
                    # n st >= m st > (n-1) st with st > 0 (or m st <= 0): n = max(m, 0)
                    n = ite(m > 0, m, 0)
                    if c.known(m > 0) is True:
                        n = m
        dt = kw.get('dtype')
        k = kind_of_dtype(dt) if dt is not None else 'i'
        return Arr((n,), lambda i: cast(lo + i * st, k), k)
    r = heap.PRange(*a)
    s = r.__pv_seq__()
    dt = kw.get('dtype')
    k = kind_of_dtype(dt) if dt is not None else 'i'
    return Arr((s.n,), lambda i: cast(s.at(i), k), k)


def minimum(a, b):
    return binary(lambda x, y: _pick2(x, y, 'min'), 'n', _arrlike(a), _arrlike(b))


def maximum(a, b):
    return binary(lambda x, y: _pick2(x, y, 'max'), 'n', _arrlike(a), _arrlike(b))


def _pick2(x, y, op):
    x, y = _n(x), _n(y)
    if isinstance(x, SObj) or isinstance(y, SObj):
        f = z3.Function('np_%s_obj' % op, core.ObjSort, core.ObjSort, core.ObjSort)
        return core.obj_of(f(x.t, y.t))
    c = (x <= y) if op == 'min' else (x >= y)
    return ite(c, x, y)


def clip(a, lo, hi, **kw):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


_UF = {}


def ufun(name):
    """Elementwise uninterpreted real function."""
    def f(a, *args, **kw):
        g = _UF.setdefault(name, z3.Function('np_' + name, z3.RealSort(), z3.RealSort()))

        def h(x):
            t = g(zreal(x))
            c = core.CTX
            ax = AXIOMS.get(name)
            if ax is not None and t.get_id() not in c.axseen and not c.in_quant:
                c.axseen.add(t.get_id())
                c.keepalive.append(t)
                for fact in ax(zreal(x), t):
                    c.add(fact)
            return mk(t)
        return unary(h, 'f', _arrlike(a))
    return f


AXIOMS = {
    'sqrt': lambda x, t: [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))],
    'exp': lambda x, t: [t > 0],
    'tanh': lambda x, t: [t < 1, t > -1],
}


def sign(a):
    return unary(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)), None, a)


def square(a):
    return unary(lambda x: x * x, None, a)


def floor(a):
    return unary(lambda x: mk(z3.ToReal(z3.ToInt(zreal(x)))), 'f', a)


def ceil(a):
    return unary(lambda x: mk(-z3.ToReal(z3.ToInt(-zreal(x)))), 'f', a)


def absolute(a):
    return unary(lambda x: abs(_n(x)), None, a)


def np_sum(a, axis=None, **k):
    a = _arrlike(a)
    return reduce_(a, 'sum', axis, k.get('keepdims', False))


def np_mean(a, axis=None, **k):
    return reduce_(_arrlike(a), 'mean', axis, k.get('keepdims', False))


def np_max(a, axis=None, **k):
    return reduce_(_arrlike(a), 'max', axis, k.get('keepdims', False))


def np_min(a, axis=None, **k):
    return reduce_(_arrlike(a), 'min', axis, k.get('keepdims', False))


def repeat(a, n, axis=None):
    a = lift(_arrlike(a)).snapshot()
    if axis is None:
        a, axis = a.ravel(), 0
    axis = axis % a.ndim

    def at(*ix):
        j = list(ix)
        j[axis] = core.intdiv(ix[axis], n)[0]
        return a.at(*j)
    sh = list(a.shape)
    sh[axis] = sh[axis] * n
    return Arr(sh, memo_nd(at), a.kind)


def concat_many(s, axis):
    """a sequence of symbolic length of arrays of the same shape, each of known size along axis"""
    if not core.CTX.known(s.n >= 1):
        raise Unsupported('concatenate of a possibly empty sequence')
    x0 = s.at(0)
    axis = axis % x0.ndim
    d = x0.shape[axis]
    if not isinstance(d, int):
        raise Unsupported('concatenate of symbolically many arrays of unknown size')
    j = core.fresh_int('piece', 0)
    ok = core.Implies(j < s.n, core.And([core.same(p, q) for p, q in zip(s.at(j).shape, x0.shape)]))
    if core.CTX.prove(ok)[0] != 'unsat':
        raise Unsupported('concatenate of arrays of different shapes')

    def at(*ix):
        q, r = core.intdiv(ix[axis], d)
        jx = list(ix)
        jx[axis] = r
        return s.at(q).at(*jx)
    sh = list(x0.shape)
    sh[axis] = d * s.n
    return Arr(sh, memo_nd(at), x0.kind)


def concatenate(xs, axis=0, **k):
    sq = heap.to_seq(xs)
    if sq.items is None and not isinstance(sq.n, int):
        return concat_many(sq, axis)
    xs = list(heap.iter_native(xs))
    xs = [lift(_arrlike(x)).snapshot() for x in xs]
    nd = xs[0].ndim
    axis = axis % nd
    offs, tot = [], 0
    for x in xs:
        offs.append(tot)
        tot = tot + x.shape[axis]

    def at(*ix):
        i = ix[axis]
        r = None
        for x, o in list(zip(xs, offs))[::-1]:
            j = list(ix)
            j[axis] = i - o
            if r is None:
                if len(xs) == 1:
                    return x.at(*ix)
                last = x.at(*j) if core.CTX.known(i >= o) is not False else None
                r = last
                continue
            hi = o + x.shape[axis]
            c = i < hi
            if c is True:
                r = x.at(*j)
            elif c is False:
                pass
            else:
                kn = core.CTX.known(c) if not core.CTX.in_quant else None
                if kn is True:
                    r = x.at(*j)
                elif kn is False:
                    pass
                else:
                    r = ite(c, x.at(*j), r)
        return r
    sh = list(xs[0].shape)
    sh[axis] = tot
    return Arr(sh, memo_nd(at), xs[0].kind)


def stack(xs, axis=0):
    if heap.is_symseq(xs):
        if axis != 0:
            raise Unsupported('stack axis')
        return from_seq(heap.to_seq(xs))
    xs = [lift(x).snapshot() if not isinstance(x, SObj) else x for x in heap.iter_native(xs)]
    nd = xs[0].ndim + 1
    axis = axis % nd

    def at(*ix):
        rest = ix[:axis] + ix[axis + 1:]
        return Seq([x.at(*rest) for x in xs]).at(ix[axis])
    sh = list(xs[0].shape)
    sh.insert(axis, len(xs))
    return Arr(sh, memo_nd(at), xs[0].kind)


def isscalar(x):
    return isnum(x)


def interp(x, xp, fp, **k):
    """piecewise linear through a fixed number of points with increasing abscissae, constant outside"""
    if k:
        raise Unsupported('interp options')
    xp = [to_real(_n(v)) for v in heap.iter_native(xp)]
    fp = [to_real(_n(v)) for v in heap.iter_native(fp)]
    if len(xp) != len(fp) or not xp:
        raise ValueError('fp and xp are not of the same length.')

    def f(v):
        v = to_real(_n(v))
        r = fp[-1]
        for j in range(len(xp) - 2, -1, -1):
            r = ite(v < xp[j + 1], fp[j] + (fp[j + 1] - fp[j]) * (v - xp[j]) / (xp[j + 1] - xp[j]), r)
        return ite(v <= xp[0], fp[0], r)
    return unary(f, 'f', _arrlike(x))


def isnan(a):
    return unary(lambda x: False, 'b', a)


class Finfo(object):
    def __init__(self, dt):
        k = native(dt)
        f = np.finfo(k)
        self.min = core.frac(float(f.min)) if k in (np.float32,) else float(f.min)
        self.max = float(f.max)
        self.eps = core.frac(float(f.eps))


class NPRandom(types.ModuleType):
    """np.random: draws are arbitrary within their range; a harness may install its own."""

    def _h(self):
        h = getattr(core.CTX, 'np_random', None)
        return h

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        h = getattr(core.CTX, 'np_random', None) if core.CTX is not None else None
        if h is not None and hasattr(h, k):
            heap.pure_guard('random draw')
            return getattr(h, k)
        raise Unsupported('np.random.%s' % k)


class Running(object):
    """running sums of a sequence of numbers: C(0) = x(0), C(j) = C(j - 1) + x(j)"""

    def __init__(self, x):
        self.x, self.facts = x, []
        self.C = z3.Function(core.CTX.name_('cumsum'), z3.IntSort(), z3.RealSort())

    def raw(self, j):
        t = lambda j: mk(self.C(zint(j)))
        if not core.CTX.in_quant:
            x = _n(self.x.at(j))
            core.CTX.assume(And(Implies(And(same(j, 0), j < self.x.n), same(t(j), x)), Implies(And(j > 0, j < self.x.n), same(t(j), t(j - 1) + x))))
        return t(j)

    def at(self, j):
        if not core.CTX.in_quant:
            for f in self.facts:
                core.CTX.assume(f(j))
        return self.raw(j)


def cumsum(a, axis=None, **k):
    a = lift(_arrlike(a)).snapshot()
    if a.ndim != 1 or k or axis not in (None, 0, -1):
        raise Unsupported('cumsum')
    x = Seq(n=a.shape[0], at=a.at)
    C = Running(x)
    for f in getattr(core.CTX, 'cumsum_lemmas', ()):
        f(x, C)
    return Arr((x.n,), memo_nd(C.at), 'f')


FUNS = dict(
    cumsum=cumsum,
    asarray=asarray, array=array, ascontiguousarray=asarray, zeros=zeros, ones=ones, full=full, empty=empty, zeros_like=zeros_like,
    ones_like=ones_like, arange=arange, logical_or=logical_or, logical_and=logical_and, logical_not=logical_not,
    where=where, minimum=minimum, maximum=maximum, clip=clip, sign=sign, square=square, floor=floor, ceil=ceil,
    abs=absolute, absolute=absolute, sum=np_sum, mean=np_mean, max=np_max, min=np_min, amax=np_max, amin=np_min,
    concatenate=concatenate, repeat=repeat, stack=stack, isscalar=isscalar, isnan=isnan, argmax=argmax,
    argmin=lambda a, axis=None: argmax(a, axis, 'min'),
    squeeze=squeeze, reshape=lambda a, s: reshape(a, _shape(s)), transpose=transpose,
    sqrt=ufun('sqrt'), exp=ufun('exp'), log=ufun('log'), tanh=ufun('tanh'),
    any=lambda a, axis=None: reduce_(_arrlike(a), 'any', axis), all=lambda a, axis=None: reduce_(_arrlike(a), 'all', axis),
    expand_dims=lambda a, axis: lift(a)[(slice(None),) * axis + (None,)],
    ndim=lambda a: lift(a).ndim, shape=lambda a: lift(a).shape,
    add=lambda a, b: lift(a) + b, subtract=lambda a, b: lift(a) - b, multiply=lambda a, b: lift(a) * b,
    divide=lambda a, b: lift(a) / b, power=lambda a, b: lift(a) ** b,
    greater=lambda a, b: lift(a) > b, less=lambda a, b: lift(a) < b, equal=lambda a, b: lift(a) == b,
    isclose=None, prod=None, interp=interp, broadcast_to=broadcast_to, var=np_var, std=lambda *a, **k: ufun('sqrt')(np_var(*a, **k)),
)
ALWAYS_MODEL = {'zeros', 'ones', 'full', 'empty', 'arange'}


def lower(r):
    if core.CTX is None:
        return r
    if isinstance(r, np.ndarray):
        return lift(r.copy())
    if isinstance(r, np.generic):
        r = r.item()
        if isinstance(r, float) and not core._inf(r):
            return core.frac(r)
        return r
    if isinstance(r, tuple):
        return tuple(lower(x) for x in r)
    return r


class Add(object):
    """np.add"""

    def __call__(self, a, b, **kw):
        return lift(a) + b if isarr(a) or isarr(b) else a + b

    @staticmethod
    def at(target, index, values):
        """target[index] += values, counting repeated indices: each entry gains the sum of the values sent to it.

        Two-dimensional arrays through their flat views: every index must lie in the row it comes from (an obligation); the
        rows' index ranges are disjoint, so an entry gains only from its own row."""
        c = core.CTX
        t = getattr(target, 'flat_of', None)
        if t is None and isinstance(target, Arr) and target.ndim == 2 and isinstance(index, tuple) and len(index) == 2:
            B, n = target.shape
            rows, cols = [broadcast_to(lift(x), lift(values).shape).snapshot() for x in index]
            v = lift(values).snapshot()
            rows_of = lambda r, i: rows.at(r, i)
            cols_of = lambda r, i: cols.at(r, i)
            t = target
        elif t is not None:
            i2, v = getattr(index, 'flat_of', None), getattr(values, 'flat_of', None)
            if i2 is None or v is None:
                raise Unsupported('scatter layout')
            i2, v = i2.snapshot(), v.snapshot()
            B, n = t.shape
            rows_of = None
            cols_of = lambda r, i: i2.at(r, i) - r * n
            if i2.ndim != 2:
                raise Unsupported('scatter layout')
            for x, y in zip(i2.shape, v.shape):
                if not same(x, y):
                    raise ValueError('shape mismatch')
        else:
            raise Unsupported('scatter layout')
        if not same(v.shape[0], B):
            raise Unsupported('scatter rows')
        r, i = fresh_int('scat_r', 0), fresh_int('scat_i', 0)
        inb = And(r < B, i < v.shape[1])
        if rows_of is None:
            c.check(Implies(inb, And(i2.at(r, i) >= r * n, i2.at(r, i) < r * n + n)), 'scatter: every mass goes to its own row')
        else:
            c.check(Implies(inb, And(same(rows_of(r, i), r), cols_of(r, i) >= 0, cols_of(r, i) < n)), 'scatter: every mass goes to its own row')
        old = t.snapshot()
        m = v.shape[1]

        def at(b, j):
            gain = red(Arr((m,), lambda i: ite(same(cols_of(b, i), j), _n(v.at(b, i)), 0), 'f'), 'sum', [0], {})
            return old.at(b, j) + gain
        at = memo_nd(at)
        t.assign(lambda ix: (True, at(*ix)))


class NumpyModel(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.random = NPRandom('numpy.random')
        self.ndarray = np.ndarray
        self.finfo = Finfo
        self.__version__ = np.__version__
        self.inf = float('inf')
        self.nan = float('nan')
        self.newaxis = None
        self.float32, self.float64, self.int32, self.int64, self.uint8 = np.float32, np.float64, np.int32, np.int64, np.uint8
        self.bool_ = np.bool_
        self.pi = Fraction('3.141592653589793')
        self.integer = np.integer
        self.isnan = isnan
        self.add = Add()

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = FUNS.get(k)
        real = getattr(np, k, None)
        if real is None and f is None:
            raise AttributeError(k)

        if isinstance(real, type) and f is None:
            return real

        def call(*a, **kw):
            if not any(anysym(x) for x in a) and not any(anysym(x) for x in kw.values()):
                if k in ALWAYS_MODEL and core.CTX is not None:
                    return f(*a, **kw)
                r = real(*[native(x) for x in a], **{q: native(x) for q, x in kw.items()})
                return lower(r)
            if f is None:
                raise Unsupported('np.%s on symbolic values' % k)
            return f(*a, **kw)
        call.__name__ = k
        return call


NP = NumpyModel()
