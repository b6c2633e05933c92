"""Symbolic heap objects: sequences, dicts, ranges; symbolic-aware builtins."""
import builtins
from fractions import Fraction
import numpy as _np
import types
import z3
from . import core
from .core import (SInt, SReal, SBool, SObj, Sym, Unsupported, And, Or, Not, Implies, ite, same, mk,
                   zint, zreal, zbool, isnum, isintlike, is_sym, fresh_int, _inf)


def C():
    return core.CTX


class Seq(object):
    """Immutable sequence: concrete items, or (n, at) with symbolic length."""
    __slots__ = ('items', 'n', '_at', 'filter')

    def __init__(self, items=None, n=None, at=None):
        if items is not None:
            self.items = tuple(items)
            self.n = len(self.items)
            self._at = None
        else:
            if isinstance(n, int) and n <= 64:
                self.items = None
                self.n = n
                self._at = at
                if n == 0:
                    self.items = ()
            else:
                self.items = None
                self.n = n
                self._at = at

    def force(self):
        """Concrete item tuple if the length is a concrete int."""
        if self.items is None and isinstance(self.n, int):
            self.items = tuple(self._at(i) for i in range(self.n))
        return self.items

    def at(self, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if self.items is not None:
                if 0 <= i < len(self.items):
                    return self.items[i]
                if not self.items:
                    raise _empty_elem()
                return self.items[0]
            return self._at(i)
        if self.items is not None:
            if not self.items:
                raise _empty_elem()
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(i == j, self.items[j], r)
            return r
        return self._at(i)

    def concat(self, o):
        if self.items is not None and o.items is not None:
            return Seq(self.items + o.items)
        if isinstance(self.n, int) and self.n == 0:
            return o
        if isinstance(o.n, int) and o.n == 0:
            return self
        a, b, n = self, o, self.n

        def at(i):
            c = (i < n)
            if c is True:
                return a.at(i)
            if c is False:
                return b.at(i - n)
            k = C().known(c) if not C().in_quant else None
            if k is True:
                return a.at(i)
            if k is False:
                return b.at(i - n)
            return ite(c, a.at(i), b.at(i - n))
        return Seq(n=n + o.n, at=at)

    def slice(self, lo, hi):
        """0 <= lo <= hi <= n assumed."""
        if self.items is not None and isinstance(lo, int) and isinstance(hi, int):
            return Seq(self.items[lo:hi])
        s = self
        n = hi - lo
        if isinstance(lo, int) and lo == 0:
            return Seq(n=n, at=s.at)
        return Seq(n=n, at=lambda i: s.at(i + lo))

    def update(self, i, x):
        if self.items is not None and isinstance(i, int):
            it = list(self.items)
            it[i] = x
            return Seq(it)
        s = self
        if self.items is not None:
            return Seq([ite(i == j, x, v) for j, v in enumerate(self.items)])
        return Seq(n=self.n, at=lambda k: ite(same(k, i), x, s.at(k)))

    def reverse(self):
        if self.items is not None:
            return Seq(self.items[::-1])
        s = self
        return Seq(n=s.n, at=lambda i: s.at(s.n - 1 - i))

    def map(self, f):
        if self.items is not None:
            return Seq([f(x) for x in self.items])
        s = self
        return Seq(n=s.n, at=lambda i: f(s.at(i)))


def seq_same(a, b):
    """Equality of two Seqs for use in obligations: Skolemised at a fresh index."""
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return False
        return And([same(x, y) for x, y in zip(a.items, b.items)] + [True])
    ne = same(a.n, b.n)
    for x in (a, b):
        if (isinstance(x.n, int) and x.n == 0) or (x.items is not None and not x.items):
            return ne
    i = fresh_int('sk')
    c = C()
    rng = And(i >= 0, i < a.n, i < b.n)
    # evaluate elements under the range hypothesis
    c.in_quant += 1
    try:
        body = same(a.at(i), b.at(i))
    finally:
        c.in_quant -= 1
    return And(ne, Implies(rng, body))


def norm_index(i, n, msg='list index out of range'):
    if isinstance(i, _np.integer):
        i = int(i)
    if not isinstance(i, (int, SInt, SBool)):
        if hasattr(i, '__index__'):
            i = i.__index__()
        else:
            raise TypeError('list indices must be integers or slices')
    if isinstance(i, SBool):
        i = i._i()
    if isinstance(i, int) and isinstance(n, int):
        j = i + n if i < 0 else i
        if not 0 <= j < n:
            raise IndexError(msg)
        return j
    if (i < 0):
        j = i + n
        if (j < 0):
            raise IndexError(msg)
        return j
    if (i >= n):
        raise IndexError(msg)
    return i


def clampidx(i, n, default):
    if i is None:
        return default
    if isinstance(i, (_np.integer,)):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i = max(0, i + n)
        return min(i, n)
    if (i < 0):
        j = i + n
        return ite(j < 0, 0, j)
    if i <= n:
        return i
    return n


def slice_seq(s, sl):
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.start is None and sl.stop is None:
            return s.reverse()
        if s.force() is not None:
            return Seq(s.force()[sl])
        raise Unsupported('slice step')
    n = s.n
    lo = clampidx(sl.start, n, 0)
    hi = clampidx(sl.stop, n, n)
    if isinstance(lo, int) and isinstance(hi, int):
        if hi < lo:
            hi = lo
    elif (hi < lo):
        hi = lo
    return s.slice(lo, hi)


class SliceView(object):
    pass


class PList(object):
    """Mutable list / deque over an immutable Seq."""
    __pv_heap__ = True
    maxlen = None
    kind = 'list'

    def __init__(self, items=(), seq=None):
        self.s = seq if seq is not None else to_seq(items)

    __hash__ = object.__hash__

    def __len__(self):
        return core.concretize(self.s.n)

    def __pv_len__(self):
        return self.s.n

    def __bool__(self):
        r = self.s.n > 0
        return r if isinstance(r, bool) else bool(r)

    def __iter__(self):
        it = self.s.force()
        if it is None:
            n = self.s.n
            v = C().known(n == 0)
            if v is True:
                return iter(())
            raise Unsupported('native iteration over a symbolic-length sequence')
        return iter(it)

    def __pv_seq__(self):
        return self.s

    def __getitem__(self, i):
        if isinstance(i, slice):
            return PList(seq=slice_seq(self.s, i))
        return self.s.at(norm_index(i, self.s.n))

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            n = self.s.n
            lo = clampidx(i.start, n, 0)
            hi = clampidx(i.stop, n, n)
            if i.step not in (None, 1):
                raise Unsupported('slice step assignment')
            self.s = self.s.slice(0, lo).concat(to_seq(x)).concat(self.s.slice(hi, n))
            return
        self.s = self.s.update(norm_index(i, self.s.n, 'list assignment index out of range'), x)

    def __delitem__(self, i):
        if isinstance(i, slice):
            n = self.s.n
            lo = clampidx(i.start, n, 0)
            hi = clampidx(i.stop, n, n)
            self.s = self.s.slice(0, lo).concat(self.s.slice(hi, n))
            return
        j = norm_index(i, self.s.n)
        n = self.s.n
        self.s = self.s.slice(0, j).concat(self.s.slice(j + 1, n))

    def append(self, x):
        self.s = self.s.concat(Seq([x]))
        self._trim()

    def appendleft(self, x):
        if self.maxlen is not None:
            raise Unsupported('appendleft with maxlen')
        self.s = Seq([x]).concat(self.s)

    def _trim(self):
        if self.maxlen is not None:
            m = self.maxlen
            n = self.s.n
            if (n > m):
                self.s = self.s.slice(n - m, n)

    def extend(self, xs):
        self.s = self.s.concat(to_seq(xs))
        self._trim()

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if not isinstance(o, (PList, list)):
            return NotImplemented
        return PList(seq=self.s.concat(to_seq(o)))

    def __radd__(self, o):
        if not isinstance(o, list):
            return NotImplemented
        return PList(seq=to_seq(o).concat(self.s))

    def __mul__(self, k):
        if isinstance(k, int) and self.s.items is not None:
            return PList(list(self.s.items) * k)
        if self.s.items is not None and len(self.s.items) == 1:
            x = self.s.items[0]
            if isinstance(k, SInt):
                if k < 0:
                    return PList()
            return PList(seq=Seq(n=k, at=lambda i: x))
        raise Unsupported('list repetition')
    __rmul__ = __mul__

    def insert(self, i, x):
        n = self.s.n
        j = clampidx(i, n, 0)
        self.s = self.s.slice(0, j).concat(Seq([x])).concat(self.s.slice(j, n))

    def pop(self, i=-1):
        n = self.s.n
        if n == 0:
            raise IndexError('pop from empty list')
        if isinstance(i, int) and i == -1:
            x = self.s.at(n - 1)
            self.s = self.s.slice(0, n - 1)
            return x
        j = norm_index(i, n, 'pop index out of range')
        x = self.s.at(j)
        self.s = self.s.slice(0, j).concat(self.s.slice(j + 1, n))
        return x

    def popleft(self):
        n = self.s.n
        if n == 0:
            raise IndexError('pop from an empty deque')
        x = self.s.at(0)
        self.s = self.s.slice(1, n)
        return x

    def clear(self):
        self.s = Seq(())

    def reverse(self):
        self.s = self.s.reverse()

    def copy(self):
        r = type(self).__new__(type(self))
        r.__dict__.update(self.__dict__)
        return r

    def __copy__(self):
        return self.copy()

    def index(self, x):
        it = self.s.force()
        if it is None:
            raise Unsupported('index')
        for i, y in enumerate(it):
            if same(x, y):
                return i
        raise ValueError()

    def count(self, x):
        it = self.s.force()
        if it is None:
            raise Unsupported('count')
        return sum(1 for y in it if same(x, y))

    def remove(self, x):
        self.pop(self.index(x))

    def sort(self, key=None, reverse=False):
        self.s = Seq(pv_sorted(self, key=key, reverse=reverse).s.items)

    def __contains__(self, x):
        it = self.s.force()
        if it is None:
            return sym_member(x, self.s)
        for y in it:
            if same(x, y):
                return True
        return False

    def __eq__(self, o):
        if isinstance(o, (PList, list)):
            return seq_same(self.s, to_seq(o))
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __pv_same__(self, o):
        if isinstance(o, (PList, list)):
            return seq_same(self.s, to_seq(o))
        if isinstance(o, tuple):
            return False
        return False

    def __pv_ite__(self, c, o):
        if isinstance(o, PList) and o is not self:
            a, b = self.s, o.s
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return PList([ite(mk(c), x, y) for x, y in zip(a.items, b.items)])
            cc = mk(c)

            def at(i):
                va = core.CTX
                ae = a.items is not None and not a.items
                be = b.items is not None and not b.items
                if ae:
                    return b.at(i)
                if be:
                    return a.at(i)
                return ite(cc, a.at(i), b.at(i))
            return PList(seq=Seq(n=ite(cc, a.n, b.n), at=at))
        return NotImplemented

    def __repr__(self):
        return 'PList(n=%s)' % (self.s.n,)

    def __format__(self, spec):
        return '<list>'


class PDeque(PList):
    kind = 'deque'

    def __init__(self, items=(), maxlen=None):
        if maxlen is not None:
            if maxlen < 0:
                raise ValueError('maxlen must be non-negative')
        self.maxlen = maxlen
        self.s = to_seq(items)
        self._trim()

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError('sequence index must be integer, not slice')
        return self.s.at(norm_index(i, self.s.n))


class PDict(object):
    """Dict with concrete and/or symbolic keys. Entries are ordered; `base` covers keys never written here."""
    __pv_heap__ = True

    def __init__(self, items=(), default_factory=None, base=None):
        self.e = {}            # concrete hashable keys -> value
        self.sy = []           # [(symbolic key, value)] newest last
        self.default_factory = default_factory
        self.base = base       # object with .has(k)->bool term, .get(k)
        for k, v in items:
            self[k] = v

    __hash__ = object.__hash__

    def _find(self, k):
        """-> ('e', key) / ('s', index) / ('b',) / None, forking on equality with stored keys."""
        if not is_sym(k) and not isinstance(k, tuple):
            if k in self.e:
                return ('e', k)
            if isnum(k):
                for i in range(len(self.sy) - 1, -1, -1):
                    if same(self.sy[i][0], k):
                        return ('s', i)
        else:
            if isinstance(k, tuple):
                try:
                    if k in self.e:
                        return ('e', k)
                except TypeError:
                    pass
            for i in range(len(self.sy) - 1, -1, -1):
                if same(self.sy[i][0], k):
                    return ('s', i)
            for kk in self.e:
                if same(kk, k):
                    return ('e', kk)
        if self.base is not None:
            r = self.base.has(k)
            if r:
                return ('b',)
        return None

    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            if self.default_factory is not None:
                v = self.default_factory()
                self[k] = v
                return v
            raise KeyError(k)
        if f[0] == 'e':
            return self.e[f[1]]
        if f[0] == 's':
            return self.sy[f[1]][1]
        v = self.base.get(k)
        if getattr(v, '__pv_heap__', False):
            self._put(k, v)
        return v

    def _put(self, k, v):
        if is_sym(k):
            self.sy.append((k, v))
        else:
            self.e[k] = v

    def __setitem__(self, k, v):
        f = self._find(k) if (is_sym(k) or self.sy) else (('e', k) if k in self.e else None)
        if f is None or f[0] == 'b':
            self._put(k, v)
        elif f[0] == 'e':
            self.e[f[1]] = v
        else:
            self.sy = list(self.sy)
            self.sy[f[1]] = (self.sy[f[1]][0], v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if f[0] == 'e':
            del self.e[f[1]]
        elif f[0] == 's':
            self.sy = self.sy[:f[1]] + self.sy[f[1] + 1:]
        else:
            raise Unsupported('del from symbolic base')

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        f = self._find(k)
        if f is None:
            return d
        return self[k]

    def setdefault(self, k, d=None):
        if self._find(k) is None:
            self[k] = d
        return self[k]

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k)
        v = self[k]
        del self[k]
        return v

    def _closed(self):
        if self.base is not None:
            raise Unsupported('iteration over a symbolic dict')

    def keys(self):
        self._closed()
        return [*self.e.keys()] + [k for k, _ in self.sy]

    def values(self):
        self._closed()
        return PList([*self.e.values()] + [v for _, v in self.sy])

    def items(self):
        self._closed()
        return [*self.e.items()] + list(self.sy)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        self._closed()
        return len(self.e) + len(self.sy)

    def __bool__(self):
        return len(self) > 0

    def update(self, o=(), **kw):
        for k, v in (o.items() if hasattr(o, 'items') else o):
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        self.e = {}
        self.sy = []
        self.base = None

    def copy(self):
        r = PDict()
        r.e = dict(self.e)
        r.sy = list(self.sy)
        r.default_factory = self.default_factory
        r.base = self.base
        return r

    def __copy__(self):
        return self.copy()

    def __pv_same__(self, o):
        if isinstance(o, dict):
            o = PDict(o.items())
        if not isinstance(o, PDict):
            return False
        if self.sy or o.sy or self.base or o.base:
            raise Unsupported('equality of symbolic dicts')
        if set(self.e) != set(o.e):
            return False
        return And([same(self.e[k], o.e[k]) for k in self.e] + [True])

    def __eq__(self, o):
        return self.__pv_same__(o)

    def __ne__(self, o):
        return Not(self == o)

    def __pv_ite__(self, c, o):
        if isinstance(o, PDict) and o is not self and not (self.sy or o.sy or self.base or o.base) \
                and list(self.e) == list(o.e):
            r = PDict()
            r.e = {k: ite(mk(c), self.e[k], o.e[k]) for k in self.e}
            return r
        return NotImplemented

    def __repr__(self):
        return 'PDict(%s)' % (list(self.e),)

    def __format__(self, spec):
        return '<dict>'


class PSet(object):
    """Set with symbolic members (membership decided pairwise)."""
    __pv_heap__ = True

    def __init__(self, items=()):
        self.m = PList()
        self.base = None         # symbolic part: predicate function
        for x in items:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.m.append(x)

    def __contains__(self, x):
        if self.base is not None:
            r = self.base(x)
            if r:
                return True
        return x in self.m

    def __len__(self):
        return len(self.m)

    def __iter__(self):
        return iter(self.m)

    def discard(self, x):
        for i, y in enumerate(self.m.s.items):
            if same(x, y):
                self.m.pop(i)
                return

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)


class PRange(object):
    def __init__(self, *a):
        if len(a) == 1:
            self.lo, self.hi, self.step = 0, a[0], 1
        else:
            self.lo, self.hi = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        self.lo, self.hi = _int(self.lo), _int(self.hi)

    def __pv_seq__(self):
        lo, hi, st = self.lo, self.hi, self.step
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
            return Seq(range(lo, hi, st))
        if st != 1:
            raise Unsupported('symbolic range step')
        n = hi - lo
        n = ite(n < 0, 0, n)
        return Seq(n=n, at=lambda i: lo + i)

    def __iter__(self):
        s = self.__pv_seq__().force()
        if s is None:
            raise Unsupported('native iteration over a symbolic range')
        return iter(s)

    def __len__(self):
        return core.concretize(self.__pv_seq__().n)

    def __pv_len__(self):
        return self.__pv_seq__().n

    def __getitem__(self, i):
        s = self.__pv_seq__()
        if isinstance(i, slice):
            return PList(seq=slice_seq(s, i))
        return s.at(norm_index(i, s.n, 'range object index out of range'))

    def __contains__(self, x):
        return bool(And(x >= self.lo, x < self.hi))


def _int(x):
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return int(x)
    if hasattr(x, '__pv_scalar__'):
        return x.__pv_scalar__()
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)


class PSeqIter(object):
    """Lazily mapped immutable sequence (zip, enumerate, map, generator expressions, reversed)."""

    def __init__(self, seq):
        self.s = seq
        self.pos = 0

    def __pv_seq__(self):
        if isinstance(self.pos, int) and self.pos == 0:
            return self.s
        return self.s.slice(self.pos, self.s.n)

    def __iter__(self):
        return self

    def __next__(self):
        if (self.pos < self.s.n):
            x = self.s.at(self.pos)
            self.pos = self.pos + 1
            return x
        raise StopIteration

    def __pv_len__(self):
        raise TypeError('object has no len()')

    def __getitem__(self, i):
        raise TypeError('object is not subscriptable')


def has_seq(x):
    return hasattr(x, '__pv_seq__')


def to_seq(x):
    if isinstance(x, Seq):
        return x
    if has_seq(x):
        return x.__pv_seq__()
    if isinstance(x, (list, tuple, str, dict, range, set, frozenset, _np.ndarray)):
        return Seq(x)
    if x is None:
        raise TypeError("'NoneType' object is not iterable")
    if isinstance(x, (SNumT, SBool)):
        raise TypeError('symbolic number is not iterable')
    return Seq(list(iter(x)))


SNumT = (SInt, SReal)


def is_symseq(x):
    """Iterable whose length is symbolic."""
    if has_seq(x):
        n = x.__pv_seq__().n
        return not isinstance(n, int)
    return False


# ---------------------------------------------------------------- builtins

def pv_len(x):
    if hasattr(x, '__pv_len__'):
        return x.__pv_len__()
    f = type(x).__dict__.get('__len__')
    for k in type(x).__mro__:
        if '__len__' in k.__dict__:
            f = k.__dict__['__len__']
            break
    if f is not None and not isinstance(x, (list, tuple, dict, str, set, frozenset, bytes, _np.ndarray, range)):
        r = f(x)     # may be symbolic: bypass CPython's int coercion
        return r
    return builtins.len(x)


def pv_range(*a):
    if all(isinstance(v, int) for v in a):
        return builtins.range(*a)
    return PRange(*a)


def pv_enumerate(x, start=0):
    if is_symseq(x):
        s = to_seq(x)
        return PSeqIter(Seq(n=s.n, at=lambda i: (i + start, s.at(i))))
    return builtins.enumerate(x, start)


def pv_zip(*xs):
    if any(is_symseq(x) for x in xs):
        ss = [to_seq(x) for x in xs]
        n = ss[0].n
        for s in ss[1:]:
            k = C().known(same(n, s.n))
            if k is True:
                if isinstance(s.n, int):
                    n = s.n
                continue
            n = ite(n <= s.n, n, s.n)
        return PSeqIter(Seq(n=n, at=lambda i: tuple(s.at(i) for s in ss)))
    return builtins.zip(*xs)


def pv_reversed(x):
    if has_seq(x):
        return PSeqIter(to_seq(x).reverse())
    return builtins.reversed(x)


def pv_list(x=()):
    if isinstance(x, PSeqIter):
        r = PList(seq=x.__pv_seq__())
        x.pos = x.s.n
        return r
    if not has_seq(x) and not isinstance(x, (list, tuple, str, dict, range, set, frozenset, _np.ndarray)) \
            and hasattr(x, '__iter__'):
        r = x.__iter__()
        return PList(seq=to_seq(r))
    return PList(x)


def pv_tuple(x=()):
    s = to_seq(x)
    it = s.force()
    if it is None:
        return PTuple(seq=s)
    return builtins.tuple(it)


class PTuple(PList):
    kind = 'tuple'

    def append(self, *a):
        raise AttributeError('append')
    __setitem__ = __delitem__ = extend = append

    def __pv_same__(self, o):
        if isinstance(o, (PTuple, tuple)):
            return seq_same(self.s, to_seq(o))
        return False


class KeySeq(Seq):
    """a sequence of pairs with pairwise distinct keys, and the inverse of its key function"""
    __slots__ = ('keyidx',)

    def __init__(self, s):
        Seq.__init__(self, n=s.n, at=s.at)


class SeqDict(object):
    """dict(pairs) of symbolically many pairs: the last pair with an equal key wins; read only"""

    def __init__(self, s):
        self.s = s

    def __pv_tmpl__(self):
        return ('poison',)

    def find(self, k):
        """index of the entry, or None"""
        c = C()
        if c.in_quant:
            raise Unsupported('lookup inside a quantified term')
        n = self.s.n
        inv = getattr(self.s, 'keyidx', None)
        if inv is not None:
            # a sequence of pairwise distinct keys, with the inverse of its key function
            i = inv(k)
            if core.And([i >= 0, i < n, same(self.s.at(i)[0], k)]):
                return i
            return None
        j = z3.Int(c.name_('sdq'))
        c.bound(j, n)
        try:
            eq = core.zbool(same(self.s.at(core.SInt(j))[0], k))
        finally:
            c.unbound()
        i = core.fresh_int('sd', 0)
        if core.fresh_bool('sdhas'):
            c.assume(i < n)
            c.assume(same(self.s.at(i)[0], k))
            c.add(z3.ForAll([j], z3.Implies(z3.And(j > zint(i), j < zint(n)), z3.Not(eq))))
            return i
        c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(n)), z3.Not(eq))))
        return None

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            raise KeyError(k)
        return self.s.at(i)[1]

    def get(self, k, d=None):
        i = self.find(k)
        return d if i is None else self.s.at(i)[1]

    def __contains__(self, k):
        return self.find(k) is not None


def pv_dict(*a, **kw):
    if len(a) == 1 and not kw and has_seq(a[0]) and is_symseq(a[0]):
        return SeqDict(to_seq(a[0]))
    d = PDict()
    if a:
        x = a[0]
        for k, v in (x.items() if hasattr(x, 'items') else to_items(x)):
            d[k] = v
    for k, v in kw.items():
        d[k] = v
    return d


def to_items(x):
    for p in iter_native(x):
        k, v = p
        yield k, v


def iter_native(x):
    if has_seq(x):
        s = to_seq(x).force()
        if s is None:
            raise Unsupported('native iteration over a symbolic-length sequence')
        return iter(s)
    return iter(x)


def pv_set(x=()):
    return PSet(iter_native(x))


def pv_sum(x, start=0):
    if hasattr(x, '__pv_sum__'):
        return x.__pv_sum__(start)
    s = to_seq(x) if has_seq(x) else None
    if s is not None and s.force() is None:
        return start + symsum(s)
    t = start
    for v in (s.items if s is not None else x):
        t = t + v
    return t


def symsum(s):
    """Sum of a symbolic-length sequence as a canonical term (see sums.py)."""
    from . import sums
    return sums.seq_sum(s)


def _minmax(args, kw, lt, name):
    key = kw.get('key')
    if len(args) == 1:
        s = to_seq(args[0])
        it = s.force()
        if it is None:
            from . import sums
            return sums.seq_minmax(s, name)
        if not it:
            if 'default' in kw:
                return kw['default']
            raise ValueError('%s() arg is an empty sequence' % name)
        args = it
    r = args[0]
    for v in args[1:]:
        if key is not None:
            if lt(key(v), key(r)):
                r = v
        elif not is_sym(v) and not is_sym(r):
            if lt(v, r):
                r = v
        else:
            r = ite(lt(v, r), v, r)
    return r


def pv_min(*a, **kw):
    return _minmax(a, kw, lambda x, y: x < y, 'min')


def pv_max(*a, **kw):
    return _minmax(a, kw, lambda x, y: x > y, 'max')


def pv_all(x):
    if is_symseq(x):
        return sym_all(to_seq(x))
    for v in (iter_native(x)):
        if not v:
            return False
    return True


def pv_any(x):
    if is_symseq(x):
        s = to_seq(x)
        return Not(sym_all(s.map(lambda v: Not(truth(v)))))
    for v in (iter_native(x)):
        if v:
            return True
    return False


def truth(v):
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, (SInt, SReal)):
        return mk(v.t != 0)
    if v is None:
        return False
    if isinstance(getattr(type(v), '__pv_bool__', None), types.FunctionType):
        return v.__pv_bool__()
    return builtins.bool(v)


def sym_all(s):
    """forall i in [0,n): s[i], as a boolean with witness semantics."""
    i = z3.Int(C().name_('qa'))
    C().bound(i, s.n)
    try:
        b = zbool(truth(s.at(SInt(i))))
    finally:
        C().unbound()
    return mk(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(s.n)), b)))


def pv_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts = tuple(UNMAP.get(k, k) if isinstance_hashable(k) else k for k in ts)
    flat = []
    for k in ts:
        flat.extend(k) if isinstance(k, tuple) else flat.append(k)
    if isinstance(x, SInt):
        return any(k in (int, object) for k in flat) or any(_abc_num(k, int) for k in flat)
    if isinstance(x, SReal):
        return any(k in (float, object) for k in flat) or any(_abc_num(k, float) for k in flat)
    if isinstance(x, Fraction):
        return any(k in (float, object) for k in flat)
    if isinstance(x, SBool):
        return any(k in (bool, int, object) for k in flat)
    if isinstance(x, PDeque):
        return any(k in (PDeque, _deque) for k in flat)
    if isinstance(x, PTuple):
        return any(k in (tuple,) for k in flat)
    if isinstance(x, PList):
        return any(k in (list, PList) or _is_abc(k, list) for k in flat)
    if isinstance(x, PDict):
        return any(k in (dict, PDict) or _is_abc(k, dict) for k in flat)
    h = getattr(x, '__pv_isinstance__', None)
    if h is not None:
        return h(flat)
    return builtins.isinstance(x, tuple(k for k in flat if isinstance(k, type)))


def isinstance_hashable(k):
    return builtins.isinstance(k, type) or callable(k)


import collections as _collections
import numbers as _numbers
_deque = _collections.deque


def _abc_num(k, base):
    try:
        return k in (_numbers.Number, _numbers.Real, _numbers.Integral, _np.integer, _np.floating) and issubclass(base, k)
    except TypeError:
        return False


def _is_abc(k, base):
    try:
        return k.__module__ in ('collections.abc', 'typing') and issubclass(base, k)
    except Exception:
        return False


def pv_abs(x):
    return builtins.abs(x)


def pv_int(x=0, *a):
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, SReal):
        # truncation toward zero
        return mk(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
    if hasattr(x, '__pv_scalar__'):
        return pv_int(x.__pv_scalar__())
    return builtins.int(x, *a)


def pv_float(x=0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return mk(zreal(x))
    if isinstance(x, Fraction):
        return x
    if hasattr(x, '__pv_scalar__'):
        return pv_float(x.__pv_scalar__())
    if isinstance(x, SObj):
        return float_of_obj(x)
    return builtins.float(x)


_FOO = z3.Function('float_of', core.ObjSort, z3.RealSort())


def float_of_obj(x):
    return mk(_FOO(x.t))


def pv_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SInt, SReal)):
        return mk(x.t != 0)
    return builtins.bool(x)


def pv_sorted(x, key=None, reverse=False):
    it = to_seq(x).force()
    if it is None:
        raise Unsupported('sorted of a symbolic-length sequence')
    out = []
    for v in it:                       # stable insertion sort by decided comparisons
        kv = key(v) if key else v
        j = len(out)
        while j > 0 and ((kv > out[j - 1][0]) if reverse else (kv < out[j - 1][0])):
            j -= 1
        out.insert(j, (kv, v))
    return PList([v for _, v in out])


def pv_iter(x, *a):
    if is_symseq(x):
        return PSeqIter(to_seq(x)) if not isinstance(x, PSeqIter) else x
    return builtins.iter(x, *a)


def pv_map(f, *xs):
    if len(xs) == 1 and is_symseq(xs[0]):
        return PSeqIter(to_seq(xs[0]).map(f))
    return builtins.map(f, *[iter_native(x) for x in xs])


def pv_print(*a, **k):
    f = k.get('file')
    if f is None:
        return
    if hasattr(f, '__pv_print__'):
        f.__pv_print__(a, k)
        return
    if hasattr(f, '__pv_obj__') and hasattr(f, 'write'):
        from .load import SFmt
        parts = []
        for i, x in enumerate(a):
            if i:
                parts.append(k.get('sep', ' '))
            parts.append(pv_str(x))
        parts.append(k.get('end', '\n'))
        s = SFmt(parts)
        f.write(s.parts[0] if len(s.parts) == 1 and isinstance(s.parts[0], str) else s)
        return
    raise Unsupported('print to a file')



def pv_str(x='', *a):
    if isinstance(x, Sym):
        return SStr(x)
    if isinstance(x, SStr) or type(x).__name__ == 'SFmt':
        return x
    return builtins.str(x, *a)


class SStr(object):
    """str() of a symbolic value: kept injective by carrying the value."""

    def __init__(self, v):
        self.v = v

    def __pv_same__(self, o):
        if isinstance(o, SStr):
            return same(self.v, o.v)
        return False

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'


def pv_hash(x):
    return builtins.hash(x)


def pv_callable(x):
    return builtins.callable(x)


UNMAP = {}
def pv_getattr(o, k, *d):
    if hasattr(type(o), '__pv_getattr__'):
        return o.__pv_getattr__(k, *d)
    return builtins.getattr(o, k, *d)


def pv_hasattr(o, k):
    if hasattr(type(o), '__pv_hasattr__'):
        return o.__pv_hasattr__(k)
    return builtins.hasattr(o, k)


BUILTINS = dict(getattr=pv_getattr, hasattr=pv_hasattr, len=pv_len, range=pv_range, enumerate=pv_enumerate, zip=pv_zip, reversed=pv_reversed,
                list=pv_list, tuple=pv_tuple, dict=pv_dict, set=pv_set, sum=pv_sum, min=pv_min, max=pv_max,
                all=pv_all, any=pv_any, isinstance=pv_isinstance, int=pv_int, float=pv_float, bool=pv_bool,
                sorted=pv_sorted, iter=pv_iter, map=pv_map, print=pv_print, str=pv_str)
UNMAP.update({pv_list: list, pv_tuple: tuple, pv_dict: dict, pv_set: set, pv_int: int, pv_float: float,
              pv_bool: bool, pv_str: str})


# ---------------------------------------------------------------- lazily computed sequences

def memo_at(f):
    """Cache elements by index term so that re-reading the same index gives the identical value."""
    cache = {}

    def at(i):
        if isinstance(i, int):
            k = ('c', i)
        else:
            k = i.t.get_id()
        if k not in cache:
            cache[k] = (f(i), i)
        return cache[k][0]
    return at


def sym_member(x, s):
    """Membership in a symbolic-length sequence: a witness, or a universal fact."""
    c = core.CTX
    if core.fresh_bool('member'):
        w = core.fresh_int('memberat', 0)
        c.assume(w < s.n)
        c.assume(same(x, s.at(w)))
        return True
    i = z3.Int(c.name_('mem'))
    c.bound(i, s.n)
    try:
        b = zbool(same(x, s.at(SInt(i))))
    finally:
        c.unbound()
    c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zint(s.n)), z3.Not(b))))
    return False


class Filter(object):
    """The positions of a sequence at which a condition holds, in order: item j sits at position idx(j); pos is its inverse."""

    def __init__(self, s, cond, f):
        c = core.CTX
        self.s, self.cond, self.f = s, cond, f
        nm = c.name_('filter')
        I = z3.IntSort()
        self.n = core.fresh_int(nm + '_n', 0)
        self._idx, self._pos = z3.Function(nm + '_idx', I, I), z3.Function(nm + '_pos', I, I)
        c.assume(self.n <= s.n)
        c.__dict__.setdefault('filters', []).append(self)
        self.out = Seq(n=self.n, at=memo_at(self.at))
        self.out.filter = self

    def holds(self, p):
        c = core.CTX
        c.in_lazy += 1
        try:
            return truth(self.cond(self.s.at(p)))
        finally:
            c.in_lazy -= 1

    def idx(self, j):
        c = core.CTX
        j = zint(j)
        p = mk(self._idx(j))
        if not c.in_quant:
            c.assume(core.Implies(core.And(mk(j >= 0), mk(j < zint(self.n))),
                                  core.And([p >= 0, p < self.s.n, mk(self._pos(self._idx(j)) == j), self.holds(p),
                                            core.Implies(mk(j + 1 < zint(self.n)), mk(self._idx(j) < self._idx(j + 1))),
                                            core.Implies(mk(j > 0), mk(self._idx(j - 1) < self._idx(j)))])))
        return p

    def at(self, j):
        c = core.CTX
        x = self.s.at(self.idx(j))
        c.in_lazy += 1
        try:
            return self.f(x)
        finally:
            c.in_lazy -= 1

    def complete(self, p):
        """position p, if the condition holds there, is kept: returns its place among the items kept"""
        c = core.CTX
        q = mk(self._pos(zint(p)))
        c.assume(core.Implies(core.And([p >= 0, p < self.s.n, self.holds(p)]),
                              core.And([q >= 0, q < self.n, mk(self._idx(zint(q)) == zint(p))])))
        return q


class Members(object):
    """The set of the numbers in a sequence of indices of an axis of size n (negative ones count from the end)."""

    def __init__(self, s, n):
        c = core.CTX
        self.s, self.n = s, n
        nm = c.name_('members')
        I = z3.IntSort()
        self._in, self._wit = z3.Function(nm, I, z3.BoolSort()), z3.Function(nm + '_at', I, I)
        c.__dict__.setdefault('members', []).append(self)
        if s.force() is None:
            j = core.fresh_int('j', 0)
            ok = core.Implies(j < s.n, core.And(s.at(j) >= -n, s.at(j) < n))
            if c.prove(ok)[0] != 'unsat':
                raise Unsupported('indices that are not known to be in range')
        else:
            for x in s.items:
                norm_index(x, n, 'index out of bounds')

    def norm(self, x):
        return core.ite(x < 0, x + self.n, x)

    def has(self, i):
        it = self.s.force()
        if it is not None:
            return core.Or([same(self.norm(x), i) for x in it] + [False])
        c = core.CTX
        if c.in_quant:
            raise Unsupported('membership under a quantifier')
        i = zint(i)
        b, w = mk(self._in(i)), mk(self._wit(i))
        c.assume(core.Implies(b, core.And([w >= 0, w < self.s.n, same(self.norm(self.s.at(w)), mk(i))])))
        return b

    def complete(self, j):
        """element j of the sequence is a member"""
        if self.s.force() is None:
            core.CTX.assume(core.Implies(core.And(j >= 0, j < self.s.n), mk(self._in(zint(self.norm(self.s.at(j)))))))


def sym_filter(s, cond, f):
    return Filter(s, cond, f).out


class Flat(object):
    """Positions of the concatenation of n sequences of lengths len(0..n-1): position off(j) + k is item k of sequence j."""

    def __init__(self, lens, ent):
        self.lens, self.ent = lens, ent
        c = core.CTX
        self.OUT = z3.Function(c.name_('flatseq'), z3.IntSort(), z3.IntSort())
        self.total = self.off(lens.n)
        p = z3.Int(c.name_('flatpos'))
        o = self.OUT(p)
        F = ent[0]
        ln = z3.substitute(ent[1], (sums()._I, o))
        c.add(zint(self.total) >= 0)
        c.add(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < zint(self.total)),
                                        z3.And(o >= 0, o < zint(lens.n), F(o) >= 0, F(o) <= p, p < F(o) + ln)), patterns=[o]))

    def off(self, j):
        j = zint(j)
        if not core.CTX.in_quant:
            sums()._inst(self.ent, z3.simplify(j))
        return mk(self.ent[0](j))

    def pos(self, j, k):
        """the position of item k of sequence j (both in range); lemma: it is found there"""
        c = core.CTX
        o = zint(self.off(j))
        ok = z3.And(zint(j) >= 0, zint(j) < zint(self.lens.n), zint(k) >= 0, zint(k) < zint(self.lens.at(j)))
        p = o + zint(k)
        c.add(z3.Implies(ok, z3.And(self.OUT(p) == zint(j), o >= 0, p < zint(self.total))))
        return mk(p)

    def split(self, p):
        o = mk(self.OUT(zint(p)))
        if not core.CTX.in_quant:
            # the offset of that sequence is known through the quantified fact only
            pass
        return o, mk(zint(p) - self.ent[0](zint(o)))


def sums():
    from . import sums
    return sums


def flat_of(s, f=None):
    """The Flat of the sequences f(s[i]); the same object for the same lengths."""
    f = f or to_seq
    lens = Seq(n=s.n, at=lambda i: f(s.at(i)).n)
    c = core.CTX
    t, isint = sums().element(lens, 'lengths')
    if not isint:
        raise Unsupported('lengths')
    key = (t.sexpr(), z3.simplify(zint(s.n)).sexpr())
    if key not in c.flats:
        ent = sums()._fun(t, True, 'sum')
        c.keepalive.extend((t, zint(s.n)))
        c.flats[key] = Flat(lens, ent)
    return c.flats[key]


def sym_flatten(s, f):
    fl = flat_of(s, f)

    def at(p):
        j, k = fl.split(p)
        return f(s.at(j)).at(k)
    return Seq(n=fl.total, at=memo_at(at))


def pure_guard(what):
    c = core.CTX
    if c is not None and c.in_lazy:
        raise Unsupported('side effect (%s) inside a lazily evaluated comprehension over a symbolic-length sequence'
                          % what)


def _empty_elem():
    c = core.CTX
    if c is not None and c.sat() == 'unsat':
        return core.Infeasible()
    return Unsupported('element of empty sequence')
