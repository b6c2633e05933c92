"""Models of the libraries around chainerrl (trusted, listed in the evidence)."""
import types
from . import core, heap
from .core import Unsupported


class Missing(types.ModuleType):
    """An import the verified functions must not actually use."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return MissingThing(self.__name__ + '.' + k)


class MissingThing(object):
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __call__(self, *a, **k):
        raise Unsupported('call of unmodelled %s' % self._name)

    def __getattr__(self, k):
        if k.startswith('__') and k != '__mro_entries__':
            raise AttributeError(k)
        if k == '__mro_entries__':
            return lambda bases: (object,)
        return MissingThing(self._name + '.' + k)


_missing = {}


def missing(name):
    if name not in _missing:
        _missing[name] = Missing(name)
    return _missing[name]


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return MissingThing(self.__name__ + '.' + k)


def m_collections():
    import collections
    def defaultdict(f=None, *a, **k):
        d = heap.PDict(default_factory=f)
        for x in a:
            d.update(x)
        d.update(k)
        return d

    def OrderedDict(*a, **k):
        return heap.pv_dict(*a, **k)
    heap.UNMAP[OrderedDict] = heap.PDict
    heap.UNMAP[defaultdict] = heap.PDict
    m = Mod('collections', deque=heap.PDeque, defaultdict=defaultdict, OrderedDict=OrderedDict,
            namedtuple=collections.namedtuple)
    m.abc = collections.abc
    return m


def m_itertools():
    import itertools

    class chain(object):
        def __new__(cls, *its):
            if any(heap.has_seq(x) for x in its):
                s = heap.Seq(())
                for x in its:
                    s = s.concat(heap.to_seq(x))
                return heap.PSeqIter(s)
            return itertools.chain(*its)

        @staticmethod
        def from_iterable(it):
            if heap.is_symseq(it):
                return heap.PSeqIter(heap.sym_flatten(heap.to_seq(it), lambda x: heap.to_seq(x)))
            s = heap.Seq(())
            for x in heap.iter_native(it):
                s = s.concat(heap.to_seq(x))
            return heap.PSeqIter(s)

    def islice(it, *a):
        if heap.has_seq(it):
            return heap.PSeqIter(heap.slice_seq(heap.to_seq(it), slice(*a)))
        return itertools.islice(it, *a)

    def zip_longest(*its, fillvalue=None):
        return itertools.zip_longest(*[heap.iter_native(x) for x in its], fillvalue=fillvalue)
    return Mod('itertools', chain=chain, count=itertools.count, islice=islice, zip_longest=zip_longest,
               repeat=itertools.repeat, product=itertools.product)


class NullLogger(object):
    def __getattr__(self, k):
        return lambda *a, **kw: None


def m_logging():
    return Mod('logging', getLogger=lambda *a: NullLogger(), INFO=20, DEBUG=10, basicConfig=lambda **k: None)


class Fn(object):
    pass


def m_os():
    from .load import SFmt
    import os as _os

    def join(*a):
        from .load import Runtime
        if any(isinstance(x, (SFmt, heap.SStr)) or core.is_sym(x) for x in a):
            parts = []
            for i, x in enumerate(a):
                if i:
                    parts.append('/')
                parts.append(x)
            return SFmt(parts)
        return _os.path.join(*a)

    def makedirs(p, *a, **k):
        fs = getattr(core.CTX, 'fs', None)
        if fs is None:
            raise Unsupported('makedirs')
        return fs.makedirs(p, *a, **k)

    def exists(p):
        fs = getattr(core.CTX, 'fs', None)
        if fs is None:
            raise Unsupported('exists')
        return fs.exists(p)
    path = Mod('os.path', join=join, exists=exists, isdir=exists)
    return Mod('os', path=path, makedirs=makedirs, environ={}, linesep='\n')


def m_time():
    def now():
        c = core.CTX
        return core.fresh_real('now')
    return Mod('time', time=now)


def m_copy():
    import copy

    def cp(x):
        if isinstance(x, heap.PList) or isinstance(x, heap.PDict):
            return x.copy()
        return copy.copy(x)
    return Mod('copy', copy=cp, deepcopy=copy.deepcopy)


def base_models():
    d = {}
    d['collections'] = m_collections()
    d['itertools'] = m_itertools()
    d['logging'] = m_logging()
    d['os'] = m_os()
    d['time'] = m_time()
    d['copy'] = m_copy()
    from . import npmodel
    d['numpy'] = npmodel.NP
    return d
