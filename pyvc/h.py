"""Harness helpers."""
from . import core, heap, load, loops, npmodel
from .core import (fresh_int, fresh_real, fresh_bool, fresh_obj, fun, fun_obj, assume, check, cover, choose, same, ite,
                   And, Or, Not, Implies, Iff, SInt, SReal, SBool, SObj, mk, zint, zreal, zbool, ObjSort, Unsupported,
                   Control, PathEnd, Infeasible)
import z3
from .heap import Seq, PList, PDeque, PDict, PSet, seq_same, to_seq

_worlds = {}


def world(key='default', models=None, setup=None):
    if key not in _worlds:
        w = load.World(models=models() if callable(models) else models)
        if setup:
            setup(w)
        _worlds[key] = w
    return _worlds[key]


def ctx():
    return core.CTX


def sym_seq(name, kind='obj', n=None, lo=0):
    """A sequence of arbitrary length and arbitrary elements."""
    n = fresh_int('len_' + name, lo) if n is None else n
    t = {'obj': ('obj',), 'int': ('int',), 'real': ('real',), 'bool': ('bool',)}.get(kind, kind)
    nm = core.CTX.name_(name)
    return Seq(n=n, at=heap.memo_at(lambda i: loops.fresh_of(t, nm, (zint(i),))))


def root(name, o):
    core.CTX.roots[name] = o
    return o


def raises(exc, f, *a, **k):
    """-> (True, None) if f raised exc, else (False, value). Other exceptions propagate."""
    try:
        return False, f(*a, **k)
    except exc:
        return True, None


class Obj(object):
    """Base of ghost and collaborator objects: their attributes are heap locations."""
    __pv_obj__ = True

    def __init__(self, **kw):
        self.__dict__.update(kw)


def draw_guard():
    heap.pure_guard('collaborator call')


def unreachable(label):
    check(False, label)


def real_fun(name, *doms):
    f = fun(name, *(list(doms) + [z3.RealSort()]))
    return f


class FS(object):
    """Model of the file system: a log of writes per path."""

    def __init__(self):
        self.log = []
