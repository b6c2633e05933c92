"""Model of the parts of chainer that chainerrl builds on (trusted: documented chainer 7 semantics of Variables and F.*,
real arithmetic instead of float32, no gradients)."""
import numpy as np
import z3
from fractions import Fraction
from . import core, heap, npmodel as N
from .models import Mod, MissingThing
from .core import Unsupported, mk, zint, zreal, is_sym, isnum, ite, And, Or, Not, same, fresh_int
from .npmodel import Arr


def arr_of(x):
    """raw array (or scalar) of a Variable, array or number"""
    return x.array if isinstance(x, Var) else x


def as_arr(x):
    return N.lift(N._arrlike(arr_of(x)))


class Var(object):
    """chainer.Variable: a shared reference to an array"""
    __pv_obj__ = True
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, data=None, name=None, requires_grad=True, **kw):
        if isinstance(data, Var):
            raise TypeError('numpy.ndarray or cuda.ndarray are expected.')
        if isinstance(data, (int, float, core.SReal, core.SInt, Fraction)):
            data = N.lift(data)
        self.array = data
        self.grad = None
        self.name = name

    @property
    def data(self):
        return self.array

    @data.setter
    def data(self, v):
        self.array = v

    @property
    def xp(self):
        return N.NP

    @property
    def shape(self):
        return self.array.shape

    @property
    def ndim(self):
        return self.array.ndim

    @property
    def size(self):
        return self.array.size

    @property
    def dtype(self):
        return self.array.dtype

    @property
    def T(self):
        return wrap(self.array.T)

    def __pv_len__(self):
        return self.array.__pv_len__()

    def __len__(self):
        return len(self.array)

    def __pv_seq__(self):
        return self.array.__pv_seq__().map(wrap)

    def __iter__(self):
        return iter([wrap(x) for x in self.array])

    def __getitem__(self, key):
        if isinstance(key, Var) or isinstance(key, tuple) and any(isinstance(k, Var) for k in key):
            raise IndexError('a Variable is not an index')
        r = self.array[key]
        return wrap(r.snapshot() if isinstance(r, Arr) else r)

    def __pv_isinstance__(self, ks):
        return any(k in (Var, object) for k in ks)

    def reshape(self, *shape):
        return wrap(self.array.reshape(*shape))

    def transpose(self, *a):
        return wrap(self.array.transpose(*a))

    def item(self):
        return self.array.item()

    def cleargrad(self):
        self.grad = None

    def unchain_backward(self):
        pass

    def unchain(self):
        pass

    def backward(self, *a, **k):
        raise Unsupported('backward')

    def to_cpu(self):
        return self

    def __bool__(self):
        return bool(self.array)

    def __repr__(self):
        return 'Var(%r)' % (self.array,)

    def __format__(self, s):
        return '<var>'
    __hash__ = object.__hash__

    def __eq__(self, o):
        raise NotImplementedError()

    def __ne__(self, o):
        raise NotImplementedError()


def _bin(name):
    def f(self, o):
        if isinstance(o, Var):
            o = o.array
        a = self.array
        return wrap(getattr(N.lift(a), name)(o))
    return f


for _op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'pow', 'radd', 'rsub', 'rmul', 'rtruediv', 'rpow'):
    setattr(Var, '__%s__' % _op, _bin('__%s__' % _op))
Var.__neg__ = lambda self: wrap(N.lift(self.array) * -1)
Var.__abs__ = lambda self: wrap(N.absolute(self.array))


def wrap(r):
    if isinstance(r, Var):
        return r
    if not isinstance(r, Arr):
        r = N.lift(r)
    return Var(r)


def lifted(f):
    """numpy function of arrays -> function of Variables"""
    def g(*a, **k):
        return wrap(f(*[arr_of(x) for x in a], **{q: arr_of(x) for q, x in k.items()}))
    return g


def select_item(x, t):
    x, t = as_arr(x).snapshot(), as_arr(t).snapshot()
    if not (x.ndim == 2 and t.ndim == 1):
        raise TypeError('select_item: wrong dimensions')
    n = N.bdim(x.shape[0], t.shape[0])
    return wrap(Arr((n,), N.memo_nd(lambda i: x.at(i, t.at(i))), x.kind))


def broadcast_to(x, shape):
    x = as_arr(x).snapshot()
    shape = tuple(heap.iter_native(shape))
    off = len(shape) - x.ndim
    for d, q in zip(x.shape, shape[off:]):
        if not (isinstance(d, int) and d == 1) and same(d, q) is not True:
            if not same(d, q):
                raise TypeError('broadcast_to')
    return Arr(shape, N.memo_nd(lambda *ix: N.bat(x, ix)), x.kind)


def broadcast(*xs):
    sh = ()
    for x in xs:
        sh = N.bshape(sh, as_arr(x).shape)
    return tuple(wrap(broadcast_to(x, sh)) for x in xs)


def scale(x, y, axis=1):
    x, y = as_arr(x).snapshot(), as_arr(y).snapshot()
    if axis + y.ndim > x.ndim:
        raise TypeError('scale')
    for d, q in zip(y.shape, x.shape[axis:]):
        if same(d, q) is not True and not same(d, q):
            raise TypeError('scale')
    return wrap(Arr(x.shape, N.memo_nd(lambda *ix: N._n(x.at(*ix)) * N._n(y.at(*ix[axis:axis + y.ndim]))), 'f'))


def expand_dims(x, axis):
    x = as_arr(x).snapshot()
    if axis < 0:
        axis += x.ndim + 1
    return Arr(x.shape[:axis] + (1,) + x.shape[axis:], lambda *ix: x.at(*(ix[:axis] + ix[axis + 1:])), x.kind)


def matmul(a, b, transa=False, transb=False):
    a, b = as_arr(a).snapshot(), as_arr(b).snapshot()
    if a.ndim == 2 and transa:
        a = N.lift(a.T)
    if b.ndim == 2 and transb:
        b = N.lift(b.T)
    if a.ndim == 3 and transa:
        a = N.lift(a.transpose(0, 2, 1))
    if b.ndim == 3 and transb:
        b = N.lift(b.transpose(0, 2, 1))
    if a.ndim == 1 and b.ndim == 1:
        m = N.bdim(a.shape[0], b.shape[0])
        return Arr((), lambda: N.red(Arr((m,), lambda q: N._n(a.at(q)) * N._n(b.at(q)), 'f'), 'sum', [0], {}), 'f')
    if a.ndim != b.ndim or a.ndim not in (2, 3):
        raise Unsupported('matmul of ranks %d, %d' % (a.ndim, b.ndim))
    m = N.bdim(a.shape[-1], b.shape[-2])
    lead = a.shape[:-2]

    def at(*ix):
        l, i, j = ix[:-2], ix[-2], ix[-1]
        prod = Arr((m,), lambda q: N._n(a.at(*(l + (i, q)))) * N._n(b.at(*(l + (q, j)))), 'f')
        return N.red(prod, 'sum', [0], {})
    return Arr(lead + (a.shape[-2], b.shape[-1]), N.memo_nd(at), 'f')


# ---- uninterpreted array functions: equal inputs give equal outputs
def opaque(name, xs, shape, facts=None, params=()):
    """A fresh array which is some function of the arrays xs (and of the key params)."""
    c = core.CTX
    if c.in_quant:
        raise Unsupported('%s inside a quantified term' % name)
    table = c.opaques
    xs = [as_arr(x).snapshot() for x in xs]
    mine = [_key(x) for x in xs]
    key = (name, tuple(params), tuple(len(x.shape) for x in xs), len(shape))
    prev = table.setdefault(key, [])
    for ys, keys, out in prev:
        if keys == mine and all(N.dim_same(p, q) or same(p, q) is True for x, y in zip(xs, ys) for p, q in zip(x.shape, y.shape)):
            return out
    f = z3.Function(c.name_(name), *([z3.IntSort()] * len(shape) + [z3.RealSort()])) if shape else None
    c0 = z3.Real(c.name_(name)) if not shape else None

    def at(*ix):
        t = f(*[zint(i) for i in ix]) if shape else c0
        if facts is not None and not c.in_quant and t.get_id() not in c.axseen:
            c.axseen.add(t.get_id())
            c.keepalive.append(t)
            for fact in facts(ix, mk(t)):
                c.add(core.zbool(fact))
        return mk(t)
    out = Arr(tuple(shape), N.memo_nd(at), 'f')
    for ys, keys, o2 in prev:
        diff = []
        for x, y in zip(xs, ys):
            diff.append(Not(N.content_same(x.content(), y.content())))
        if shape:
            q = [z3.Int(c.name_('oq')) for _ in shape]
            eq = z3.ForAll(q, f(*q) == zreal(o2.fsym(*q)))
        else:
            eq = c0 == o2.fsym
        c.add(z3.Or(core.zbool(Or(diff + [False])), eq))
    out.fsym = f if shape else c0
    prev.append((xs, mine, out))
    return out


def _key(x):
    c = core.CTX
    me = [z3.Int('pv_opq%d' % d) for d in range(len(x.shape))]
    for i, n in zip(me, x.shape):
        c.bound(i, n)
    try:
        v = x.at(*[core.SInt(i) for i in me])
    finally:
        for _ in me:
            c.unbound()
    if isinstance(v, (int, bool, Fraction)):
        return repr(v)
    if not is_sym(v):
        raise Unsupported('opaque function of non-numbers')
    return z3.simplify(v.t).sexpr()


def softmax(x, axis=1):
    x = as_arr(x)
    if axis % x.ndim != x.ndim - 1:
        raise Unsupported('softmax axis')
    return wrap(opaque('softmax', [x], x.shape, lambda ix, v: [v > 0, v <= 1]))


def log_softmax(x, axis=1):
    return wrap(N.FUNS['log'](softmax(x, axis).array))


def logsumexp(x, axis=None):
    x = as_arr(x)
    if axis is None:
        sh = ()
    else:
        axis = axis % x.ndim
        sh = x.shape[:axis] + x.shape[axis + 1:]
    r = opaque('logsumexp', [x], sh, params=(axis,))
    return wrap(r)


def flatten(x):
    return as_arr(x).reshape(-1)


def f_clip(x, lo, hi):
    return N.clip(arr_of(x), lo, hi)


def softplus(x, beta=1.0):
    return wrap(N.ufun('softplus%s' % beta)(arr_of(x)))


def relu(x):
    return N.maximum(arr_of(x), 0)


def huber_loss(x, t, delta, reduce='sum_along_second_axis'):
    def h(a, b):
        d = abs(N._n(a) - N._n(b))
        return ite(d < delta, d * d / 2, delta * (d - core.frac(0.5) * delta))
    r = N.binary(h, 'f', arr_of(x), arr_of(t))
    if reduce == 'no':
        return wrap(r)
    return wrap(N.np_sum(r, axis=1))


def mean_squared_error(a, b):
    d = N.lift(arr_of(a)) - arr_of(b)
    return wrap(N.np_mean(d * d))


def split_axis(x, n, axis, force_tuple=True):
    x = as_arr(x)
    if not isinstance(n, int):
        raise Unsupported('split_axis indices')
    d = x.shape[axis]
    q, r = core.intdiv(d, n) if is_sym(d) else divmod(d, n)
    if not same(r, 0):
        raise TypeError('split_axis')
    out = []
    for j in range(n):
        sl = [slice(None)] * x.ndim
        sl[axis] = slice(q * j, q * (j + 1))
        out.append(wrap(x[tuple(sl)].snapshot()))
    return tuple(out)


def f_concat(xs, axis=1):
    return N.concatenate([arr_of(x) for x in heap.iter_native(xs)], axis=axis)


def f_stack(xs, axis=0):
    return N.stack([arr_of(x) for x in heap.iter_native(xs)], axis=axis)


def f_concat_v(xs, axis=1):
    if heap.has_seq(xs) and heap.is_symseq(xs):
        return wrap(N.concat_many(heap.to_seq(xs).map(arr_of), axis))
    return wrap(f_concat(xs, axis))


class Ctx_(object):
    def __init__(self, *a, **k):
        self.kw = k

    def __enter__(self):
        self.old = dict(CONFIG.__dict__)
        CONFIG.__dict__.update(dict([self.kw['_set']] if '_set' in self.kw else []))
        return self

    def __exit__(self, *a):
        CONFIG.__dict__.clear()
        CONFIG.__dict__.update(self.old)
        return False


class Config(object):
    def __init__(self):
        self.train = True
        self.enable_backprop = True


CONFIG = Config()


def using_config(name, value, config=None):
    return Ctx_(_set=(name, value))


class cached_property(object):
    """evaluated at the first access, then an ordinary attribute"""

    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'cached')
        self.__doc__ = getattr(f, '__doc__', None)

    def __get__(self, o, cls):
        if o is None:
            return self
        v = self.f(o)
        o.__dict__[self.__name__] = v
        return v


class Link(object):
    """a link without parameters of its own, on the CPU"""
    xp = N.NP

    def __init__(self, **kw):
        pass

    def register_persistent(self, name):
        if not hasattr(self, name):
            raise AttributeError(name)

    def add_persistent(self, name, value):
        setattr(self, name, value)

    def serialize(self, serializer):
        raise Unsupported('serialize')


class Function(object):
    """old-style function: forward on raw arrays, the outputs are wrapped"""

    def __call__(self, *xs):
        ys = self.forward(tuple(arr_of(x) for x in xs))
        if not isinstance(ys, tuple):
            raise TypeError('forward must return a tuple')
        ys = tuple(wrap(y) for y in ys)
        return ys[0] if len(ys) == 1 else ys

    def forward(self, xs):
        return self.forward_cpu(xs)

    def retain_inputs(self, ix):
        pass

    def retain_outputs(self, ix, **k):
        pass


class Chain(Link):
    pass


class ChainList(Link):
    pass


def get_array_module(*a):
    return N.NP


def to_cpu(x):
    return x


F_ = dict(
    select_item=select_item, scale=scale, broadcast=broadcast, softmax=softmax, log_softmax=log_softmax, logsumexp=logsumexp,
    huber_loss=huber_loss, mean_squared_error=mean_squared_error, split_axis=split_axis, softplus=softplus,
    broadcast_to=lambda x, s: wrap(broadcast_to(x, s)), expand_dims=lambda x, axis: wrap(expand_dims(x, axis)),
    matmul=lambda *a, **k: wrap(matmul(*a, **k)), flatten=lambda x: wrap(flatten(x)), concat=f_concat_v,
    stack=lambda xs, axis=0: wrap(f_stack(xs, axis)), clip=lambda x, a, b: wrap(f_clip(x, a, b)), relu=lambda x: wrap(relu(x)),
    sum=lifted(N.np_sum), mean=lifted(N.np_mean), max=lifted(N.np_max), min=lifted(N.np_min), maximum=lifted(N.maximum),
    minimum=lifted(N.minimum), where=lifted(N.where), square=lifted(N.square), absolute=lifted(N.absolute),
    squeeze=lambda x, axis=None: wrap(N.squeeze(as_arr(x), axis)), reshape=lambda x, s: wrap(as_arr(x).reshape(s)),
    transpose=lambda x, axes=None: wrap(N.transpose(as_arr(x), axes)), argmax=lifted(N.argmax),
    exp=lifted(N.FUNS['exp']), log=lifted(N.FUNS['log']), sqrt=lifted(N.FUNS['sqrt']), tanh=lifted(N.FUNS['tanh']),
    average=lifted(N.np_mean), cast=lambda x, dt: wrap(as_arr(x).astype(dt)), identity=lambda x: x,
)


def add(d):
    F = Mod('chainer.functions', **F_)
    cuda = Mod('chainer.cuda', get_array_module=get_array_module, to_cpu=to_cpu, to_gpu=to_cpu, available=False,
               cupy=Mod('cupy'), ndarray=())
    ch = Mod('chainer', Variable=Var, Parameter=Var, functions=F, cuda=cuda, backends=Mod('chainer.backends', cuda=cuda), Link=Link, Chain=Chain,
             ChainList=ChainList, Optimizer=type('Optimizer', (object,), {}), no_backprop_mode=Ctx_, force_backprop_mode=Ctx_,
             using_config=using_config, config=CONFIG, Function=Function, as_variable=wrap, links=Mod('chainer.links'),
             initializers=Mod('chainer.initializers'), serializers=Mod('chainer.serializers'))
    d.update({'chainer': ch, 'chainer.functions': F, 'chainer.cuda': cuda, 'cached_property': Mod('cached_property', cached_property=cached_property),
              'chainer.backends': ch.backends, 'chainer.backends.cuda': cuda, 'chainer.links': ch.links,
              'chainer.initializers': ch.initializers, 'chainer.serializers': ch.serializers})
    tc = Mod('chainer.utils.type_check', expect=lambda *a: None)
    d['chainer.utils'] = Mod('chainer.utils', type_check=tc)
    d['chainer.utils.type_check'] = tc
    ch.utils = d['chainer.utils']
    return d
