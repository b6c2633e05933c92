"""Numbers with a derivative, for contracts about the gradient of a loss.

A `D` is a network output or something computed from it: its value, and its derivative with respect to ONE network output
(an arbitrary one, chosen by the harness). `.array` / `.data` / float() of it are constants, as in chainer.  A gradient step on a loss
moves the parameters along the derivatives of the loss with respect to the outputs it was computed from, so these derivatives say
which values each step is regressed onto and which weights its log-probability gets."""
from props.lib import *
from fractions import Fraction
from pyvc import chmodel, npmodel as N


def val(x):
    if isinstance(x, D):
        return x.v
    x = chmodel.arr_of(x)
    if isinstance(x, Arr) and x.ndim == 0:
        return x.at()
    return x


def der(x):
    return x.d if isinstance(x, D) else Fraction(0)


def scalar(x):
    """the only number of x"""
    if isinstance(x, Arr):
        check(same(x.size, 1), 'one number')
        return x.at(*([0] * x.ndim))
    return x


def num(x):
    return Fraction(x) if isinstance(x, int) and not isinstance(x, bool) else x


def times(d, y):
    """d * y for a derivative d, which is zero except under the condition that the followed output is meant"""
    if isinstance(d, (int, Fraction)) and d == 0:
        return Fraction(0)
    if isinstance(d, (int, Fraction)) and d == 1:
        return y
    if isinstance(d, SReal) and not isinstance(y, Arr):
        t = d.t
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return ite(mk(t.arg(0)), times(mk(t.arg(1)), y), times(mk(t.arg(2)), y))
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return -times(mk(t.arg(0)), y)
        if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            return mk(t.arg(0)) * times(mk(t.arg(1)), y)
    return d * y


def op(f, *xs):
    """None: the value is not tracked"""
    return None if any(x is None for x in xs) else f(*xs)


class D(loops.Handle):
    def __init__(self, v, d=Fraction(0)):
        loops.Handle.__init__(self, num(v), num(d))

    d = property(lambda self: self.parts[1])

    @property
    def v(self):
        return self.parts[0]

    def known(self):
        if self.v is None:
            raise Unsupported('value of this output')
        return self.v

    # chainer.Variable
    @property
    def array(self):
        return self.v if isinstance(self.v, Arr) else Const(fresh_real('value') if self.v is None else self.v)

    data = array
    xp = N.NP

    @property
    def shape(self):
        return self.v.shape if isinstance(self.v, Arr) else ()

    def __pv_len__(self):
        return self.shape[0]

    def reshape(self, *sh):
        return f_reshape(self, sh[0] if len(sh) == 1 else sh)

    def backward(self, *a, **k):
        heap.pure_guard('backward')
        ctx().roots['tape'].backward(self)

    def __pv_isinstance__(self, ks):
        return any(k in (chmodel.Var, object) for k in ks)

    def __getitem__(self, k):
        return D(self.v[k], self.d[k] if isinstance(self.d, Arr) else self.d)

    def __neg__(self):
        return D(op(lambda x: -x, self.v), -self.d)

    def __add__(self, o):
        return D(op(lambda x, y: x + y, self.v, val(o)), self.d + der(o))
    __radd__ = __add__

    def __sub__(self, o):
        return D(op(lambda x, y: x - y, self.v, val(o)), self.d - der(o))

    def __rsub__(self, o):
        return D(op(lambda x, y: y - x, self.v, val(o)), der(o) - self.d)

    def __mul__(self, o):
        v = op(lambda x, y: x * y, self.v, val(o))
        if isinstance(o, D):
            return D(v, times(self.d, o.known()) + times(o.d, self.known()))
        return D(v, times(self.d, val(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, D):
            return D(self.known() / o.known(), (self.d * o.v - self.v * o.d) / (o.v * o.v))
        return D(op(lambda x, y: x / y, self.v, val(o)), self.d / val(o))

    def __pow__(self, n):
        if n == 2:
            return self * self
        raise Unsupported('power')

    __hash__ = object.__hash__


class Const(loops.Handle):
    """the array of a scalar variable: one number"""

    def __pv_scalar__(self):
        return self.parts[0]

    shape = (1,)

    def item(self):
        return self.parts[0]

    def __getitem__(self, k):
        check(And(same(k, 0)), 'the only number')
        return self

    def __mul__(self, o):
        return self.parts[0] * o
    __rmul__ = __mul__

    def __format__(self, s):
        return '?'

    def __neg__(self):
        return -self.parts[0]

    def __add__(self, o):
        return self.parts[0] + o
    __radd__ = __add__

    def __sub__(self, o):
        return self.parts[0] - o

    def __rsub__(self, o):
        return o - self.parts[0]


class Tape(Obj):
    """what happened to the gradients, in order"""

    def __init__(self):
        self.log = ()
        self.loss = None

    def did(self, what):
        heap.pure_guard(what)
        self.log = self.log + (what,)

    def backward(self, x):
        self.did('backward')
        check(self.loss is None, 'one loss')
        self.loss = x


def total(x):
    """sum of an array whose derivative is zero except at the followed place"""
    if not isinstance(x.v, Arr):
        return x
    d = x.d
    if isinstance(d, Arr):
        w = ctx().followed.get(d.ndim)
        if w is None:
            raise Unsupported('sum over an array of other shape')
        at = [fresh_int('at', 0) for _ in w]
        if And([a < s for a, s in zip(at, d.shape)] + [Not(And([same(a, b) for a, b in zip(at, w)]))]):
            check(same(d.at(*at), Fraction(0)), 'only the followed place depends on what it depends on')
        d = d.at(*w)
    return D(fresh_real('sum'), d)


def mean(x, axis=None, **k):
    if axis is not None or k:
        raise Unsupported('mean along an axis')
    r = total(x)
    if not isinstance(x.v, Arr):
        return r
    n = 1
    for s in x.v.shape:
        n = n * s
    return D(r.v, r.d / mk(zreal(n)))


def f_sum(x, axis=None, **k):
    if axis is not None or k:
        raise Unsupported('sum along an axis')
    return total(x)


def f_reshape(x, sh):
    if not isinstance(x.v, Arr):
        return x
    return D(x.v.reshape(sh), x.d.reshape(sh) if isinstance(x.d, Arr) else x.d)


def huber(x, t, delta, reduce='sum_along_second_axis'):
    """of a scalar"""
    def s(y):
        v = val(y)
        return scalar(v) if not isinstance(y, D) else y
    x, t = s(x), s(t)
    e = x - t if isinstance(x, D) else (-(t - x) if isinstance(t, D) else D(x - t))
    if isinstance(e.v, Arr):
        raise Unsupported('huber of arrays')
    d = num(delta) if not isinstance(delta, float) else Fraction(delta)
    ab = ite(e.v < 0, -e.v, e.v)
    return D(ite(ab < d, e.v * e.v / 2, d * (ab - d / 2)), times(e.d, ite(ab < d, e.v, ite(e.v < 0, -d, d))))


def patched(name, f):
    old = chmodel.F_[name] if name in chmodel.F_ else None

    def g(x, *a, **k):
        if isinstance(x, D) or any(isinstance(y, D) for y in a):
            return f(x, *a, **k)
        return old(x, *a, **k)
    return g


def add(d):
    """chainer.functions on D"""
    F = d['chainer'].functions
    for nm, f in dict(mean=mean, average=mean, sum=f_sum, reshape=f_reshape, squeeze=lambda x, axis=None: x, huber_loss=huber,
                      square=lambda x: x * x, broadcast=None).items():
        if f is not None:
            setattr(F, nm, patched(nm, f))
    return d
