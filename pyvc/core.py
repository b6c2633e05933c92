"""pyvc core: symbolic values, path exploration, obligations."""
import sys, time, os
from fractions import Fraction
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
import z3
import numpy as _np

ObjSort = z3.DeclareSort('Obj')


class Control(BaseException):
    pass


class PathEnd(Control):
    pass


class Infeasible(Control):
    pass


class Restart(Control):
    pass


class Unsupported(Control):
    """The real code left the subset the generator understands."""


class OutOfTime(Control):
    pass


class Obligation(object):
    def __init__(self, label, status, backend, secs, detail=''):
        self.label, self.status, self.backend, self.secs, self.detail = label, status, backend, secs, detail


def has_quant(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            st.extend(x.children())
    return False


class Ctx(object):
    """State of one harness exploration; reset() starts one path."""

    def __init__(self, name, deadline, timeout_ms=8000):
        self.name = name
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.obligations = {}       # label -> worst Obligation, plus counts
        self.counts = {}            # label -> number of discharged instances
        self.queries = 0
        self.solver_secs = 0.0
        self.paths = 0
        self.worklist = [()]
        self.loops = {}             # persistent loop table
        self.warm = {}
        self.effect_comps = False
        self.opaque_mod = False
        self.cutset = set()
        self.dirty = False
        self.infer = False
        self.covers = {}
        self.trusted = set()
        self.functions = set()
        self.backends = {}
        self.failed = []            # list of failing obligations with models
        self.skip_failed = False
        self.max_paths = 20000
        self.loopforks = {}
        self.keepalive = []
        self.forks = 0
        self.forkset = set()

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 3000)
        self.pc = []
        self.abstract, self.abmemo, self.noext = False, {}, False
        self.fresh = {}
        self.interned = {}
        self.roots = {}
        self.divmemo = {}
        self.axseen = set()
        self.inputs = []            # (name, term) for model reporting
        self.in_quant = 0
        self.flats = {}
        self.sumfuns_red, self.red_indices = {}, []
        self.qhyps = []
        self.qvars = []       # bound index variables of the terms under construction
        self.quant = False
        self.in_lazy = 0
        self.fs = None
        self.born = {}
        self.serial = 0
        self.active = []
        self.entryfuns = []
        self.tracked = []
        self.defs = []
        self.split_all = False
        self.leaffuns = {}
        self.sumfuns = {}
        self.sumfams, self.famdecl, self.fammembers, self.opaques, self.sumpairs = {}, {}, {}, {}, set()
        self.invfuns = []

    # -- names and facts
    def name_(self, base):
        n = self.fresh.get(base, 0)
        self.fresh[base] = n + 1
        r = base if n == 0 else '%s!%d' % (base, n)
        self.born[r] = len(self.born)
        return r

    def name_serial(self):
        self.serial += 1
        return self.serial

    def count_inv(self, loop, n=1):
        lab = 'loop contract %s#%d' % (loop.q, loop.no)
        self.counts[lab] = self.counts.get(lab, 0) + n
        self.backends['z3'] = self.backends.get('z3', 0) + n
        if lab not in self.obligations:
            self.obligations[lab] = Obligation(lab, 'unsat', 'z3', 0)

    def ab(self, t):
        """t with products and quotients of unknowns as uninterpreted functions, if the harness asked for it (what holds
        for every such function holds for multiplication)."""
        if not self.abstract:
            return t
        if self.abstract == 'som':
            t = z3.simplify(t, som=True)
        return without_products(t, self.abmemo, self.abstract == 'div')

    def add(self, cond):
        c = zbool(cond)
        self.pc.append(c)
        self.solver.add(self.ab(c))
        if not self.quant and has_quant(c):
            self.quant = True

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.add(c)

    def tick(self):
        if time.time() > self.deadline:
            raise OutOfTime()

    def sat(self, *extra):
        """'sat' / 'unsat' / 'unknown' of pc + extra."""
        self.tick()
        t = time.time()
        self.queries += 1
        # an unanswered feasibility query counts as feasible
        self.solver.set('timeout', 500 if self.quant else 3000)
        r = self.solver.check(*[self.ab(e) for e in extra])
        self.solver_secs += time.time() - t
        return str(r)

    def decide(self, cond):
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.qvars and any(mentions(c, q) for q in self.qvars):
            # a branch on a bound variable: settled by its range, or not at all
            f_ok = self.sat(z3.Not(c), *self.qhyps) != 'unsat'
            if not f_ok:
                return True
            if self.sat(c, *self.qhyps) == 'unsat':
                return False
            raise Unsupported('branch on a bound variable')
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            if hash(tuple(self.taken)) in self.forkset:
                self.forks += 1
            self.taken.append(v)
            self.add(c if v else z3.Not(c))
            return v
        t_ok = self.sat(c) != 'unsat'
        f_ok = self.sat(z3.Not(c)) != 'unsat'
        if t_ok and f_ok:
            self.worklist.append(tuple(self.taken) + (False,))
            v = True
        elif t_ok:
            v = True
        elif f_ok:
            v = False
        else:
            raise Infeasible()
        if t_ok and f_ok:
            self.forks += 1
            self.forkset.add(hash(tuple(self.taken)))
        self.taken.append(v)
        self.add(c if v else z3.Not(c))
        return v

    def known(self, cond):
        """True/False if the path condition settles cond, else None (never forks)."""
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(zbool(cond))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.sat(z3.Not(c), *self.qhyps) == 'unsat':
            return True
        if self.sat(c, *self.qhyps) == 'unsat':
            return False
        return None

    def bound(self, i, n):
        """i is a bound variable over [0, n) until unbound"""
        self.in_quant += 1
        self.qvars.append(i)
        self.qhyps.append(z3.And(i >= 0, i < zint(n)))

    def unbound(self):
        self.in_quant -= 1
        self.qvars.pop()
        self.qhyps.pop()

    def prove(self, cond, timeout=None):
        """-> (status, backend, detail)"""
        c = zbool(cond)
        self.tick()
        t = time.time()
        self.queries += 1
        neg = z3.Not(c)
        if z3.is_true(z3.simplify(c)):
            self.solver_secs += time.time() - t
            return 'unsat', 'simplify', ''
        self.solver.set('timeout', timeout or self.timeout_ms)
        r = str(self.solver.check(self.ab(neg)))
        backend, detail = 'z3', ''
        if self.abstract and r == 'sat':
            r = 'unknown'
        if r == 'sat':
            detail = self.model_text(self.solver.model())
        elif r == 'unknown':
            s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver()
            s2.set('timeout', timeout or self.timeout_ms)
            for p in self.pc:
                s2.add(p)
            s2.add(neg)
            r2 = str(s2.check())
            if r2 == 'unknown' and timeout is not None and timeout < 1000 and self.quant:
                detail = 'z3: unknown'
            elif r2 == 'unknown':
                s3 = z3.SolverFor('QF_NRA')
                s3.set('timeout', timeout or self.timeout_ms)
                try:
                    for p in self.pc:
                        s3.add(p)
                    s3.add(neg)
                    r3 = str(s3.check())
                except z3.Z3Exception:
                    r3 = 'unknown'
                if r3 == 'unsat':
                    r, backend = r3, 'z3-nlsat'
                elif r3 == 'sat':
                    r, backend = r3, 'z3-nlsat'
                    detail = self.model_text(s3.model())
                else:
                    r4 = cvc5_check(list(self.pc) + [neg], (timeout or self.timeout_ms))
                    if r4 == 'unsat':
                        r, backend = r4, 'cvc5'
                    else:
                        detail = 'z3: unknown (%s); cvc5: %s' % (self.solver.reason_unknown(), r4)
            else:
                r, backend = r2, 'z3-smt'
                if r2 == 'sat':
                    detail = self.model_text(s2.model())
        self.solver_secs += time.time() - t
        return r, backend, detail

    def model_text(self, m):
        out = []
        for d in m.decls()[:60]:
            s = '%s = %s' % (d.name(), str(m[d]).replace('\n', ' '))
            out.append(s[:200])
        return '; '.join(out)[:4000]

    def check(self, cond, label):
        if self.infer:
            return True
        if self.skip_failed and label in self.obligations and self.obligations[label].status != 'unsat':
            return False
        t = time.time()
        st, be, det = self.prove(cond)
        dt = time.time() - t
        if st == 'unsat':
            self.counts[label] = self.counts.get(label, 0) + 1
            self.backends[be] = self.backends.get(be, 0) + 1
            if label not in self.obligations:
                self.obligations[label] = Obligation(label, st, be, dt)
        else:
            if os.environ.get('PYVC_DEBUG'):
                print('FAILED', self.name, label, st, det[:1500], 'goal:', str(z3.simplify(zbool(cond)))[:1500], file=sys.stderr)
                if os.environ.get('PYVC_DEBUG') == '2':
                    for p in self.pc:
                        print('   pc', str(p)[:300], file=sys.stderr)
            ob = Obligation(label, st, be, dt, det)
            old = self.obligations.get(label)
            if old is None or old.status == 'unsat' or (old.status == 'unknown' and st == 'sat'):
                self.obligations[label] = ob
            self.failed.append(ob)
        return st == 'unsat'

    def cover(self, label):
        """Reachability: the current path condition must be satisfiable."""
        if self.covers.get(label) is True:
            return
        r = self.sat()
        if self.abstract and r == 'sat':
            s2 = z3.Solver()
            s2.set('timeout', 5000)
            s2.add(*self.pc)
            r = str(s2.check())
        elif r == 'unknown':
            self.solver.set('timeout', 5000)
            r = str(self.solver.check())
        # a path condition the solver cannot decide is reachable as far as anyone knows; only refuted ones are vacuous
        self.covers[label] = True if r == 'sat' else ('undecided' if r == 'unknown' else False) or self.covers.get(label, False)


def mentions(t, v):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def without_products(t, memo, div_only=False):
    def go(x):
        r = memo.get(x.get_id())
        if r is not None:
            return r[1]
        if z3.is_quantifier(x):
            raise Unsupported('quantifier')
        if not z3.is_app(x) or x.num_args() == 0:
            y = x
        else:
            ch = [go(a) for a in x.children()]
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and not div_only:
                num = [a for a in ch if z3.is_rational_value(a) or z3.is_int_value(a)]
                var = sorted([a for a in ch if not (z3.is_rational_value(a) or z3.is_int_value(a))], key=lambda a: a.get_id())
                y = None
                if var:
                    f = z3.Function('pv_mul_%s' % var[0].sort(), var[0].sort(), var[0].sort(), var[0].sort())
                    y = var[-1]
                    for a in var[-2::-1]:
                        y = f(a, y)
                for a in num:
                    y = a if y is None else a * y
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])):
                y = z3.Function('pv_%s' % x.decl().name(), ch[0].sort(), ch[0].sort(), ch[0].sort())(*ch)
            else:
                y = x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
        memo[x.get_id()] = (x, y)
        return y
    try:
        return go(t)
    except Unsupported:
        return t


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def cvc5_check(asserts, timeout_ms):
    """Second opinion from cvc5 through SMT-LIB text."""
    try:
        import cvc5
        s = z3.Solver()
        for a in asserts:
            s.add(a)
        txt = s.to_smt2()
        import subprocess, tempfile
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write(txt)
            name = f.name
        try:
            out = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout_ms, name],
                                 capture_output=True, text=True, timeout=timeout_ms / 1000 + 5).stdout
        finally:
            os.unlink(name)
        for w in ('unsat', 'sat'):
            if out.strip().startswith(w):
                return w
    except Exception as e:
        return 'unknown (%s)' % type(e).__name__
    return 'unknown'


# ---------------------------------------------------------------- values

class Sym(object):
    __slots__ = ()
    __array_ufunc__ = None


def is_sym(x):
    return isinstance(x, Sym)


def zbool(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, SReal):
        return x.t != 0
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    raise Unsupported('not a boolean: %r' % (x,))


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (_np.floating,)):
        x = float(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in arithmetic')
        return Fraction(repr(x))
    return Fraction(int(x))


def zint(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, z3.ArithRef) and x.is_int():
        return x
    if isinstance(x, Fraction) and x.denominator == 1:
        return z3.IntVal(int(x))
    raise Unsupported('not an int: %r' % (x,))


def zreal(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, z3.ArithRef):
        return x if x.is_real() else z3.ToReal(x)
    if isinstance(x, (bool, int, float, Fraction, _np.number, _np.bool_)):
        f = frac(x)
        return z3.RealVal(str(f.numerator) + '/' + str(f.denominator))
    raise Unsupported('not a number: %r' % (x,))


def isnum(x):
    return isinstance(x, (SInt, SReal, SBool, int, float, Fraction, _np.number, _np.bool_))


def isintlike(x):
    return isinstance(x, (SInt, SBool, int, _np.integer, _np.bool_))


def _inf(x):
    return isinstance(x, (float, _np.floating)) and (x in (float('inf'), float('-inf')) or x != x)


def mk(t):
    """Wrap a z3 term."""
    if isinstance(t, z3.BoolRef):
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return SBool(s)
    if isinstance(t, z3.ArithRef):
        if t.is_int():
            s = z3.simplify(t)
            if z3.is_int_value(s):
                return s.as_long()
            return SInt(s)
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            return Fraction(s.numerator_as_long(), s.denominator_as_long())
        return SReal(s)
    if t.sort() == ObjSort:
        return obj_of(t)
    raise Unsupported('sort %s' % t.sort())


def obj_of(t):
    c = CTX
    key = t.get_id()
    o = c.interned.get(key)
    if o is None:
        o = SObj(t)
        c.interned[key] = o
    return o


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CTX.decide(self.t)

    def __and__(self, o):
        return mk(z3.And(self.t, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mk(z3.Or(self.t, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mk(z3.Xor(self.t, zbool(o)))

    def __invert__(self):
        return mk(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mk(self.t == zbool(o))
        if isnum(o):
            return SInt(zint(self)) == o
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def _i(self):
        return SInt(zint(self))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __neg__(self): return -self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __repr__(self): return 'SBool(%s)' % self.t
    def __format__(self, spec): return '<bool>'
    def __index__(self): return 1 if bool(self) else 0
    def __int__(self): return 1 if bool(self) else 0


class SNum(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __hash__ = None

    def _bin(self, o, f, swap=False):
        if hasattr(o, '__pv_arr__'):
            return NotImplemented
        if not isnum(o):
            if isinstance(o, _np.ndarray) and o.ndim == 0:
                o = o.item()
            else:
                return NotImplemented
        if _inf(o):
            raise Unsupported('inf in arithmetic')
        if isinstance(self, SInt) and isintlike(o):
            a, b = zint(self), zint(o)
        else:
            a, b = zreal(self), zreal(o)
        if swap:
            a, b = b, a
        return mk(f(a, b))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mk(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.t >= 0, self.t, -self.t))

    def __truediv__(self, o):
        if hasattr(o, '__pv_arr__') or not isnum(o):
            return NotImplemented
        return truediv(self, o)

    def __rtruediv__(self, o):
        if hasattr(o, '__pv_arr__') or not isnum(o):
            return NotImplemented
        return truediv(o, self)

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return intdiv(self, o)[0]

    def __rfloordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return intdiv(o, self)[0]

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        return intdiv(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        if not isnum(o):
            return NotImplemented
        return intdiv(o, self)[1]

    def __divmod__(self, o):
        return intdiv(self, o)

    def __pow__(self, o):
        if hasattr(o, '__pv_arr__'):
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def _cmp(self, o, f, infres):
        if hasattr(o, '__pv_arr__'):
            return NotImplemented
        if not isnum(o):
            if isinstance(o, _np.ndarray) and o.ndim == 0:
                o = o.item()
            else:
                return NotImplemented
        if _inf(o):
            return infres(o)
        if isinstance(self, SInt) and isintlike(o):
            return mk(f(zint(self), zint(o)))
        return mk(f(zreal(self), zreal(o)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, SObj)):
            return False
        r = self._cmp(o, lambda a, b: a == b, lambda i: False)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def __bool__(self):
        return CTX.decide(self.t != 0)

    def __float__(self):
        raise Unsupported('float() of a symbolic number reached native code')

    def __format__(self, spec):
        return '<num>'

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)

    # numpy-scalar-like surface
    def item(self): return self

    @property
    def ndim(self): return 0

    @property
    def shape(self): return ()

    @property
    def array(self): return self

    @property
    def data(self): return self

    def astype(self, dt, copy=True): return self

    def copy(self): return self


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __invert__(self):
        return mk(-self.t - 1)

    def __round__(self, n=None): return self


class SReal(SNum):
    __slots__ = ()

    def __round__(self, n=None):
        raise Unsupported('round')


class SObj(Sym):
    __slots__ = ('t', '__weakref__')

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SObj):
            return mk(self.t == o.t)
        return False

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return 7

    def __bool__(self):
        raise Unsupported('truth value of an opaque object')

    def __repr__(self):
        return 'SObj(%s)' % self.t

    def __format__(self, spec):
        return '<obj>'


def concretize(x):
    """The unique value of x on this path, else fork over small values is refused."""
    if isinstance(x, int):
        return x
    c = CTX
    if c.sat() != 'sat':
        raise Unsupported('cannot concretize')
    v = c.solver.model().eval(x.t, model_completion=True).as_long()
    if c.sat(x.t != v) == 'unsat':
        return v
    raise Unsupported('symbolic integer used where native code needs a concrete one')


def truediv(a, b):
    if _inf(b):
        return Fraction(0)
    zb = zreal(b)
    if CTX.decide(zb == 0):
        raise ZeroDivisionError('division by zero')
    return mk(zreal(a) / zb)


def intdiv(a, b):
    """Python floor division and modulo."""
    if not (isintlike(a) and isintlike(b)):
        if isinstance(b, (SReal, SInt)) or isinstance(a, (SReal, SInt)):
            zb = zreal(b)
            if CTX.decide(zb == 0):
                raise ZeroDivisionError('modulo by zero')
            q = z3.ToInt(zreal(a) / zb)
            return mk(z3.ToReal(q)), mk(zreal(a) - zb * z3.ToReal(q))
        raise Unsupported('intdiv')
    za, zb = zint(a), zint(b)
    sb = z3.simplify(zb)
    if z3.is_int_value(sb):
        n = sb.as_long()
        if n == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if n > 0:
            return mk(za / zb), mk(za % zb)
        q = (-za) / z3.IntVal(-n)
        return mk(q), mk(za - zb * q)
    c = CTX
    if c.decide(zb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    key = (z3.simplify(za).get_id(), sb.get_id())
    if key in c.divmemo:
        q, r = c.divmemo[key][:2]
    else:
        q = z3.Int(c.name_('q'))
        r = z3.Int(c.name_('r'))
        c.divmemo[key] = (q, r, za, zb)
        if c.opaque_mod:
            # weaker: a function of both operands within its bounds (harnesses add proved lemmas)
            c.add(r == OMOD(z3.simplify(za), sb))
            c.add(q == ODIV(z3.simplify(za), sb))
        else:
            c.add(za == zb * q + r)
        c.add(z3.If(zb > 0, z3.And(r >= 0, r < zb), z3.And(r <= 0, r > zb)))
    return mk(q), mk(r)


OMOD = z3.Function('omod', z3.IntSort(), z3.IntSort(), z3.IntSort())
ODIV = z3.Function('odiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
RPOW = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def power(a, b):
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if isinstance(b, (int, Fraction)) and not isinstance(b, bool):
        if Fraction(b).denominator == 1:
            n = int(b)
            if 0 <= n <= 8:
                z = z3.IntVal(1) if isintlike(a) else z3.RealVal(1)
                base = zint(a) if isintlike(a) else zreal(a)
                for _ in range(n):
                    z = z * base
                return mk(z)
            if -4 <= n < 0:
                return truediv(1, power(a, -n))
    return mk(rpow(zreal(a), zreal(b)))


def rpow(za, zb):
    """Uninterpreted power with the axioms that hold for a>0 or integer exponents, instantiated at this term."""
    t = RPOW(za, zb)
    c = CTX
    if t.get_id() not in c.axseen:
        c.axseen.add(t.get_id())
        c.add(RPOW(za, z3.RealVal(0)) == 1)
        c.add(RPOW(za, z3.RealVal(1)) == za)
        c.add(z3.Implies(za > 0, t > 0))
        c.add(z3.Implies(za == 1, t == 1))
        c.keepalive.append(t)
        e = z3.simplify(zb)
        if z3.is_rational_value(e) and abs(e.as_fraction()) == Fraction(1, 2):
            c.add(z3.Implies(za > 0, t * t == za) if e.as_fraction() > 0 else z3.Implies(za > 0, t * t * za == 1))
        s = z3.simplify(za)
        if z3.is_app_of(s, z3.Z3_OP_DIV):
            x, y = s.children()
            c.add(z3.Implies(z3.And(x > 0, y > 0), t == RPOW(y / x, z3.simplify(-zb))))
    return t


# ---------------------------------------------------------------- logic helpers (no forking)

def And(*xs):
    xs = [zbool(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return mk(z3.And(xs)) if xs else True


def Or(*xs):
    xs = [zbool(x) for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    return mk(z3.Or(xs)) if xs else False


def Not(x):
    if isinstance(x, bool):
        return not x
    return mk(z3.Not(zbool(x)))


def Implies(a, b):
    return mk(z3.Implies(zbool(a), zbool(b)))


def Iff(a, b):
    return mk(zbool(a) == zbool(b))


def ite(c, a, b):
    """Merge two values of the same shape under c, forking only when shapes differ."""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    zc = z3.simplify(zbool(c))
    if z3.is_true(zc):
        return a
    if z3.is_false(zc):
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return mk(z3.If(zc, zbool(a), zbool(b)))
    if isnum(a) and isnum(b) and not _inf(a) and not _inf(b):
        if isintlike(a) and isintlike(b):
            return mk(z3.If(zc, zint(a), zint(b)))
        return mk(z3.If(zc, zreal(a), zreal(b)))
    if isinstance(a, SObj) and isinstance(b, SObj):
        return mk(z3.If(zc, a.t, b.t))
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    m = getattr(a, '__pv_ite__', None)
    if m is not None:
        r = m(zc, b)
        if r is not NotImplemented:
            return r
    return a if CTX.decide(zc) else b


def fresh_int(name='i', lo=None, hi=None, inp=False):
    c = CTX
    v = SInt(z3.Int(c.name_(name)))
    if lo is not None:
        c.assume(v >= lo)
    if hi is not None:
        c.assume(v < hi)
    if inp:
        c.inputs.append((name, v.t))
    return v


def fresh_real(name='x'):
    return SReal(z3.Real(CTX.name_(name)))


def fresh_bool(name='b'):
    return SBool(z3.Bool(CTX.name_(name)))


def fresh_obj(name='o'):
    return obj_of(z3.Const(CTX.name_(name), ObjSort))


def fun_obj(name, *sorts):
    return z3.Function(CTX.name_(name), *sorts, ObjSort)


def fun(name, *sorts):
    return z3.Function(CTX.name_(name), *sorts)


def same(a, b):
    """Deep symbolic equality as a boolean term (no forking where possible)."""
    if a is b:
        return True
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return Iff(a, b)
    if isnum(a) and isnum(b):
        if _inf(a) or _inf(b):
            return bool(_inf(a) and _inf(b) and a == b)
        if isintlike(a) and isintlike(b):
            return mk(zint(a) == zint(b))
        return mk(zreal(a) == zreal(b))
    if isinstance(a, SObj) and isinstance(b, SObj):
        return mk(a.t == b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And([same(x, y) for x, y in zip(a, b)] + [True])
    m = getattr(a, '__pv_same__', None)
    if m is not None:
        return m(b)
    m = getattr(b, '__pv_same__', None)
    if m is not None:
        return m(a)
    if is_sym(a) or is_sym(b):
        return False
    if type(a) in (str, bytes, type(None)) or type(b) in (str, bytes, type(None)):
        return a == b and type(a) == type(b)
    try:
        r = a == b
        return bool(r)
    except Control:
        raise
    except Exception:
        return False


def assume(c):
    CTX.assume(c)


def check(c, label):
    return CTX.check(c, label)


def cover(label):
    CTX.cover(label)


def choose(n, name='choice'):
    """Nondeterministic choice 0..n-1 (forks)."""
    v = fresh_int(name, 0, n)
    for i in range(n - 1):
        if v == i:
            return i
    return n - 1


# ---------------------------------------------------------------- driver

class Result(object):
    pass


def explore(name, fn, budget=60.0, timeout_ms=8000):
    """Run the harness fn() over all paths; -> Ctx with obligations, or status fields set."""
    from . import loops
    t0 = time.time()
    c = Ctx(name, t0 + budget, timeout_ms)
    c.status = 'ok'
    c.reason = ''
    set_ctx(c)
    c.infer = False
    rounds = 0

    def clear_obs():
        c.obligations, c.counts, c.backends, c.failed = {}, {}, {}, []
        c.paths = 0
    try:
        while True:
            c.worklist = [()]
            restarted = False
            clear_obs()
            while c.worklist:
                prefix = c.worklist.pop()
                c.reset(prefix)
                c.paths += 1
                if c.paths > c.max_paths:
                    raise Unsupported('too many paths')
                try:
                    fn()
                except (PathEnd, Infeasible):
                    pass
                except loops.RestartAt as r:
                    rounds += 1
                    if rounds > 4000:
                        raise Unsupported('contract inference does not converge')
                    p = tuple(r.prefix)
                    c.worklist = [w for w in c.worklist if tuple(w[:len(p)]) != p] + [p]
                    if not c.infer:
                        c.infer = True
                        restarted = True
                        c.worklist = [()]
                    continue
            if c.infer and not restarted:
                # inference reached a fixpoint: now the checking pass
                c.infer = False
                continue
            if restarted:
                # inference pass finished after a restart: check everything from scratch
                c.infer = False
                continue
            break
    except Unsupported as e:
        c.status, c.reason = 'unsupported', str(e)
        if os.environ.get('PYVC_DEBUG'):
            import traceback
            traceback.print_exc()
    except OutOfTime:
        c.status, c.reason = 'timeout', 'budget of %.0f s exhausted' % budget
    except RecursionError as e:
        c.status, c.reason = 'unsupported', 'recursion'
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        c.status, c.reason = 'error', '%s: %s at %s' % (type(e).__name__, e, [(f.name, f.lineno, f.filename[-40:]) for f in tb[-4:]])
        if os.environ.get('PYVC_DEBUG'):
            traceback.print_exc()
    c.secs = time.time() - t0
    set_ctx(None)
    return c
