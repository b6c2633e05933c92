"""Sums, minima and maxima of symbolic-length sequences as uninterpreted functions with instantiated axioms."""
import z3
from . import core
from .core import SInt, SReal, mk, zint, zreal, zbool, is_sym, isnum, isintlike, Unsupported
from .heap import Seq

_I = z3.Int('pv_sum_i')


def _fun(e_term, isint, kind, inner=False):
    """A function symbol F with F(0)=0 and F(j+1)=F(j)+e(j), keyed by the element expression in _I."""
    c = core.CTX
    key = (kind, e_term.sexpr(), isint)
    ent = c.sumfuns.get(key)
    if ent is None:
        sort = z3.IntSort() if isint else z3.RealSort()
        f = z3.Function(c.name_('SUM'), z3.IntSort(), sort)
        ent = c.sumfuns[key] = [f, e_term, isint, []] + (['inner'] if inner else [])
        c.add(f(0) == 0)
    return ent


def _inst(ent, n, among=None):
    """Unfold at n and relate to the other sums at n (to those in among only, if given)."""
    c = core.CTX
    f, e, isint, seen = ent[:4]
    key = n.get_id()
    if key not in seen:
        seen.append(key)
        c.keepalive.append(n)
        at = z3.substitute(e, (_I, n - 1))
        c.add(z3.Implies(n > 0, f(n) == f(n - 1) + at))
        c.add(z3.Implies(n <= 0, f(n) == 0))
    elif among is None:
        return
    if c.noext and among is None:
        if c.famdecl:
            discover(at)
        return
    for e2 in (list(c.sumfuns.values()) if among is None else among):
        if e2 is ent or e2[2] != isint or among is None and e2[4:]:
            continue
        if among is not None:
            pk = (ent[0].name(), e2[0].name(), key)
            if pk in c.sumpairs:
                continue
            c.sumpairs.add(pk)
        sk = z3.Int(c.name_('sumsk'))
        l, r = z3.substitute(e, (_I, sk)), z3.substitute(e2[1], (_I, sk))
        c.add(z3.Or(z3.And(sk >= 0, sk < n, l != r), f(n) == e2[0](n)))
        related(l, r)
        if len(c.sumfuns) <= 4:
            # one element may differ at the end
            sk = z3.Int(c.name_('sumsk'))
            l, r = z3.substitute(e, (_I, sk)), z3.substitute(e2[1], (_I, sk))
            c.add(z3.Or(z3.And(sk >= 0, sk < n - 1, l != r), n <= 0, f(n - 1) == e2[0](n - 1)))
            related(l, r)


# ---- families: sums whose element depends on enclosing bound indices are functions of those indices as well
def _family(t, isint, qs, n):
    """The sum of t below n as an application of a function of the bound variables qs it mentions."""
    c = core.CTX
    ps = [z3.Int('pv_sum_p%d' % i) for i in range(len(qs))]
    e = canon(z3.substitute(t, *zip(qs, ps)))
    fams = c.sumfams
    key = (e.sexpr(), isint, len(qs))
    ent = fams.get(key)
    if ent is None:
        sort = z3.IntSort() if isint else z3.RealSort()
        f = z3.Function(c.name_('FSUM'), *([z3.IntSort()] * (len(qs) + 1) + [sort]))
        ent = fams[key] = (f, e, isint, ps)
        c.famdecl[f.name()] = ent
    return ent[0](*(list(qs) + [n]))


def members(t):
    """The family members that occur in a ground term."""
    c = core.CTX
    out = []
    if not c.famdecl:
        return out
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or z3.is_var(x):
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
        if z3.is_app(x) and x.decl().name() in c.famdecl and not core.mentions(x, _I) and not any(core.mentions(x, q) for q in c.qvars):
            out.append(x)
    return out


def _ground(x, inner):
    """The ground sum that the family member x is."""
    c = core.CTX
    ent = c.fammembers.get(x.get_id())
    if ent is not None:
        return ent[1]
    f, e, isint, ps = c.famdecl[x.decl().name()]
    args, n = x.children()[:-1], x.children()[-1]
    el = canon(z3.substitute(e, *zip(ps, args)))
    ent = _fun(el, isint, 'sum', inner)
    c.fammembers[x.get_id()] = (x, ent)
    c.keepalive.append(x)
    c.add(x == ent[0](n))
    return ent


def discover(t):
    for x in members(t):
        _inst(_ground(x, False), x.children()[-1])


def related(l, r):
    """l and r are corresponding elements of two sums: relate the sums inside them."""
    xs, ys = members(l), members(r)
    for x in xs:
        for y in ys:
            if x.decl().name() != y.decl().name() and z3.eq(x.children()[-1], y.children()[-1]):
                _inst(_ground(x, True), x.children()[-1], [_ground(y, True)])


def canon(t):
    return z3.simplify(t, sort_sums=True)


def _term(v):
    if isintlike(v):
        return zint(v), True
    if isnum(v):
        return zreal(v), False
    raise Unsupported('sum of non-numbers')


def element(s, what, free=False):
    """The element term of s over the index constant _I (a reduction must not depend on an enclosing bound variable)."""
    c = core.CTX
    me = z3.Int('pv_sum_i%d' % len(c.qvars))
    c.bound(me, s.n)
    try:
        v = s.at(SInt(me))
        t, isint = _term(v)
    finally:
        c.unbound()
    t = z3.simplify(t)
    for q in c.qvars:
        if not free and core.mentions(t, q):
            raise Unsupported('%s inside a quantified term' % what)
    return canon(z3.substitute(t, (me, _I))), isint


def seq_sum(s):
    t, isint = element(s, 'sum', True)
    qs = [q for q in core.CTX.qvars if core.mentions(t, q)]
    if qs:
        return mk(_family(t, isint, qs, z3.simplify(zint(s.n))))
    ent = _fun(t, isint, 'sum')
    n = z3.simplify(zint(s.n))
    _inst(ent, n)
    return mk(ent[0](n))


def _reduction(s, op):
    """(value, index) of the largest or smallest element of a non-empty sequence; the index is the first such."""
    c = core.CTX
    t, isint = element(s, op)
    n = z3.simplify(zint(s.n))
    key = ('red', op, t.sexpr(), n.sexpr())
    ent = c.sumfuns_red.get(key)
    if ent is not None:
        return ent
    a = z3.Int(c.name_('arg' + op))
    def at(i):
        r = z3.substitute(t, (_I, i))
        if not z3.eq(i, q):
            discover(r)
        return r
    q = z3.Int(c.name_('rq'))
    v = z3.Const(c.name_(op), z3.IntSort() if isint else z3.RealSort())
    le = (lambda x, y: x <= y) if op == 'max' else (lambda x, y: x >= y)
    lt = (lambda x, y: x < y) if op == 'max' else (lambda x, y: x > y)

    def inst(i):
        c.add(z3.Implies(z3.And(i >= 0, i < n), z3.And(le(at(i), v), z3.Implies(i < a, lt(at(i), v)))))
    c.add(z3.Implies(n > 0, z3.And(a >= 0, a < n, v == at(a))))
    others = list(c.sumfuns_red.values())
    ent = c.sumfuns_red[key] = (mk(v), mk(a), inst, a, isint)
    c.keepalive.extend((t, n, a, v))
    for o in others:
        inst(o[3])
        o[2](a)
    for i in c.red_indices:
        inst(i)
    s.at(mk(a))
    c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(le(at(q), v), z3.Implies(q < a, lt(at(q), v))))))
    return ent


def about_index(i):
    """State the bound facts of all reductions at index i."""
    c = core.CTX
    i = zint(i)
    c.red_indices.append(i)
    for o in list(c.sumfuns_red.values()):
        o[2](i)


def reduce_term(s, op):
    c = core.CTX
    if not c.in_quant and c.decide(zbool(s.n <= 0)):
        raise ValueError('zero-size array to reduction operation %s' % op)
    return _reduction(s, op)[0]


def arg_term(s, op):
    c = core.CTX
    if not c.in_quant and c.decide(zbool(s.n <= 0)):
        raise ValueError('attempt to get arg%s of an empty sequence' % op)
    return _reduction(s, op)[1]


def partial(kconst, e, k):
    """Sum of e(j) for j < k, e a value over the index constant kconst."""
    t, isint = _term(e)
    t = z3.simplify(z3.substitute(t, (kconst, _I)))
    ent = _fun(t, isint, 'sum')
    n = z3.simplify(zint(k))
    _inst(ent, n)
    c = core.CTX
    at = z3.substitute(t, (_I, n))
    # forward unfolding as well
    key = ('fwd', n.get_id())
    if key not in ent[3]:
        ent[3].append(key)
        c.keepalive.append(n)
        c.add(z3.Implies(n >= 0, ent[0](n + 1) == ent[0](n) + at))
    return mk(ent[0](n))


def seq_minmax(s, name):
    """The least or largest element."""
    if core.CTX.decide(zbool(s.n <= 0)):
        raise ValueError('%s() arg is an empty sequence' % name)
    return _reduction(s, name)[0]


def upto(v, k):
    """v with its sums cut off below k."""
    c = core.CTX
    t = zreal(v) if not core.isintlike(v) else zint(v)
    k = z3.simplify(zint(k))
    sub, todo, seen = [], [t], set()
    names = {e[0].name(): e for e in c.sumfuns.values()}
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names and x.num_args() == 1:
            e = names[x.decl().name()]
            _inst(e, k)
            sub.append((x, e[0](k)))
            continue
        todo.extend(x.children())
    return mk(z3.substitute(t, *sub)) if sub else mk(t)
