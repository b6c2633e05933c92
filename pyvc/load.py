"""Mechanical extraction: parse the real source under /repo, rewrite it so that CPython can execute it over symbolic
values, and load it as a parallel module tree ("world").

The rewriting drops nothing of the functions: it replaces loop statements by the same loop with a contract head, list /
dict / set displays and comprehensions by heap objects of heap.py, float literals by exact rationals, string formatting
by structure-keeping formatting, truth tests by symbolic-aware ones, and makes generator functions eager.
Decorators, classes, closures, exceptions, super() etc. are executed by CPython itself."""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction
from . import core, heap
from .core import Unsupported

REPO = os.environ.get('PYVC_REPO', '/repo')


# ------------------------------------------------------------------ AST rewriting

def _n(name):
    return ast.Name(name, ast.Load())


def _attr(name):
    return ast.Attribute(_n('_pv'), name, ast.Load())


def _call(name, *args, **kw):
    return ast.Call(_attr(name), list(args), [ast.keyword(k, v) for k, v in kw.items()])


def _lam(args, body):
    return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)


class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names and not n.startswith('_pvl'):
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    def visit_ClassDef(self, node):
        self.add(node.name)

    def visit_Lambda(self, node):
        pass

    def visit_Import(self, node):
        for a in node.names:
            self.add((a.asname or a.name).split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, node):
        # the handler name is unbound afterwards: not a live location
        for b in node.body:
            self.visit(b)

    def _comp(self, node):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_NamedExpr(self, node):
        self.add(node.target.id)
        self.visit(node.value)


def _has_yield(fn):
    class V(ast.NodeVisitor):
        found = False

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)

        def visit_Lambda(self, n):
            pass
    v = V()
    v.visit(fn)
    return v.found


def _is_ctxmgr(fn):
    for d in fn.decorator_list:
        if 'contextmanager' in ast.dump(d):
            return True
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loopno = {}
        self.uid = 0
        self.infn = 0
        self.eager = []

    def qual(self):
        return self.mod + ':' + '.'.join(self.stack)

    # -- functions / classes
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        infn, self.infn = self.infn, 0
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        body = []
        for b in node.body:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.infn = infn
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        gen = _has_yield(node) and not _is_ctxmgr(node)
        if node.name == '__del__':
            node.name = 'pv_del'        # finalizers are not run by the verifier
        self.stack.append(node.name)
        self.infn += 1
        self.eager.append(gen)
        node.args = self.visit(node.args)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        body = []
        doc = []
        src = node.body
        if src and isinstance(src[0], ast.Expr) and isinstance(src[0].value, ast.Constant) \
                and isinstance(src[0].value.value, str):
            doc, src = src[:1], src[1:]
        for b in src:
            r = self.visit(b)
            body.extend(r if isinstance(r, list) else [r])
        enter = ast.Expr(_call('enter', ast.Constant(self.qual())))
        pre = [enter]
        if gen:
            pre.append(ast.Assign([ast.Name('_pvyield', ast.Store())], _call('mkyield')))
            body = body + [ast.Return(_call('gendone', _n('_pvyield')))]
        node.body = doc + pre + body
        self.eager.pop()
        self.infn -= 1
        self.stack.pop()
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Return(self, node):
        if self.eager and self.eager[-1]:
            return ast.Return(_call('gendone', _n('_pvyield')))
        self.generic_visit(node)
        return node

    def visit_Yield(self, node):
        if self.eager and self.eager[-1]:
            v = self.visit(node.value) if node.value else ast.Constant(None)
            return ast.Call(ast.Attribute(_n('_pvyield'), 'append', ast.Load()), [v], [])
        self.generic_visit(node)
        return node

    def visit_YieldFrom(self, node):
        if self.eager and self.eager[-1]:
            return ast.Call(ast.Attribute(_n('_pvyield'), 'extend', ast.Load()), [self.visit(node.value)], [])
        self.generic_visit(node)
        return node

    def visit_Lambda(self, node):
        self.eager.append(False)
        self.generic_visit(node)
        self.eager.pop()
        return node

    # -- literals
    def visit_Constant(self, node):
        if isinstance(node.value, float) and not isinstance(node.value, bool):
            return _call('R', ast.Constant(repr(node.value)))
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return _call('mklist', node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('mkset', ast.List(node.elts, ast.Load()))

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([_attr('STAR'), v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return _call('mkdict', ast.List(items, ast.Load()))

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant('')
                if v.format_spec is not None:
                    spec = ast.JoinedStr([self.visit(x) if isinstance(x, ast.FormattedValue) else x
                                          for x in v.format_spec.values])
                parts.append(ast.Tuple([val, spec, ast.Constant(v.conversion)], ast.Load()))
        return _call('joined', ast.List(parts, ast.Load()))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return _call('fmtmod', node.left, node.right)
        if isinstance(node.op, ast.Add):
            return _call('add', node.left, node.right)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str):
            self.generic_visit(node)
            return ast.Call(_attr('fmt'), [f.value] + node.args, node.keywords)
        if isinstance(f, ast.Attribute) and f.attr == 'join' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str):
            self.generic_visit(node)
            return ast.Call(_attr('strjoin'), [f.value] + node.args, node.keywords)
        if isinstance(f, ast.Name) and f.id == 'zip' and len(node.args) == 1 and isinstance(node.args[0], ast.Starred) \
                and not node.keywords:
            return _call('zipstar', self.visit(f), self.visit(node.args[0].value))
        self.generic_visit(node)
        return node

    # -- comprehensions
    def _bind(self, target, body):
        """lambda _x: body with target destructured from _x."""
        if isinstance(target, ast.Name):
            return _lam([target.id], body)
        if isinstance(target, (ast.Tuple, ast.List)):
            names = []
            inner = body
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Name):
                    names.append(t.id)
                elif isinstance(t, ast.Starred):
                    raise Unsupported('starred comprehension target')
                else:
                    self.uid += 1
                    nm = '_pvt%d' % self.uid
                    names.append(nm)
                    inner = ast.Call(self._bind(t, inner), [_n(nm)], [])
            self.uid += 1
            x = '_pvx%d' % self.uid
            # duplicate names such as (_, _) are made unique
            seen = set()
            for i in range(len(names) - 1, -1, -1):
                if names[i] in seen:
                    self.uid += 1
                    names[i] = '_pvd%d' % self.uid
                seen.add(names[i])
            return _lam([x], ast.Call(_lam(names, inner),
                                      [ast.Starred(_call('unpack', _n(x), ast.Constant(len(names))), ast.Load())], []))
        raise Unsupported('comprehension target')

    def _comp(self, node, elt):
        gens = node.generators
        # first iterable is evaluated eagerly, like Python
        def build(i):
            if i == len(gens):
                return None
            g = gens[i]
            it = self.visit(g.iter)
            conds = [self._test(self.visit(c)) for c in g.ifs]
            cond = ast.Constant(None)
            if conds:
                cond = self._bind(g.target, conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
            if i + 1 == len(gens):
                return it, cond, self._bind(g.target, elt), ast.Constant(False)
            sub = build(i + 1)
            return it, cond, self._bind(g.target, _call('comp', *sub)), ast.Constant(True)
        return build(0)

    def visit_ListComp(self, node):
        elt = self.visit(node.elt)
        return _call('listcomp', _call('comp', *self._comp(node, elt)))

    def visit_GeneratorExp(self, node):
        elt = self.visit(node.elt)
        return _call('genexp', *self._comp(node, elt))

    def visit_SetComp(self, node):
        elt = self.visit(node.elt)
        return _call('setcomp', _call('comp', *self._comp(node, elt)))

    def visit_DictComp(self, node):
        elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        return _call('dictcomp', _call('comp', *self._comp(node, elt)))

    # -- truth tests
    def _test(self, e):
        if isinstance(e, ast.BoolOp):
            return ast.BoolOp(e.op, [self._test(v) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return e
        if isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            return _call('tb', e)
        return e

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
            return ast.copy_location(ast.fix_missing_locations(ast.Call(
                ast.Attribute(ast.Name('_pv', ast.Load()), 'isnone' if isinstance(node.ops[0], ast.Is) else 'isnotnone', ast.Load()),
                [node.left], [])), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            node.operand = self._test(node.operand)
        return node

    def visit_If(self, node):
        node.test = self._test(self.visit(node.test))
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return _call('ifexp', node.test, _lam([], node.body), _lam([], node.orelse)) \
            if not self._unsafe_lam(node) else ast.IfExp(self._test(node.test), node.body, node.orelse)

    @staticmethod
    def _unsafe_lam(node):
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('super', 'locals'):
                return True
        return False

    def visit_Assert(self, node):
        node.test = self._test(self.visit(node.test))
        if node.msg is not None:
            node.msg = self.visit(node.msg)
        return node

    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = _attr('CATCHABLE')
        else:
            node.type = self.visit(node.type)
            node.type = _call('exctypes', node.type)
        node.body = self._block(node.body)
        return node

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    # -- loops
    def _loop(self, node, is_for):
        if self.infn == 0:
            self.generic_visit(node)
            return node
        a = _Assigned()
        if is_for:
            a.visit(node.target)
        for s in node.body + ([] if is_for else [ast.Expr(node.test)]):
            a.visit(s)
        names = a.names
        q = self.qual()
        no = self.loopno.get(q, 0)
        self.loopno[q] = no + 1
        self.uid += 1
        lp = '_pvl%d' % self.uid
        lpn = lambda: _n(lp)

        def m(meth, *args):
            return ast.Call(ast.Attribute(lpn(), meth, ast.Load()), list(args), [])
        it = self.visit(node.iter) if is_for else ast.Constant(None)
        init = ast.Assign([ast.Name(lp, ast.Store())],
                          _call('loop', ast.Constant(q), ast.Constant(no), ast.Constant('for' if is_for else 'while'),
                                it, ast.Tuple([ast.Constant(x) for x in names], ast.Load())))
        reload_ = []
        for x in names:
            reload_.append(ast.If(m('has', ast.Constant(x)),
                                  [ast.Assign([ast.Name(x, ast.Store())], m('get', ast.Constant(x)))], []))
        head = ast.If(m('head', ast.Call(_attr('locals_'), [ast.Call(_n('locals'), [], [])], [])),
                      reload_ or [ast.Pass()], [])
        if is_for:
            tgt = node.target
            cond = ast.If(ast.UnaryOp(ast.Not(), m('more')), [ast.Break()], [])
            nxt = [ast.Assign([tgt], m('next'))]
        else:
            cond = ast.If(ast.UnaryOp(ast.Not(), m('test', self._test_sym(self.visit(node.test)))), [ast.Break()], [])
            nxt = []
        body = self._block(node.body)
        w = ast.While(ast.Constant(True), [head, cond] + nxt + body, [])
        out = [init, w]
        if node.orelse:
            out.append(ast.If(ast.Attribute(lpn(), 'exhausted', ast.Load()), self._block(node.orelse), []))
        return out

    def _test_sym(self, e):
        """While tests: a lambda, so that the loop can decide whether to cut before forking."""
        if self._unsafe_lam(e):
            return _lam([], self._test(e))
        return _lam([], self._test(e))

    def visit_For(self, node):
        return self._loop(node, True)

    def visit_While(self, node):
        return self._loop(node, False)


def rewrite(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


_code_cache = {}


def code_for(path, modname):
    st = os.stat(path)
    key = (path, modname)
    if key not in _code_cache:
        with open(path) as f:
            src = f.read()
        try:
            _code_cache[key] = rewrite(src, modname, path)
        except SyntaxError as e:
            raise Unsupported('syntax error in %s: %s' % (path, e))
    return _code_cache[key]


# ------------------------------------------------------------------ runtime support

_cd = {}


def comp_driver():
    if 'f' not in _cd:
        _cd['f'] = World().load_foreign('pv_comp', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'comploop.py')).comp_loop
    return _cd['f']


CATCHABLE = (Exception, KeyboardInterrupt, SystemExit, GeneratorExit)


class SFmt(object):
    """Structured string containing symbolic parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SFmt):
                ps = p.parts
            elif isinstance(p, heap.SStr):
                ps = [p.v]
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' or not isinstance(q, str):
                    out.append(q)
        self.parts = out

    def __pv_same__(self, o):
        if isinstance(o, heap.SStr):
            o = SFmt([o])
        if not isinstance(o, SFmt) or len(o.parts) != len(self.parts):
            return False
        return core.And([core.same(a, b) for a, b in zip(self.parts, o.parts)] + [True])

    def __eq__(self, o):
        return core.same(self, o)

    __hash__ = None

    def __add__(self, o):
        return SFmt([self, o])

    def __radd__(self, o):
        return SFmt([o, self])

    def __str__(self):
        return ''.join(p if isinstance(p, str) else '<sym>' for p in self.parts)

    def __repr__(self):
        return 'SFmt(%r)' % (self.parts,)

    def __format__(self, s):
        return str(self)


def _symstr(x):
    return core.is_sym(x) or isinstance(x, (SFmt, heap.SStr))


class Runtime(object):
    """The `_pv` object visible to rewritten code."""
    CATCHABLE = CATCHABLE
    STAR = object()

    @staticmethod
    def enter(q):
        c = core.CTX
        if c is not None:
            c.functions.add(q)

    @staticmethod
    def R(s):
        if s in ('inf', '-inf', 'nan'):
            return float(s)
        return Fraction(s)

    @staticmethod
    def mklist(x):
        return heap.PList(x)

    @staticmethod
    def mkset(x):
        return heap.PSet(heap.iter_native(x))

    @staticmethod
    def mkdict(items):
        d = heap.PDict()
        for k, v in items:
            if k is Runtime.STAR:
                d.update(v)
            else:
                d[k] = v
        return d

    @staticmethod
    def isnone(x):
        return x.__pv_isnone__() if hasattr(type(x), '__pv_isnone__') else x is None

    @staticmethod
    def isnotnone(x):
        return core.Not(x.__pv_isnone__()) if hasattr(type(x), '__pv_isnone__') else x is not None

    @staticmethod
    def locals_(d):
        return d

    @staticmethod
    def mkyield():
        """what a generator yields is collected, or given to the sink of the harness"""
        sink = core.CTX.__dict__.pop('yield_sink', None)
        return heap.PList([]) if sink is None else sink

    @staticmethod
    def gendone(l):
        if not isinstance(l, heap.PList):
            return l
        return heap.PSeqIter(l.s)

    @staticmethod
    def exctypes(t):
        ts = t if isinstance(t, tuple) else (t,)
        return tuple(x for x in ts if isinstance(x, type) and issubclass(x, BaseException))

    @staticmethod
    def unpack(x, n):
        if heap.has_seq(x):
            it = x.__pv_seq__()
            if it.force() is None:
                if core.CTX.known(core.same(it.n, n)) is True:
                    return [it.at(i) for i in range(n)]
                raise Unsupported('unpacking a symbolic-length sequence')
            x = it.items
        x = tuple(x)
        if len(x) != n:
            raise ValueError('not enough/too many values to unpack (expected %d)' % n)
        return x

    @staticmethod
    def zipstar(z, x):
        if z is not heap.pv_zip or not heap.is_symseq(x):
            return z(*x)
        s = heap.to_seq(x)
        if core.CTX.known(s.n >= 1) is not True:
            raise Unsupported('transposing a possibly empty sequence')
        i = core.fresh_int('row', 0)
        probe = s.at(0)
        if not isinstance(probe, tuple):
            raise Unsupported('transposing a sequence of %r' % type(probe))

        def col(j):
            return heap.PList(seq=heap.Seq(n=s.n, at=lambda i: s.at(i)[j]))
        return tuple(col(j) for j in range(len(probe)))

    @staticmethod
    def comp(it, cond, f, nested):
        """-> Seq (possibly lazy)."""
        if heap.is_symseq(it):
            s = heap.to_seq(it)
            if core.CTX.effect_comps and cond is None and not nested and not core.CTX.in_lazy:
                # collaborators have effects: executed as the loop that a list comprehension is
                out = heap.PList()
                comp_driver()(heap.PSeqIter(s), out, f)
                return out.s
            if isinstance(it, heap.PSeqIter):
                it.pos = it.s.n
            from . import loops
            f, cond = loops.frozen(f), loops.frozen(cond)
            if cond is not None:
                if nested:
                    raise Unsupported('nested filtered comprehension over a symbolic-length sequence')
                return heap.sym_filter(s, cond, f)
            if nested:
                return heap.sym_flatten(s, f)
            c = core.CTX

            def at(i):
                x = s.at(i)
                c.in_lazy += 1
                try:
                    return f(x)
                finally:
                    c.in_lazy -= 1
            return heap.Seq(n=s.n, at=heap.memo_at(at))
        out = []
        acc = None
        for x in heap.iter_native(it):
            if cond is not None and not cond(x):
                continue
            v = f(x)
            if nested:
                acc = v if acc is None else acc.concat(v)
            else:
                out.append(v)
        if nested:
            return acc if acc is not None else heap.Seq(())
        return heap.Seq(out)

    @staticmethod
    def listcomp(s):
        return heap.PList(seq=s)

    @staticmethod
    def setcomp(s):
        return heap.PSet(heap.iter_native(heap.PList(seq=s)))

    @staticmethod
    def dictcomp(s):
        d = heap.PDict()
        for k, v in heap.iter_native(heap.PList(seq=s)):
            d[k] = v
        return d

    @staticmethod
    def genexp(it, cond, f, nested):
        if heap.is_symseq(it) or nested:
            return heap.PSeqIter(Runtime.comp(it, cond, f, nested))

        def g():
            for x in heap.iter_native(it):
                if cond is not None and not cond(x):
                    continue
                yield f(x)
        return g()

    @staticmethod
    def tb(x):
        if isinstance(x, (bool, core.SBool, core.SInt, core.SReal)):
            return x
        if x is None or isinstance(x, (str, int, tuple)):
            return x
        t = type(x)
        if isinstance(getattr(t, '__pv_bool__', None), types.FunctionType):
            return t.__pv_bool__(x)
        if hasattr(t, '__bool__'):
            return x
        if hasattr(t, '__len__'):
            r = heap.pv_len(x)
            return r if isinstance(r, int) else (r != 0)
        return x

    @staticmethod
    def ifexp(test, a, b):
        t = Runtime.tb(test)
        if isinstance(t, core.SBool) and core.CTX.in_quant:
            return core.ite(t, a(), b())
        return a() if t else b()

    @staticmethod
    def add(a, b):
        if isinstance(a, str) and isinstance(b, (SFmt, heap.SStr)):
            return SFmt([a, b])
        if isinstance(a, heap.SStr) and isinstance(b, (str, SFmt, heap.SStr)):
            return SFmt([a, b])
        if isinstance(a, tuple) and isinstance(b, heap.PTuple):
            return heap.PTuple(seq=heap.to_seq(a).concat(b.s))
        if isinstance(a, heap.PTuple) and isinstance(b, (heap.PTuple, tuple)):
            return heap.PTuple(seq=a.s.concat(heap.to_seq(b)))
        return a + b

    @staticmethod
    def fmt(f, *a, **k):
        if not any(_symstr(x) for x in a) and not any(_symstr(x) for x in k.values()):
            try:
                return f.format(*a, **k)
            except core.Control:
                raise
            except TypeError:
                return '<fmt>'
        import string
        parts = []
        auto = 0
        for lit, name, spec, conv in string.Formatter().parse(f):
            if lit:
                parts.append(lit)
            if name is None:
                continue
            if name == '':
                v = a[auto]
                auto += 1
            elif name.isdigit():
                v = a[int(name)]
            elif name in k:
                v = k[name]
            else:
                v = '<%s>' % name
            if _symstr(v):
                if spec:
                    parts.append('<%s>' % spec)
                parts.append(v)
            else:
                try:
                    parts.append(format(v, spec or ''))
                except TypeError:
                    parts.append(str(v))
        return SFmt(parts)

    @staticmethod
    def fmtmod(f, a):
        args = a if isinstance(a, tuple) else (a,)
        if not any(_symstr(x) for x in args):
            try:
                return f % a
            except TypeError:
                return '<fmt>'
        import re
        parts, i, pos = [], 0, 0
        for m in re.finditer(r'%[-+ #0-9.]*([sdifr])', f):
            parts.append(f[pos:m.start()])
            parts.append(args[i] if _symstr(args[i]) else str(args[i]))
            i += 1
            pos = m.end()
        parts.append(f[pos:])
        return SFmt(parts)

    @staticmethod
    def joined(parts):
        if not any(isinstance(p, tuple) and _symstr(p[0]) for p in parts):
            return ''.join(p if isinstance(p, str) else format(
                {115: str, 114: repr, 97: ascii}.get(p[2], lambda x: x)(p[0]), p[1]) for p in parts)
        return SFmt([p if isinstance(p, str) else (p[0] if _symstr(p[0]) else str(p[0])) for p in parts])

    @staticmethod
    def strjoin(sep, xs):
        xs = list(heap.iter_native(xs))
        if not any(_symstr(x) for x in xs):
            return sep.join(xs)
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.append(x)
        return SFmt(out)

    @staticmethod
    def loop(q, no, kind, it, names):
        from . import loops
        return loops.Loop(q, no, kind, it, names)


# ------------------------------------------------------------------ world of modules

class LazyPkg(types.ModuleType):
    def __init__(self, world, name, path):
        super().__init__(name)
        self.__dict__['_w'] = world
        self.__dict__['__path__'] = [path]
        self.__dict__['_exports'] = None

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        d = self.__dict__
        sub = d['__name__'] + '.' + k
        if d['_exports'] is None:
            d['_exports'] = parse_exports(os.path.join(d['__path__'][0], '__init__.py'))
        if k in d['_exports'] and d['_exports'][k][0] != d['__name__']:
            mod, nm = d['_exports'][k]
            m = d['_w'].load(mod)
            v = getattr(m, nm) if nm is not None else m
            d[k] = v
            return v
        if d['_w'].find(sub):
            v = d['_w'].load(sub)
            d[k] = v
            return v
        raise AttributeError('module %s has no attribute %s' % (d['__name__'], k))


def parse_exports(path):
    out = {}
    if not os.path.exists(path):
        return out
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.ImportFrom) and node.module and node.level == 0:
            for a in node.names:
                out[a.asname or a.name] = (node.module, a.name)
    return out


class World(object):
    """One rewritten copy of the needed /repo modules over model libraries."""

    def __init__(self, models=None, overrides=None):
        self.mods = {}
        from . import models as M
        self.models = dict(M.base_models())
        if models:
            self.models.update(models)
        self.overrides = overrides or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(heap.BUILTINS)
        self.builtins['__import__'] = self.import_
        self.builtins['open'] = self._open
        self.builtins['_pv'] = Runtime
        self.files = None

    def _open(self, *a, **k):
        if core.CTX is not None and getattr(core.CTX, 'fs', None) is not None:
            return core.CTX.fs.open(*a, **k)
        raise Unsupported('open()')

    def find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            return 'pkg', base
        if os.path.exists(base + '.py'):
            return 'mod', base + '.py'
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            raise ImportError('No module named %s' % name)
        kind, path = f
        if kind == 'pkg':
            m = LazyPkg(self, name, path)
            self.mods[name] = m
            return m
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        try:
            exec(code_for(path, name), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m

    def load_foreign(self, name, path):
        """A file outside /repo (e.g. gym wrappers) rewritten the same way."""
        if name in self.mods:
            return self.mods[name]
        m = types.ModuleType(name)
        m.__dict__['__builtins__'] = self.builtins
        m.__file__ = path
        self.mods[name] = m
        exec(code_for(path, name), m.__dict__)
        return m

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported('relative import')
        if name == 'chainerrl' or name.startswith('chainerrl.'):
            if fromlist:
                m = self.load(name)
                return m
            # import a.b.c: make sure it loads, return the root
            parts = name.split('.')
            m = self.load(parts[0])
            cur = parts[0]
            for p in parts[1:]:
                cur += '.' + p
                getattr(m, p)
                m = self.load(cur)
            return self.load(parts[0])
        if name in self.models:
            m = self.models[name]
            if fromlist or '.' not in name:
                return m
            return self.models[name.split('.')[0]]
        if name.split('.')[0] in self.models:
            root = self.models[name.split('.')[0]]
            m = root
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m if fromlist else root
        if name.split('.')[0] in NATIVE_OK:
            return builtins.__import__(name, globals, locals, fromlist, level)
        return M_missing(name)


def M_missing(name):
    from . import models as M
    return M.missing(name)


NATIVE_OK = {'abc', 'contextlib', 'functools', 'warnings', 'numbers', 'operator', 'string', 'types', 'typing',
             'errno', 'shutil', 'datetime', 'argparse', 'json', 'subprocess', 'sys', 'traceback', 'tempfile', 'math',
             'pickle', 'builtins', 're', 'inspect', 'enum', '__future__', 'signal', 'queue', 'threading'}
