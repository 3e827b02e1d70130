"""Loads pwtools modules from /repo's current source for symbolic execution.

What happens to the source on the way (this is all the extraction drops or changes):
 * imports of numpy, math, scipy, pwtools.* are redirected to the models / to modules loaded the same way;
 * a `for` statement whose body has no break/return/yield gets a second branch, taken only when the
   iterable has symbolic length, in which the body is executed for one arbitrary iteration and summarised
   (loops.py); with a concrete iterable the original statement runs;
 * list comprehensions over one iterable without filter get the analogous treatment (lazy sequence);
 * the builtins len, range, zip, enumerate, isinstance-targets int/float/str/list/..., sum, min, max, ... are
   replaced by versions that also accept symbolic values.
Everything else is the code of the repository as CPython runs it.
"""
import ast, builtins, os, sys, types, importlib
import numpy as _np
import z3
from . import core, arr, seq, npf, text
from .core import Sym, Unsupported, R, I, B, U
from .arr import SymArr, as_arr, conc
from .seq import SymSeq, SymRange

SRC = os.environ.get('VERIF_REPO', '/repo') + '/src'


# ------------------------------------------------------------------ builtins

def _instcls(name, real, test, call):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or test(x)

        def __subclasscheck__(cls, c):
            return issubclass(c, real)

        def __call__(cls, *a, **k):
            return call(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __repr__(cls):
            return repr(real)
    d = {'__doc__': real.__doc__, '_real': real}
    if real in (int, float, bool, str):
        d['dtype'] = _np.dtype(real)
    return M(name, (), d)


def _int(x=0, *a):
    if isinstance(x, Sym):
        return core.trunc(x)
    if isinstance(x, SymArr):
        return core.trunc(x.item())
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, Sym):
        return core.cast(x, 'f')
    if isinstance(x, SymArr):
        return core.cast(x.item(), 'f')
    return float(x)


def _bool(x=False):
    if isinstance(x, Sym):
        return core.mkb(core.boolexpr(x))
    return bool(x)


def _str(*a, **k):
    if len(a) == 1 and not k:
        return text.to_str(a[0])
    return str(*a, **k)


def _repr(x):
    if isinstance(x, Sym) and x.k != U:
        return text.Rope([text.Fmt('%r', x)])
    if text.has_sym(x):
        return text.Rope([text.Hole('repr()')])
    return repr(x)


def _print(*a, **k):
    if not any(text.has_sym(x) for x in a):
        print(*a, **k)


def _list(x=()):
    if isinstance(x, SymSeq):
        return x.copy() if conc(x.n) is None else [x.fn(i) for i in range(conc(x.n))]
    if isinstance(x, SymArr) and conc(x.shape_[0]) is None:
        return SymSeq(x.shape_[0], lambda i: seq.item(x, i))
    if isinstance(x, SymRange):
        if conc(x.length()) is None:
            return SymSeq(x.length(), x.at)
    return list(x)


def _tuple(x=()):
    if seq.is_symbolic_iter(x):
        return _list(x)
    return tuple(x)


sym_int = _instcls('sym_int', int, lambda x: isinstance(x, Sym) and x.k == I, _int)
sym_float = _instcls('sym_float', float, lambda x: isinstance(x, Sym) and x.k == R, _float)
sym_bool = _instcls('sym_bool', bool, lambda x: isinstance(x, Sym) and x.k == B, _bool)
sym_str = _instcls('sym_str', str, text.is_symtext, _str)
sym_list = _instcls('sym_list', list, lambda x: isinstance(x, SymSeq), _list)
sym_tuple = _instcls('sym_tuple', tuple, lambda x: False, _tuple)


def _len(x):
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, SymArr):
        if not x.shape_:
            raise TypeError('len() of unsized object')
        return x.shape_[0]
    if isinstance(x, SymRange):
        return x.length()
    return len(x)


def _range(*a):
    a = [x.elem() if isinstance(x, SymArr) and x.ndim == 0 else x for x in a]
    if any(isinstance(x, Sym) and conc(x) is None for x in a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if any(isinstance(x, Sym) and x.k == R for x in a):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return SymRange(lo, hi, st)
    return range(*[conc(x) if isinstance(x, Sym) else x for x in a])


def _isinstance(x, c):
    if isinstance(c, tuple):
        return any(_isinstance(x, q) for q in c)
    r = isinstance(x, c)
    if r:
        return True
    if c is _np.ndarray:
        return isinstance(x, SymArr)
    if isinstance(x, Sym):
        import numbers
        if c in (numbers.Number, numbers.Real, numbers.Complex):
            return x.k != U
        if c is numbers.Integral:
            return x.k in (I, B)
        if c in (_np.floating, _np.float64, float):
            return x.k == R
        if c in (_np.integer, int):
            return x.k == I
        if c is _np.number:
            return x.k in (I, R)
        if c is str:
            return x.k == U
    if isinstance(x, text.Rope):
        return c is str
    if isinstance(x, SymSeq) and c in (list,):
        return True
    return False


def _zip(*its, strict=False):
    if any(seq.is_symbolic_iter(x) for x in its):
        ns = [seq.seqlen(x) if isinstance(x, (SymSeq, SymRange, SymArr, list, tuple, _np.ndarray)) else seq.seqlen(list(x)) for x in its]
        n = ns[0]
        for m in ns[1:]:
            n = arr.smin(n, m)
        return SymSeq(n, lambda i: tuple(seq.item(x, i) for x in its))
    return zip(*its)


def _enumerate(x, start=0):
    if seq.is_symbolic_iter(x):
        return SymSeq(seq.seqlen(x), lambda i: (i + start, seq.item(x, i)))
    return enumerate(x, start)


def _reversed(x):
    if seq.is_symbolic_iter(x):
        n = seq.seqlen(x)
        return SymSeq(n, lambda i: seq.item(x, n - 1 - i))
    return reversed(x)


def _map(f, *its):
    if any(seq.is_symbolic_iter(x) for x in its):
        z = _zip(*its)
        return SymSeq(z.n, lambda i: f(*z.fn(i)))
    return map(f, *its)


def _sum(x, start=0):
    if seq.is_symbolic_iter(x):
        return arr.big_sum(lambda i: seq.item(x, i), 0, seq.seqlen(x)) + start
    return sum(x, start)


def _ext(ismax):
    real = max if ismax else min

    def f(*a, **k):
        if k:
            if any(npf.is_sym(v) for v in a):
                raise Unsupported('min/max with key')
            return real(*a, **k)
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, (SymArr,)):
            return arr.reduce_ext(xs, None, ismax)
        if seq.is_symbolic_iter(xs):
            return arr.reduce_ext(as_arr(xs), None, ismax)
        xs = list(xs)
        if any(isinstance(v, Sym) for v in xs):
            r = xs[0]
            for v in xs[1:]:
                t = core.mkb(core.boolexpr(v > r if ismax else v < r))
                if isinstance(t, Sym) and core.CTX is not None and core.intish(v) and core.intish(r):
                    # extents: keep the term small when the path already decides the comparison
                    if core.CTX.entails(t.e):
                        t = True
                    elif core.CTX.entails(z3.Not(t.e)):
                        t = False
                r = core.ite(t, v, r)
            return r
        return real(xs)
    return f


def _anyall(isall):
    real = all if isall else any

    def f(x):
        if seq.is_symbolic_iter(x):
            return arr.reduce_bool(as_arr(x), None, isall)
        return real(x)
    return f


def _sorted(x, **k):
    if npf.is_sym(x):
        raise Unsupported('sorted() of symbolic values')
    return sorted(x, **k)


def _round(x, n=None):
    return round(x, n) if n is not None else round(x)


def _set(x=()):
    if npf.is_sym(x):
        raise Unsupported('set of symbolic values')
    return set(x)


sym_set = _instcls('sym_set', set, lambda x: False, _set)


def _getattr(*a):
    return getattr(*a)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=_len, range=_range, isinstance=_isinstance, zip=_zip, enumerate=_enumerate, reversed=_reversed,
                map=_map, sum=_sum, max=_ext(True), min=_ext(False), any=_anyall(False), all=_anyall(True),
                sorted=_sorted, int=sym_int, float=sym_float, bool=sym_bool, str=sym_str, list=sym_list,
                tuple=sym_tuple, set=sym_set, print=_print, repr=_repr)


def _msg(f):
    """argument of a raised exception / message of an assert"""
    try:
        return f()
    except Unsupported:
        return 'message with a symbolic value'


# ------------------------------------------------------------------ transformation

MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'update', 'setdefault', 'sort', 'reverse', 'clear')


class _Scan(ast.NodeVisitor):
    def __init__(self):
        self.bad = False
        self.names = set()
        self.recv = set()

    def visit_Break(self, n):
        self.bad = True

    def visit_Return(self, n):
        self.bad = True

    def visit_Yield(self, n):
        self.bad = True

    visit_YieldFrom = visit_Await = visit_Delete = visit_Global = visit_Nonlocal = visit_Return

    def visit_For(self, n):
        # break inside an inner loop belongs to it
        sub = _Scan()
        for s in n.body + n.orelse:
            sub.visit(s)
        if _has_return(n):
            self.bad = True
        self.names |= sub.names
        self.recv |= sub.recv
        self.visit(n.target)
        self.visit(n.iter)

    def visit_While(self, n):
        sub = _Scan()
        for s in n.body + n.orelse:
            sub.visit(s)
        if _has_return(n):
            self.bad = True
        self.names |= sub.names
        self.recv |= sub.recv

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Store):
            self.names.add(n.id)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store):
            self.bad = True
        if isinstance(n.value, ast.Name) and n.attr in MUTATORS:
            self.recv.add(n.value.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            self.recv.add(n.value.id)
        self.generic_visit(n)


def _has_return(n):
    if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)):
        return True
    return any(_has_return(x) for x in ast.iter_child_nodes(n) if not isinstance(x, (ast.FunctionDef, ast.Lambda)))


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.infun = 0
        self.nloops = 0

    def visit_FunctionDef(self, node):
        self.infun += 1
        old = getattr(self, 'locals', set())
        loc = {a.arg for a in node.args.args + node.args.posonlyargs + node.args.kwonlyargs}
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
        self.locals = loc
        self.generic_visit(node)
        if node.name == '__init__' and node.args.args:
            k = 1 if ast.get_docstring(node) is not None else 0
            node.body.insert(k, ast.Expr(ast.Call(func=ast.Name('__vc_new__', ast.Load()), args=[ast.Name(node.args.args[0].arg, ast.Load())], keywords=[])))
        self.locals = old
        self.infun -= 1
        return node

    def _msg(self, e):
        if isinstance(e, ast.Constant):
            return e
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.Call(func=ast.Name('__vc_msg__', ast.Load()), args=[lam], keywords=[])

    def visit_Assert(self, node):
        # the text of an error message may contain symbolic values
        self.generic_visit(node)
        if node.msg is not None and self.infun:
            node.msg = self._msg(node.msg)
        return node

    def visit_Raise(self, node):
        self.generic_visit(node)
        if self.infun and isinstance(node.exc, ast.Call) and not any(isinstance(a, ast.Starred) for a in node.exc.args):
            node.exc.args = [self._msg(a) for a in node.exc.args]
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Store) and self.infun:
            node.value = ast.Call(func=ast.Name('__vc_attr__', ast.Load()), args=[node.value], keywords=[])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Store) and self.infun and not isinstance(node.value, ast.Name):
            node.value = ast.Call(func=ast.Name('__vc_item__', ast.Load()), args=[node.value], keywords=[])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=ast.Name('__vc_mod__', ast.Load()), args=[node.left, node.right], keywords=[])
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ('join', 'format') and not any(isinstance(a, ast.Starred) for a in node.args) \
           and not any(k.arg is None for k in node.keywords):
            if f.attr == 'join' and len(node.args) == 1 and isinstance(node.args[0], ast.GeneratorExp):
                ge = node.args[0]
                node.args[0] = ast.ListComp(elt=ge.elt, generators=ge.generators)
            self.generic_visit(node)
            return ast.Call(func=ast.Name('__vc_strcall__', ast.Load()),
                            args=[f.value, ast.Constant(f.attr), ast.Tuple(elts=node.args, ctx=ast.Load()),
                                  ast.Dict(keys=[ast.Constant(k.arg) for k in node.keywords], values=[k.value for k in node.keywords])], keywords=[])
        self.generic_visit(node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            sp = v.format_spec if v.format_spec is not None else ast.Constant('')
            parts.append(ast.Tuple(elts=[v.value, ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None), sp], ctx=ast.Load()))
        return ast.Call(func=ast.Name('__vc_fstr__', ast.Load()), args=parts, keywords=[])

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async \
           and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)):
            g = node.generators[0]
            inner = ast.Subscript(
                value=ast.ListComp(elt=node.elt, generators=[ast.comprehension(
                    target=g.target, iter=ast.Tuple(elts=[ast.Name('__vc_x__', ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)]),
                slice=ast.Constant(0), ctx=ast.Load())
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('__vc_x__')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=inner)
            return ast.Call(func=ast.Name('__vc_comp__', ast.Load()), args=[lam, g.iter], keywords=[])
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        if not self.infun or node.orelse:
            return node
        sc = _Scan()
        for s in node.body:
            sc.visit(s)
        if sc.bad or any(isinstance(x, (ast.Continue, ast.NamedExpr)) for x in ast.walk(node)) \
           or any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for s in node.body for x in ast.walk(s)):
            return node
        self.n += 1
        used = {x.id for x in ast.walk(ast.Module(body=node.body + [ast.Expr(node.test)], type_ignores=[])) if isinstance(x, ast.Name)}
        names = sorted(n for n in used if n in self.locals and not n.startswith('__vc'))
        N = lambda i: ast.Name(i, ast.Load())
        args = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[])
        import copy
        wb, wt, wv = '__vc_wb%d__' % self.n, '__vc_wt%d__' % self.n, '__vc_wv%d__' % self.n
        fb = ast.FunctionDef(name=wb, args=args(), decorator_list=[], type_params=[],
                             body=copy.deepcopy(node.body) + [ast.Return(ast.List(elts=[N(n) for n in names], ctx=ast.Load()))])
        ft = ast.Lambda(args=args(), body=copy.deepcopy(node.test))
        pre = [ast.Assign(targets=[ast.Name(wv, ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))]
        app = lambda v: ast.Expr(ast.Call(func=ast.Attribute(N(wv), 'append', ast.Load()), args=[v], keywords=[]))
        for n in names:
            pre.append(ast.Try(body=[app(N(n))], handlers=[ast.ExceptHandler(type=N('UnboundLocalError'), name=None, body=[app(N('__vc_unbound__'))])],
                               orelse=[], finalbody=[]))
        call = ast.Call(func=N('__vc_while__'), args=[N(wb), ft, N(wv), ast.List(elts=[ast.Constant(n) for n in names], ctx=ast.Load()),
                                                     ast.Constant(node.lineno)], keywords=[])
        if names:
            asg = ast.Assign(targets=[ast.List(elts=[ast.Name(n, ast.Store()) for n in names], ctx=ast.Store())], value=call)
        else:
            asg = ast.Expr(call)
        return [fb] + pre + [asg]

    def visit_For(self, node):
        self.generic_visit(node)
        if not self.infun:
            return node
        sc = _Scan()
        for s in node.body:
            sc.visit(s)
        self.nloops += 1
        if sc.bad:
            return node
        tn = _Scan()
        tn.visit(node.target)
        recv = {n for n in sc.recv if n in self.locals}
        names = sorted(n for n in (sc.names | tn.names | recv) if not n.startswith('__vc'))
        self.n += 1
        it, lp, once = '__vc_it%d__' % self.n, '__vc_lp%d__' % self.n, '__vc_o%d__' % self.n
        N = lambda i: ast.Name(i, ast.Load())
        S = lambda i: ast.Name(i, ast.Store())
        call = lambda o, m, *a: ast.Call(func=ast.Attribute(N(o), m, ast.Load()), args=list(a), keywords=[])
        loc = ast.Call(func=N('locals'), args=[], keywords=[])
        import copy
        body2 = copy.deepcopy(node.body)
        pre = []
        for n in names:
            pre.append(ast.If(test=call(lp, 'havocked', ast.Constant(n)),
                              body=[ast.Assign(targets=[S(n)], value=call(lp, 'value', ast.Constant(n)))], orelse=[]))
            if n not in recv:
                pre.append(ast.If(test=call(lp, 'isnew', ast.Constant(n)),
                                  body=[ast.Assign(targets=[S(n)], value=call(lp, 'unset', ast.Constant(n)))], orelse=[]))
        pre.append(ast.Assign(targets=[copy.deepcopy(node.target)], value=call(lp, 'item')))
        wrapped = ast.Try(body=[ast.For(target=S(once), iter=ast.Tuple(elts=[ast.Constant(0)], ctx=ast.Load()), body=body2, orelse=[])],
                          handlers=[ast.ExceptHandler(type=N('Exception'), name='__vc_ex__', body=[ast.Expr(call(lp, 'exc', N('__vc_ex__')))])],
                          orelse=[], finalbody=[])
        inner = ast.For(target=S(once), iter=ast.Tuple(elts=[ast.Constant(0)], ctx=ast.Load()), body=pre + [wrapped], orelse=[])
        wl = ast.While(test=call(lp, 'again'), body=[inner, ast.Expr(call(lp, 'collect', loc))], orelse=[])
        post = []
        for n in names:
            post.append(ast.If(test=call(lp, 'has', ast.Constant(n)),
                               body=[ast.Assign(targets=[S(n)], value=call(lp, 'result', ast.Constant(n)))], orelse=[]))
        symb = [ast.Assign(targets=[S(lp)], value=ast.Call(func=N('__vc_loop__'), args=[N(it), loc, ast.Constant(node.lineno)], keywords=[])),
                wl] + post + copy.deepcopy(node.orelse)
        new = [ast.Assign(targets=[S(it)], value=node.iter),
               ast.If(test=ast.Call(func=N('__vc_symiter__'), args=[N(it)], keywords=[]), body=symb,
                      orelse=[ast.For(target=node.target, iter=N(it), body=node.body, orelse=node.orelse)])]
        return new


# ------------------------------------------------------------------ modules

class World:
    """one set of symbolically executable pwtools modules"""

    def __init__(self, src=None, stubs=None):
        self.src = src or SRC
        self.mods = {}
        self.stubs = dict(stubs or {})       # 'pwtools._flib' -> object
        for k in ('pwtools._flib', 'pwtools._dcd', 'pwtools._ext'):
            self.stubs.setdefault(k, Opaque(k))
        self.ext = dict(EXTERNAL)
        self.sources = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            if name == 'pwtools._flib' and isinstance(self.stubs[name], Opaque):
                from . import fortran
                return fortran.load(self, name, os.path.join(self.src, '_ext_src/flib.f90'))
            return self.stubs[name]
        rel = name.replace('.', '/')
        path = os.path.join(self.src, rel + '.py')
        ispkg = False
        if not os.path.exists(path):
            path = os.path.join(self.src, rel, '__init__.py')
            ispkg = True
        if not os.path.exists(path):
            raise Unsupported('no source for %s' % name)
        src = open(path).read()
        return self.execute(name, src, path, ispkg)

    def execute(self, name, src, path, ispkg=False, extra=None):
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(Transform().visit(tree))
        mod = types.ModuleType(name)
        mod.__file__ = path
        mod.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            mod.__path__ = []
        self.mods[name] = mod
        b = dict(BUILTINS)
        b['__import__'] = self._import
        d = mod.__dict__
        d['__builtins__'] = b
        from . import loops
        d['__vc_comp__'] = loops.comp
        d['__vc_loop__'] = loops.Loop
        d['__vc_while__'] = loops.while_
        d['__vc_unbound__'] = loops.UNBOUND
        d['__vc_new__'] = loops.newobj
        d['__vc_msg__'] = _msg
        d['__vc_mod__'] = text.vc_mod
        d['__vc_strcall__'] = text.vc_strcall
        d['__vc_fstr__'] = text.vc_fstr
        d['__vc_attr__'] = loops.attr_guard
        d['__vc_item__'] = loops.item_guard
        d['__vc_symiter__'] = seq.is_symbolic_iter
        self.sources[name] = path
        d.update(extra or {})
        exec(compile(tree, path, 'exec', dont_inherit=True), d)
        return mod

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals.get('__name__').rpartition('.')[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'pwtools':
            m = self._pw(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self._pw(name + '.' + f))
                        except Unsupported:
                            pass
                return m
            # import pwtools.x.y -> binds pwtools
            t = self._pw(top)
            parts = name.split('.')
            for i in range(1, len(parts)):
                setattr(self._pw('.'.join(parts[:i])), parts[i], self._pw('.'.join(parts[:i + 1])))
            return t
        if name in self.ext:
            return self.ext[name]
        if top in self.ext:
            if not fromlist:
                return self.ext[top]
            o = self.ext[top]
            for p in name.split('.')[1:]:
                o = getattr(o, p)
            return o
        return builtins.__import__(name, globals and {'__name__': globals.get('__name__'), '__package__': globals.get('__package__')}, None, fromlist, 0)

    def _pw(self, name):
        return self.load(name)


class Opaque(types.ModuleType):
    """compiled module without a contract: calls are outside the subset"""

    def __init__(self, name):
        types.ModuleType.__init__(self, name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        nm = self.__name__

        def f(*a, **k):
            raise Unsupported('call of %s.%s without a contract' % (nm, n))
        return f


class Guarded:
    """a library module: calls with symbolic arguments are outside the subset"""

    def __init__(self, real, name, models=None):
        self._real, self._name, self._models = real, name, models or {}

    def __getattr__(self, n):
        if n in self._models:
            return self._models[n]
        r = getattr(self._real, n)
        if isinstance(r, types.ModuleType):
            return Guarded(r, self._name + '.' + n, self._models.get(n + '.', {}))
        if callable(r) and not isinstance(r, type):
            return npf._guard(self._name + '.' + n, r)
        return r


def _scipy():
    import scipy, scipy.linalg, scipy.integrate, scipy.interpolate, scipy.signal, scipy.optimize, scipy.fftpack
    lin = {'inv': npf.LINALG['inv'], 'det': npf.LINALG['det'], 'solve': npf.LINALG['solve'], 'norm': npf.LINALG['norm']}
    lm = {k: npf._dispatch(k, v, getattr(scipy.linalg, k)) for k, v in lin.items()}
    sm = {'fftconvolve': npf._dispatch('fftconvolve', npf._fftconvolve, scipy.signal.fftconvolve)}
    import scipy.spatial.distance
    dm = {'cdist': npf._dispatch('cdist', npf._cdist, scipy.spatial.distance.cdist)}
    im = {'trapezoid': npf._dispatch('trapezoid', npf._trapezoid, scipy.integrate.trapezoid),
          'simpson': npf._dispatch('simpson', npf._simpson, scipy.integrate.simpson)}
    fm = {k: npf._dispatch(k, npf.FFT[k], getattr(scipy.fftpack, k)) for k in ('fft', 'ifft')}
    return Guarded(scipy, 'scipy', {'fftpack.': fm, 'fft.': fm, 'integrate.': im, 'linalg.': lm, 'signal.': sm, 'spatial.': {'distance.': dm}})


EXTERNAL = {'numpy': npf.numpy, 'math': npf.math}


def setup_external():
    if 'scipy' not in EXTERNAL:
        EXTERNAL['scipy'] = _scipy()
