"""Symbolic values, path conditions and the exploration of all paths of the real code.

The verifier executes the real Python source (see loader.py) on symbolic values.  A branch on a
symbolic condition is decided both ways, by re-execution with a decision prefix, so that every
feasible path under the precondition is visited; what has to hold at a path's end becomes an
obligation  path-condition => goal,  discharged by prover.py.

Numbers: Python/numpy integers are mathematical integers, floats are real numbers (stated as an
assumption in every evidence file).
"""
import sys, fractions, numbers, itertools, time
import z3

Fraction = fractions.Fraction

R, I, B, U = 'r', 'i', 'b', 'u'
OBJ = z3.DeclareSort('Obj')          # opaque values (atom symbols, ...): only equality is known
SORT = {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort(), U: OBJ}


class Unsupported(Exception):
    """The construct is outside the verifier's subset: the obligation is undecided."""


class PathEnd(BaseException):
    """Infeasible path or path cut."""


class Failed(Exception):
    pass


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported('symbolic value used outside a verification run')
    return CTX


# ------------------------------------------------------------------ lifting

_frac_cache = {}


def frac(x):
    """The real number a Python float stands for: the rational with a denominator <= 10**6 it is the
    nearest double of, if there is one, else its shortest decimal form."""
    r = _frac_cache.get(x)
    if r is None:
        f = Fraction(x).limit_denominator(10**6)
        if float(f) != x:
            f = Fraction(repr(x)) if not hasattr(x, 'dtype') else Fraction(repr(float(x)))
        r = _frac_cache[x] = f
    return r


def realval(fr):
    if fr.denominator == 1:
        return z3.RealVal(fr.numerator)
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator))


_obj_consts = {}


def objconst(s):
    if s not in _obj_consts:
        _obj_consts[s] = z3.Const('obj!%s' % s, OBJ)
    return _obj_consts[s]


def obj_facts():
    v = list(_obj_consts.values())
    return [z3.Distinct(*v)] if len(v) > 1 else []


def lift(x):
    """-> (kind, z3 expr) or None"""
    if isinstance(x, Sym):
        return x.k, x.e
    if isinstance(x, (bool,)):
        return B, z3.BoolVal(x)
    t = type(x).__name__
    if t in ('bool_', 'bool8'):
        return B, z3.BoolVal(bool(x))
    if isinstance(x, numbers.Integral):
        return I, z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return R, realval(x)
    if isinstance(x, numbers.Real):
        xf = float(x)
        if xf != xf or xf in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in a symbolic expression')
        return R, realval(frac(xf))
    if isinstance(x, str):
        return U, objconst(str(x))
    if getattr(x, 'shape', None) == () and hasattr(x, 'item'):
        return lift(x.item())
    return None


def toreal(k, e):
    if k == R:
        return e
    if k == I:
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    if k == B:
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported('not a number')


def toint(k, e):
    if k == I:
        return e
    if k == B:
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer')


def numval(e):
    """Fraction if e is a numeral else None"""
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def mk(k, e):
    """Wrap; numerals of integers and booleans come back as Python values."""
    if k == I:
        if z3.is_int_value(e):
            return e.as_long()
    elif k == B:
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return Sym(k, e)


def real(x):
    return toreal(*lift(x))


def intexpr(x):
    return toint(*lift(x))


def boolexpr(x):
    l = lift(x)
    if l is None:
        raise Unsupported('not a truth value: %r' % type(x))
    k, e = l
    if k == B:
        return e
    if k == I:
        return e != 0
    if k == R:
        return e != 0
    raise Unsupported('truth of opaque value')


# ------------------------------------------------------------------ function symbols

_fun = {}


def fun(name, *sorts):
    key = (name, tuple(sorts))
    if key not in _fun:
        _fun[key] = z3.Function(name, *[SORT[s] for s in sorts])
    return _fun[key]


PI = z3.Const('PI', z3.RealSort())
MATH1 = ['sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'cbrt']
MF = {n: fun(n, R, R) for n in MATH1}
ATAN2 = fun('atan2', R, R, R)
POW = fun('pow', R, R, R)

# binders: SUM(lambda k. body, lo, hi) = sum_{lo <= k < hi} body(k)
ARRI = z3.ArraySort(z3.IntSort(), z3.RealSort())
SUMF = z3.Function('SUM', ARRI, z3.IntSort(), z3.IntSort(), z3.RealSort())


def _pi_multiple(e):
    """c if e == c*PI for a rational c"""
    s = z3.simplify(e, som=True)
    if z3.is_rational_value(s) and numval(s) == 0:
        return Fraction(0)
    if z3.eq(s, PI):
        return Fraction(1)
    if z3.is_mul(s) and s.num_args() == 2 and numval(s.arg(0)) is not None and z3.eq(s.arg(1), PI):
        return numval(s.arg(0))
    return None


_SQ = lambda n: MF['sqrt'](z3.RealVal(n))


def math1(name, e):
    v = numval(e)
    if name == 'sqrt' and v is not None and v >= 0:
        import math as _m
        n, d = _m.isqrt(v.numerator), _m.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return realval(Fraction(n, d))
    if name in ('sin', 'cos', 'tan'):
        c = _pi_multiple(e)
        if c is not None:
            c = c % 2
            T = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
            half = z3.RealVal(1) / 2
            if c in T:
                s, co = map(z3.RealVal, T[c])
            elif c in (Fraction(1, 3), Fraction(2, 3), Fraction(4, 3), Fraction(5, 3)):
                s = _SQ(3) / 2 * (1 if c < 1 else -1)
                co = half * (1 if c in (Fraction(1, 3), Fraction(5, 3)) else -1)
            elif c in (Fraction(1, 6), Fraction(5, 6), Fraction(7, 6), Fraction(11, 6)):
                co = _SQ(3) / 2 * (1 if c in (Fraction(1, 6), Fraction(11, 6)) else -1)
                s = half * (1 if c < 1 else -1)
            elif c in (Fraction(1, 4), Fraction(3, 4), Fraction(5, 4), Fraction(7, 4)):
                s = _SQ(2) / 2 * (1 if c < 1 else -1)
                co = _SQ(2) / 2 * (1 if c in (Fraction(1, 4), Fraction(7, 4)) else -1)
            else:
                s = co = None
            if s is not None:
                if name == 'sin':
                    return s
                if name == 'cos':
                    return co
    if v is not None:
        if name in ('exp', 'cosh') and v == 0:
            return z3.RealVal(1)
        if name in ('sinh', 'tanh', 'tan', 'atan', 'asin', 'cbrt') and v == 0:
            return z3.RealVal(0)
        if name == 'log' and v == 1:
            return z3.RealVal(0)
        if name == 'acos':
            t = {1: z3.RealVal(0), 0: PI / 2, -1: PI}
            if v in t:
                return t[v]
    return MF[name](e)


def powexpr(b, p):
    """real b ** p"""
    v = numval(p)
    if v is not None:
        if v.denominator == 1 and abs(v) <= 24:
            n = abs(int(v))
            if n == 0:
                return z3.RealVal(1)
            r = b
            for _ in range(n - 1):
                r = r * b
            return r if v > 0 else z3.RealVal(1) / r
        if v == Fraction(1, 2):
            return math1('sqrt', b)
        if v == Fraction(-1, 2):
            return 1 / math1('sqrt', b)
        if v == Fraction(3, 2):
            return b * math1('sqrt', b)
        if v == Fraction(1, 3):
            return math1('cbrt', b)
        if v == Fraction(2, 3):
            return math1('cbrt', b) * math1('cbrt', b)
    return POW(b, p)


def diff(e, x):
    """d e / d x of a real term, x a real constant: exact differentiation rules over the term built by the code"""
    from . import prover
    memo = {}
    zero, one = z3.RealVal(0), z3.RealVal(1)
    iszero = lambda d: z3.is_rational_value(d) and numval(d) == 0
    F = lambda n, u: math1(n, u)

    def add(a, b):
        return b if iszero(a) else a if iszero(b) else a + b

    def mul(a, b):
        return zero if iszero(a) or iszero(b) else a if z3.eq(b, one) else b if z3.eq(a, one) else a * b

    def d(t):
        k = t.get_id()
        if k not in memo:
            memo[k] = (t, d0(t))
        return memo[k][1]

    def d0(t):
        if z3.eq(t, x):
            return one
        if not prover.mentions(t, x.decl().name()):
            return zero
        ch = t.children()
        if z3.is_quantifier(t):
            raise Unsupported('derivative of a binder')
        if z3.is_add(t):
            r = zero
            for c in ch:
                r = add(r, d(c))
            return r
        if z3.is_sub(t):
            r = d(ch[0])
            for c in ch[1:]:
                dc = d(c)
                r = r if iszero(dc) else r - dc
            return r
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            return -d(ch[0])
        if z3.is_mul(t):
            r = zero
            for i, c in enumerate(ch):
                dc = d(c)
                for j, o in enumerate(ch):
                    if j != i:
                        dc = mul(dc, o)
                r = add(r, dc)
            return r
        if z3.is_div(t):
            a, b = ch
            da, db = d(a), d(b)
            r = zero if iszero(da) else da / b
            return r if iszero(db) else r - a * db / (b * b)
        if t.decl().kind() == z3.Z3_OP_POWER and numval(ch[1]) is not None:
            n = ch[1]
            return mul(n * ch[0] ** (n - 1), d(ch[0]))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            if prover.mentions(ch[0], x.decl().name()):
                raise Unsupported('derivative of a case distinction on the variable')
            return z3.If(ch[0], d(ch[1]), d(ch[2]))
        nm = t.decl().name()
        if nm in MF and t.num_args() == 1:
            u = ch[0]
            du = d(u)
            g = {'sqrt': lambda: 1 / (2 * t), 'sin': lambda: F('cos', u), 'cos': lambda: -F('sin', u), 'exp': lambda: t,
                 'log': lambda: 1 / u, 'sinh': lambda: F('cosh', u), 'cosh': lambda: F('sinh', u), 'tanh': lambda: 1 - t * t,
                 'cbrt': lambda: 1 / (3 * t * t), 'atan': lambda: 1 / (1 + u * u),
                 'tan': lambda: 1 + t * t}.get(nm)
            if g is None:
                raise Unsupported('derivative of %s' % nm)
            return mul(g(), du)
        if nm == 'pow' and numval(ch[1]) is not None:
            return mul(ch[1] * powexpr(ch[0], z3.simplify(ch[1] - 1)), d(ch[0]))
        if nm == 'SUM':
            lam, lo, hi = ch
            k = z3.Const('k@%d' % next(CTX.counter), z3.IntSort())
            body = z3.substitute_vars(lam.body(), k)
            return prover.make_sum(k, d(body), lo, hi)
        raise Unsupported('derivative of %s' % nm)
    return d(e)


def ite(c, a, b):
    """c: bool/Sym/z3; a, b python or Sym -> Sym"""
    if isinstance(c, Sym):
        c = c.e
    if c is True or (not isinstance(c, bool) and z3.is_true(c)):
        return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)):
        return b
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        if a is b:
            return a
        raise Unsupported('if-then-else over non-scalar values')
    (ka, ea), (kb, eb) = la, lb
    if ka != kb:
        if U in (ka, kb):
            raise Unsupported('if-then-else over mixed kinds')
        if R in (ka, kb):
            ea, eb, ka = toreal(ka, ea), toreal(kb, eb), R
        else:
            ea, eb, ka = toint(ka, ea), toint(kb, eb), I
    if z3.eq(ea, eb):
        return mk(ka, ea)
    return mk(ka, z3.If(c, ea, eb))


# ------------------------------------------------------------------ scalars

def _num2(a, b):
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        return None
    if U in (la[0], lb[0]):
        raise Unsupported('arithmetic on opaque values')
    return la, lb


def _arr(x):
    return getattr(x, '_is_symarr', False) or type(x).__name__ == 'ndarray' and x.shape != ()


class Sym:
    __slots__ = ('k', 'e')
    __array_ufunc__ = None
    _is_sym = True
    shape = ()
    ndim = 0

    def __init__(self, k, e):
        self.k, self.e = k, e

    def __repr__(self):
        return 'Sym(%s)' % (str(self.e)[:200],)

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    # --- truth
    def __bool__(self):
        return ctx().decide(boolexpr(self))

    def __index__(self):
        if self.k in (I, B):
            v = ctx().value_of(toint(self.k, self.e))
            if v is not None:
                return v
        raise Unsupported('symbolic integer used where a concrete one is needed')

    def __int__(self):
        if self.k == I:
            return self.__index__()
        raise Unsupported('int() of a symbolic value')

    def __getitem__(self, ix):
        # numpy scalars: x[None], x[(None,)], x[()], x[...]
        t = ix if isinstance(ix, tuple) else (ix,)
        if self.k in (R, I, B) and all(q is None for q in t):
            from . import arr
            a = arr.as_arr(self)
            return arr.SymArr((1,) * len(t), lambda i: self, a.kind) if t else self
        raise TypeError('symbolic scalar is not subscriptable')

    def __float__(self):
        v = numval(z3.simplify(real(self)))
        if v is not None:
            return float(v)
        raise Unsupported('float() of a symbolic value')

    # --- arithmetic
    def _bin(self, o, f, fi=None):
        if _arr(o):
            return NotImplemented
        p = _num2(self, o)
        if p is None:
            return NotImplemented
        (ka, ea), (kb, eb) = p
        if ka != R and kb != R and fi is not None:
            return mk(I, fi(toint(ka, ea), toint(kb, eb)))
        return mk(R, f(toreal(ka, ea), toreal(kb, eb)))

    def _rbin(self, o, f, fi=None):
        return self._bin(o, lambda a, b: f(b, a), None if fi is None else (lambda a, b: fi(b, a)))

    def __add__(self, o): return self._bin(o, _add, _add) if self.k != U else _text(self, o)
    def __radd__(self, o): return self._rbin(o, _add, _add) if self.k != U else _text(o, self)
    def __sub__(self, o): return self._bin(o, _sub, _sub)
    def __rsub__(self, o): return self._rbin(o, _sub, _sub)
    def __mul__(self, o): return self._bin(o, _mul, _mul) if not isinstance(o, (list, tuple, str)) else _repeat(o, self)
    def __rmul__(self, o): return self._rbin(o, _mul, _mul) if not isinstance(o, (list, tuple, str)) else _repeat(o, self)
    def __truediv__(self, o): return self._bin(o, _div)
    def __rtruediv__(self, o): return self._rbin(o, _div)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)), _ifloordiv)
    def __rfloordiv__(self, o): return self._rbin(o, lambda a, b: z3.ToReal(z3.ToInt(a / b)), _ifloordiv)
    def __mod__(self, o): return self._bin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)), lambda a, b: a - b * _ifloordiv(a, b) if not z3.is_int_value(b) or b.as_long() <= 0 else a % b)
    def __rmod__(self, o): return self._rbin(o, lambda a, b: a - b * z3.ToReal(z3.ToInt(a / b)), lambda a, b: a - b * _ifloordiv(a, b))
    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o):
        if _arr(o):
            return NotImplemented
        p = _num2(self, o)
        if p is None:
            return NotImplemented
        (ka, ea), (kb, eb) = p
        if ka in (I, B) and kb == I and z3.is_int_value(eb) and 0 <= eb.as_long() <= 24:
            r = z3.IntVal(1)
            for _ in range(eb.as_long()):
                r = _mul(r, toint(ka, ea))
            return mk(I, r)
        return mk(R, powexpr(toreal(ka, ea), toreal(kb, eb)))

    def __rpow__(self, o):
        if _arr(o):
            return NotImplemented
        return mk(R, powexpr(real(o), real(self)))

    def __neg__(self): return mk(I, -toint(self.k, self.e)) if self.k != R else mk(R, -self.e)
    def __pos__(self): return self

    def __abs__(self):
        if self.k == R:
            return mk(R, z3.If(self.e >= 0, self.e, -self.e))
        e = toint(self.k, self.e)
        return mk(I, z3.If(e >= 0, e, -e))

    # --- comparisons
    def _cmp(self, o, f):
        if _arr(o):
            return NotImplemented
        p = _num2(self, o)
        if p is None:
            return NotImplemented
        (ka, ea), (kb, eb) = p
        if ka != R and kb != R:
            return mkb(f(toint(ka, ea), toint(kb, eb)))
        return mkb(f(toreal(ka, ea), toreal(kb, eb)))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if _arr(o):
            return NotImplemented
        l = lift(o)
        if l is None:
            return False
        k, e = l
        if self.k == k:
            return mkb(self.e == e)
        if U in (k, self.k):
            return False
        if R in (k, self.k):
            return mkb(toreal(self.k, self.e) == toreal(k, e))
        return mkb(toint(self.k, self.e) == toint(k, e))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    # --- logic
    def __and__(self, o): return land(self, o) if not _arr(o) else NotImplemented
    def __rand__(self, o): return land(o, self) if not _arr(o) else NotImplemented
    def __or__(self, o): return lor(self, o) if not _arr(o) else NotImplemented
    def __ror__(self, o): return lor(o, self) if not _arr(o) else NotImplemented
    def __invert__(self):
        if self.k == B:
            return lnot(self)
        return -self - 1

    def __xor__(self, o): return mkb(z3.Xor(boolexpr(self), boolexpr(o)))

    # --- numpy scalar protocol
    def sqrt(self): return mk(R, math1('sqrt', real(self)))
    def conjugate(self): return self
    conj = conjugate
    real = property(lambda s: s)
    imag = property(lambda s: 0)

    def is_integer(self):
        if self.k != R:
            return True
        return mkb(z3.IsInt(self.e))

    def copy(self): return self
    def item(self): return self
    def astype(self, t): return cast(self, t)
    def __round__(self, n=None):
        if n:
            raise Unsupported('round(x, n)')
        return rint(self, True)
    def __floor__(self): return floor(self)
    def __ceil__(self): return -floor(-self)
    def __trunc__(self): return trunc(self)
    def __format__(self, spec): raise Unsupported('formatting of a symbolic value')
    def __str__(self): raise Unsupported('str() of a symbolic value')
    def sum(self, *a, **k): return self


def _nd_aware(name, mirror):
    orig = getattr(Sym, name)

    def op(self, o):
        if type(o).__name__ == 'ndarray' and o.shape != ():
            from . import arr
            return getattr(arr.as_arr(o), mirror)(self)
        return orig(self, o)
    op.__name__ = name
    setattr(Sym, name, op)


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    _nd_aware('__%s__' % _n, '__r%s__' % _n)
    _nd_aware('__r%s__' % _n, '__%s__' % _n)
for _n, _m in (('lt', 'gt'), ('le', 'ge'), ('gt', 'lt'), ('ge', 'le'), ('eq', 'eq'), ('ne', 'ne')):
    _nd_aware('__%s__' % _n, '__%s__' % _m)


def _text(a, b):
    from . import text
    if text.is_text(a) and text.is_text(b):
        return text.cat(a, b)
    return NotImplemented


def _repeat(seq, n):
    from . import seq as _s
    return _s.repeat(seq, n)


def _is0(e):
    v = numval(e)
    return v is not None and v == 0


def _add(a, b):
    if _is0(a):
        return b
    if _is0(b):
        return a
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return realval(va + vb) if a.is_real() else z3.IntVal(int(va + vb))
    return a + b


def _sub(a, b):
    if _is0(b):
        return a
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return realval(va - vb) if a.is_real() else z3.IntVal(int(va - vb))
    if z3.eq(a, b):
        return z3.RealVal(0) if a.is_real() else z3.IntVal(0)
    return a - b


def _mul(a, b):
    va, vb = numval(a), numval(b)
    if va is not None and vb is not None:
        return realval(va * vb) if a.is_real() else z3.IntVal(int(va * vb))
    if va is not None:
        if va == 0:
            return a
        if va == 1:
            return b
    if vb is not None:
        if vb == 0:
            return b
        if vb == 1:
            return a
    return a * b


def _div(a, b):
    va, vb = numval(a), numval(b)
    if vb is not None and vb != 0:
        if va is not None:
            return realval(va / vb)
        if vb == 1:
            return a
    if vb is None and CTX is not None:
        q = exact_quotient(a, b)
        if q is not None:
            return q
    return a / b


def _ipoly(e, budget):
    """{exponents: coefficient} of an expression built from integer constants by + - * (None: anything else)"""
    budget[0] -= 1
    if budget[0] < 0:
        return None
    v = numval(e)
    if v is not None:
        return {(): v} if v else {}
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_TO_REAL:
        return _ipoly(e.arg(0), budget)
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0 and e.sort() == z3.IntSort():
        return {((e.decl().name(), 1),): Fraction(1)}
    if k not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        return None
    ps = [_ipoly(c, budget) for c in e.children()]
    if any(p is None for p in ps):
        return None
    r = ps[0]
    if k == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in r.items()}
    for p in ps[1:]:
        if k == z3.Z3_OP_MUL:
            r = _pmul(r, p)
        else:
            r = _padd(r, p, 1 if k == z3.Z3_OP_ADD else -1)
    return r


def _padd(a, b, s):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def _pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            t = dict(m)
            for x, y in n:
                t[x] = t.get(x, 0) + y
            t = tuple(sorted(t.items()))
            r[t] = r.get(t, 0) + c * d
    return {m: c for m, c in r.items() if c}


def exact_quotient(a, b):
    """a / b where a = q * b as polynomials over integer constants and b != 0 on this path; None otherwise"""
    pb = _ipoly(b, [60])
    if pb is None or len(pb) < 2:
        return None
    pa = _ipoly(a, [200])
    if pa is None or not pa:
        return None
    names = sorted({x for p in (pa, pb) for m in p for x, _ in m})
    key = lambda m: tuple(dict(m).get(x, 0) for x in names)
    lb = max(pb, key=key)
    q, r = {}, dict(pa)
    for _ in range(60):
        if not r:
            break
        lr = max(r, key=key)
        d = [(x, dict(lr).get(x, 0) - dict(lb).get(x, 0)) for x in names]
        if any(y < 0 for x, y in d):
            return None
        t = {tuple((x, y) for x, y in d if y): r[lr] / pb[lb]}
        q = _padd(q, t, 1)
        r = _padd(r, _pmul(t, pb), -1)
    if r or not CTX.entails(b != 0):
        return None
    out = None
    for m, c in sorted(q.items(), key=lambda mc: key(mc[0])):
        t = None if c == 1 and m else realval(c)
        for x, y in m:
            for _ in range(y):
                v = z3.ToReal(z3.Int(x))
                t = v if t is None else t * v
        out = t if out is None else out + t
    return out


def intish(v):
    return isinstance(v, int) or isinstance(v, Sym) and v.k == I


def _divides(a, d):
    """a = d*q + r with the terms whose coefficient d divides in q: (q or None, r or None if 0 <= r < d)"""
    a = z3.simplify(a, som=True)
    ts = a.children() if z3.is_add(a) else [a]
    q, r = [], []
    for t in ts:
        c, x = None, None
        if z3.is_int_value(t):
            c = t.as_long()
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)):
            c, x = t.arg(0).as_long(), t.children()[1:]
        if c is not None and x is not None and c % d == 0:
            y = x[0] if len(x) == 1 else z3.Product(x)
            q.append(y * (c // d) if c != d else y)
        elif c is not None and x is None:
            if c // d:
                q.append(z3.IntVal(c // d))
            if c % d:
                r.append(z3.IntVal(c % d))
        else:
            r.append(t)
    if not q:
        return None, a
    qs = q[0] if len(q) == 1 else z3.Sum(q)
    if not r or len(r) == 1 and z3.is_int_value(r[0]):
        return qs, None
    return qs, r[0] if len(r) == 1 else z3.Sum(r)


def _ifloordiv(a, b):
    va, vb = numval(a), numval(b)
    if vb is not None and vb != 0:
        if va is not None:
            return z3.IntVal(int(va // vb))
        if vb > 0:
            if vb == 1:
                return a
            q, r = _divides(a, int(vb))
            return a / b if q is None else q if r is None else q + r / b
    # SMT integer division rounds so that the remainder is in [0,|b|)
    return z3.If(b > 0, a / b, (-a) / (-b))


def mkb(e):
    e = e if z3.is_expr(e) else z3.BoolVal(e)
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return Sym(B, e)


def land(*xs):
    es = [boolexpr(x) for x in xs]
    return mkb(z3.And(*es))


def lor(*xs):
    es = [boolexpr(x) for x in xs]
    return mkb(z3.Or(*es))


def lnot(x):
    return mkb(z3.Not(boolexpr(x)))


def implies(a, b):
    return mkb(z3.Implies(boolexpr(a), boolexpr(b)))


def floor(x):
    """-> int kind"""
    if not isinstance(x, Sym):
        import math
        return math.floor(x)
    if x.k != R:
        return x
    return mk(I, z3.ToInt(x.e))


def trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if x.k != R:
        return mk(I, toint(x.k, x.e))
    v = numval(z3.simplify(x.e))
    if v is not None:
        return int(v)
    return mk(I, z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


def rint(x, as_int=False):
    if not isinstance(x, Sym):
        return round(x)
    if x.k != R:
        return x
    r = z3.ToInt(x.e + realval(Fraction(1, 2)))
    tie = z3.ToReal(r) == x.e + realval(Fraction(1, 2))
    i = z3.If(z3.And(tie, r % 2 != 0), r - 1, r)
    return mk(I, i) if as_int else mk(R, z3.ToReal(i))


def cast(x, dtype):
    n = dtype_kind(dtype)
    if n == 'f':
        if isinstance(x, Sym):
            return mk(R, real(x))
        return float(x) if not isinstance(x, str) else float(x)
    if n == 'i':
        return trunc(x)
    if n == 'b':
        return mkb(boolexpr(x)) if isinstance(x, Sym) else bool(x)
    if n == 'O' or n is None:
        return x
    raise Unsupported('cast to %r' % (dtype,))


def dtype_kind(dt):
    if dt is None:
        return None
    import numpy as np
    if isinstance(dt, str) and dt in ('f', 'i', 'b', 'O'):
        return dt
    nm = getattr(dt, '__name__', '')
    if nm in ('float', 'sym_float'):
        return 'f'
    if nm in ('int', 'sym_int'):
        return 'i'
    if nm in ('bool', 'sym_bool'):
        return 'b'
    k = np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'U': 'O', 'S': 'O'}.get(k, k)


def m1(name, x):
    """Elementary function on a scalar"""
    if not isinstance(x, Sym):
        import numpy as np
        f = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan'}.get(name, name)
        l = lift(x)
        return mk(R, math1(name, toreal(*l)))
    return mk(R, math1(name, real(x)))


# ------------------------------------------------------------------ context / paths

class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'where', 'status', 'backend', 'time', 'model', 'note')

    def __init__(self, name, pc, goal, where=''):
        self.name, self.pc, self.goal, self.where = name, pc, goal, where
        self.status = None
        self.backend = self.note = ''
        self.time = 0.0
        self.model = None


_EXT = {}


def extent(n):
    e = n if z3.is_expr(n) else intexpr(n)
    r = _EXT.get(e.get_id())
    if r is None or not z3.eq(r[0], e):
        if len(_EXT) > 20000:
            _EXT.clear()
        r = _EXT[e.get_id()] = (e, z3.simplify(e))
    return r[1]


def same_extent(m, n):
    return m is n or z3.eq(extent(m), extent(n))


class Partial:
    """function symbol applied to the indices of the enclosing loops"""

    def __init__(self, f, vs):
        self.f, self.vs = f, vs

    def __call__(self, *a):
        return self.f(*(list(self.vs) + list(a)))

    def name(self):
        return self.f.name()

    def range(self):
        return self.f.range()


def under(rng, fn, what='quantifier'):
    """evaluate fn over bound variables with these range facts: nothing may be decided or assumed there except
    what the range facts entail"""
    c = CTX
    n, real = len(c.pc), c.real
    c.solver.push()
    for e in rng:
        c.solver.add(e)
    try:
        v = fn()
    finally:
        extra = c.pc[n:]
        del c.pc[n:]
        c.solver.pop()
    if c.real != real or any(e.get_id() not in c.soft for e in extra):
        raise Unsupported('branch below a %s: %s' % (what, ([str(e)[:300] for e in extra if e.get_id() not in c.soft] or ['decided'])[0]))
    if extra:
        from . import prover
        bound = {x for e in rng for x in prover.consts(e) if x[:2] in ('k@', 'q@', 'q!')}
        for e in extra:
            if not prover.consts(e) & bound:
                c.assume(e, soft=True)
    return v


def below_quantifier(fn, rng=()):
    return under(rng, fn)


class Ctx:
    MAXPATHS = 400
    FEAS_TIMEOUT = 400        # ms per feasibility query

    def __init__(self, prefix=()):
        self.pc = []
        self.prefix = list(prefix)
        self.soft = {}               # entailed or input facts on the path, dispensable
        self.real = 0                # decisions with two feasible outcomes
        self.pos = 0
        self.alts = []
        self.counter = itertools.count()
        self.solver = z3.Solver()
        self.solver.set('timeout', self.FEAS_TIMEOUT)
        self.nfeas = 0
        self.loops = []
        self.facts = []          # definitional facts of fresh symbols (trusted contracts)
        self.obligations = []
        self.inputs = {}         # name -> (kind, payload) for counterexamples
        self.called = []
        self.trace = []
        self.ghost = {}
        self.lazy = []           # universally quantified hypotheses over [0, n), instantiated on demand
        self.local = None        # decision recorder of a loop body under summarisation

        self.indices = []        # (index expression, extent) the hypotheses have been instantiated at
        self.qfacts = []         # ([(bound index, extent), ...], formula): facts exported from loop iterations
        self.aux = {}            # id -> formula on the path that is a definitional fact, not a branch condition

    # naming.  A symbol made inside iteration i of a symbolic loop denotes a function of i (and of the indices of
    # the enclosing loops).
    def fresh(self, base, k, plain=False):
        vs = [] if plain else self.loopvars()
        nm = '%s!%d' % (base, next(self.counter))
        if vs:
            return Sym(k, z3.Function(nm, *([z3.IntSort()] * len(vs) + [SORT[k]]))(*vs))
        return Sym(k, z3.Const(nm, SORT[k]))

    def freshfun(self, base, *kinds, plain=False):
        vs = [] if plain else self.loopvars()
        nm = '%s!%d' % (base, next(self.counter))
        if vs:
            return Partial(z3.Function(nm, *([z3.IntSort()] * len(vs) + [SORT[k] for k in kinds])), vs)
        return z3.Function(nm, *[SORT[k] for k in kinds])

    def loopvars(self):
        return [l.i.e for l in self.loops if getattr(l, 'i', None) is not None]

    def assume(self, e, soft=False):
        e = boolexpr(e) if not z3.is_expr(e) else e
        if z3.is_true(e):
            return
        if soft:
            self.soft[e.get_id()] = e
        self.pc.append(e)
        self.solver.add(e)

    def instantiate(self, i, n):
        """hypotheses for index i, known to be in [0, n)"""
        if self.lazy or self.qfacts:
            self.ghost['inexact'] = True
        self.indices.append((intexpr(i), n))
        for m, fn in list(self.lazy):
            if same_extent(m, n):
                self._aux(boolexpr(fn(i)))
        for q in list(self.qfacts):
            self._inst(q, len(self.indices) - 1)

    def inrange(self, k, n):
        """k is one of the indices known to be in [0, n)"""
        return any(k is x or k.get_id() == x.get_id() for x, m in self.indices if m is n or same_extent(m, n))

    def _aux(self, e):
        if z3.is_true(e):
            return
        self.aux[e.get_id()] = e
        self.assume(e)
        from . import prover
        for a in prover.axioms([e]):
            self.solver.add(a)

    def _inst(self, q, new=None):
        """instantiate a fact at all known indices (with new: only the combinations that use that one)"""
        rng, e = q
        ch = [[k for k, (x, n) in enumerate(self.indices) if same_extent(n, m)] for _, m in rng]
        cnt = 0
        for t in itertools.product(*ch):
            if new is not None and new not in t:
                continue
            cnt += 1
            if cnt > 64:
                break
            self._aux(z3.substitute(e, *[(v, self.indices[k][0]) for (v, _), k in zip(rng, t)]))

    def fact(self, e):
        """Trusted fact about a fresh symbol"""
        if z3.is_true(e):
            return
        self.aux[e.get_id()] = e
        self.assume(e)
        for l in reversed(self.loops):
            if getattr(l, 'i', None) is not None:
                l.facts.append(([], e))
                break

    def export(self, q):
        """a fact about all iterations of a finished loop"""
        for l in reversed(self.loops):
            if getattr(l, 'i', None) is not None:
                l.facts.append(q)
                break
        self.qfacts.append(q)
        self._inst(q)

    def _intdecided(self, e):
        """the integer hypotheses alone settle e: True / False, else None"""
        from . import prover
        if not prover.pureint(e):
            return None
        st = self.__dict__.get('_isol')
        if st is None or len(st[1]) > len(self.pc) or any(a is not b for a, b in zip(st[1], self.pc)):
            st = self._isol = [z3.Solver(), [], {}]
            st[0].set('timeout', 300)
        s, seen, memo = st
        for h in self.pc[len(seen):]:
            seen.append(h)
            if prover.pureint(h):
                s.add(h)
                memo.clear()
        r = memo.get(e.get_id())
        if r is None:
            v = None
            for q, w in ((z3.Not(e), True), (e, False)):
                s.push()
                s.add(q)
                c = s.check()
                s.pop()
                if c == z3.unsat:
                    v = w
                    break
            r = memo[e.get_id()] = (e, v)
        return r[1]

    def feasible(self, e):
        self.nfeas += 1
        from . import prover
        v = self._intdecided(e)
        if v is not None:
            return v
        self.solver.push()
        try:
            self.solver.add(e)
            for a in prover.axioms([e]):
                self.solver.add(a)
            return self.solver.check() != z3.unsat
        finally:
            self.solver.pop()

    def entails(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return not self.feasible(z3.Not(e))

    def value_of(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.solver.push()
        try:
            if self.solver.check() != z3.sat:
                return None
            v = self.solver.model().eval(e, model_completion=True)
        finally:
            self.solver.pop()
        if z3.is_int_value(v) and self.entails(e == v):
            return v.as_long()
        return None

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            soft = isinstance(d, str)
            if soft:                     # forced decision
                d = d == 'T'
            else:
                self.real += 1
            self.pos += 1
        else:
            t = self.feasible(e)
            f = self.feasible(z3.Not(e)) if t else True
            if not t:
                # the negation must hold (or the whole path is infeasible)
                d = False
                self.prefix.append('F')
                self.pos += 1
                self.assume(z3.Not(e), soft=True)
                return d
            d = True
            if f:
                self.alts.append(self.prefix[:self.pos] + [False])
                self.real += 1
            soft = not f
            self.prefix.append(d if f else 'T')
            self.pos += 1
        if self.real > 400 or len(self.prefix) > 4000:
            raise Unsupported('too many decisions on one path')
        self.assume(e if d else z3.Not(e), soft=soft)
        return d


def explore(body, maxpaths=None, deadline=None):
    """Run body(ctx) on all paths.  Yields (ctx, outcome, value)."""
    global CTX
    work = [[]]
    n = 0
    maxpaths = maxpaths or Ctx.MAXPATHS
    while work:
        prefix = work.pop()
        n += 1
        if n > maxpaths:
            raise Unsupported('more than %d paths' % maxpaths)
        if deadline and time.time() > deadline:
            raise Unsupported('time budget for path exploration used up')
        c = Ctx(prefix)
        CTX = c
        try:
            try:
                v = body(c)
                out = ('return', v)
            except PathEnd:
                out = ('cut', None)
            except Unsupported:
                if c.solver.check() == z3.unsat:
                    out = ('cut', None)
                else:
                    raise
            except RecursionError:
                raise Unsupported('recursion depth')
            except Exception as ex:
                out = ('raise', ex)
        finally:
            CTX = None
        work.extend(c.alts)
        yield c, out[0], out[1]
