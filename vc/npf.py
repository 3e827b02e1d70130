"""The numpy (and math, scipy) facade the verified modules see.  Calls on concrete data go to the real
library; calls on symbolic data go to the models below, which are trusted contracts of the library and
are compared with the real library on concrete data by selftest.py."""
import types
import numpy as _np
import z3
from . import core, arr, seq
from .core import Sym, Unsupported, mk, mkb, ite, m1, R, I, B, ctx, intexpr, boolexpr, lift
from .arr import SymArr, as_arr, conc, elementwise
from . import cplx

NUMERIC = (int, float, _np.number)


def is_sym(x, depth=0):
    if isinstance(x, (Sym, SymArr, seq.SymSeq, seq.SymRange, cplx.Cplx)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(is_sym(v, depth + 1) for v in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(is_sym(v) for v in x.ravel())
    if isinstance(x, dict) and depth < 2:
        return any(is_sym(v, depth + 1) for v in x.values())
    return False


USED = set()


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArr, _np.ndarray))


class ndarray(metaclass=_Meta):
    pass


class _FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.floating) or isinstance(x, Sym) and x.k == R

    def __call__(cls, x=0.0):
        return core.cast(x, 'f') if is_sym(x) else _np.float64(x)


_MISSING = object()


class NP:
    """attribute access -> model if there is one, else the real numpy behind a guard"""

    def __init__(self, real=_np, models=None, name='numpy'):
        self._real = real
        self._models = models if models is not None else MODELS
        self._name = name

    def __getattr__(self, name):
        m = self._models.get(name)
        r = getattr(self._real, name, _MISSING)
        if r is _MISSING and m is None:
            raise AttributeError('module %r has no attribute %r' % (self._name, name))
        if r is _MISSING:
            r = None
        if m is not None:
            if isinstance(m, (NP, type)) or not callable(m):
                return m
            return _dispatch(name, m, r)
        if isinstance(r, types.ModuleType):
            return NP(r, {}, self._name + '.' + name)
        if callable(r) and not isinstance(r, type):
            return _guard(self._name + '.' + name, r)
        return r


from math import isqrt as _isqrt
_ALWAYS = {'empty', 'zeros', 'ones', 'full'}


def _dispatch(name, m, r):
    def call(*a, **k):
        if any(_cx(x) for x in a):
            f = cplx.MODELS.get(name)
            if f is None:
                raise Unsupported('%s of complex values' % name)
            USED.add(name + ' (complex)')
            return f(*a, **k)
        if name in _ALWAYS or r is None or any(is_sym(x) for x in a) or any(is_sym(v) for v in k.values()):
            USED.add(name)
            return m(*a, **k)
        if name == 'sqrt' and len(a) == 1 and not k and isinstance(a[0], (int, float)) and a[0] >= 0 and a[0] == int(a[0]) < 10 ** 6:
            q = int(a[0])
            if _isqrt(q) ** 2 != q:
                return m(q)                                 # irrational: exact, not rounded to a double
        if name in ('array', 'asarray', 'asanyarray', 'ascontiguousarray') or True:
            k = {kk: _real_dtype(v) if kk == 'dtype' else v for kk, v in k.items()}
            a = tuple(_real_dtype(x) for x in a)
        v = r(*a, **k)
        return v.view(CArr) if name == 'arange' else v
    call.__name__ = name
    call._model = m
    return call


class CArr(_np.ndarray):
    """a concrete array which a symbolic index may select from"""

    def __getitem__(self, k):
        if isinstance(k, Sym) or isinstance(k, tuple) and any(isinstance(x, Sym) for x in k):
            return arr.from_np(_np.asarray(self))[k]
        return _np.ndarray.__getitem__(self, k)


def _cx(x):
    return isinstance(x, cplx.Cplx) or isinstance(x, (list, tuple)) and any(isinstance(v, cplx.Cplx) for v in x)


def _real_dtype(x):
    n = getattr(x, '__name__', '')
    return {'sym_float': float, 'sym_int': int, 'sym_bool': bool}.get(n, x) if isinstance(x, type) else x


def _guard(name, r):
    def call(*a, **k):
        if any(is_sym(x) for x in a) or any(is_sym(v) for v in k.values()):
            # concrete extents: run the real function on object cells
            if name.split('.')[-1] in CELLWISE:
                USED.add(name + ' (on cells)')
                a2 = [arr.cells(x) if is_sym(x) and not isinstance(x, Sym) else x for x in a]
                k2 = {kk: arr.cells(v) if is_sym(v) and not isinstance(v, Sym) else v for kk, v in k.items()}
                out = r(*a2, **k2)
                if isinstance(out, tuple):
                    return tuple(arr.from_cells(o) for o in out)
                return arr.from_cells(out)
            raise Unsupported('no model of %s' % name)
        k = {kk: _real_dtype(v) if kk == 'dtype' else v for kk, v in k.items()}
        return r(*[_real_dtype(x) for x in a], **k)
    call.__name__ = name.split('.')[-1]
    return call


CELLWISE = {'tensordot', 'einsum', 'roll', 'flip', 'fliplr', 'flipud', 'rot90', 'kron', 'tril', 'triu',
            'cumsum', 'cumprod', 'delete', 'insert', 'append', 'split', 'array_split', 'inner', 'trace', 'vdot',
            'correlate', 'convolve', 'block', 'dsplit', 'hsplit', 'vsplit', 'select', 'matrix_power', 'multi_dot',
            'atleast_2d', 'atleast_3d', 'ix_'}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# --- constants
MODELS['pi'] = Sym(R, core.PI)
MODELS['ndarray'] = ndarray


# --- construction
@model('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def _array(x, dtype=None, copy=None, order=None, ndmin=0, subok=False, _name=None):
    a = as_arr(x)
    k = core.dtype_kind(dtype)
    if k is not None and k != a.kind:
        a = a.astype(k) if isinstance(a, SymArr) else a
    elif not isinstance(x, SymArr):
        a = a.copy() if not isinstance(x, _np.ndarray) else a
    else:
        a = x
    while a.ndim < ndmin:
        a = a[None]
    return a


def _np_array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    a = _array(x, dtype, order=order, ndmin=ndmin)
    if copy and a is x or copy and isinstance(x, SymArr) and a.store is x.store:
        a = a.copy()
    return a


MODELS['array'] = _np_array


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    if isinstance(s, SymArr):
        return tuple(s)
    if isinstance(s, _np.ndarray):
        return tuple(s.tolist())
    return (s,)


def _iscx(dtype):
    return dtype is complex or isinstance(dtype, type) and issubclass(dtype, _np.complexfloating) or \
        isinstance(dtype, _np.dtype) and dtype.kind == 'c' or isinstance(dtype, str) and dtype in ('complex', 'c', 'c16', 'complex128')


def _dk(dtype, default='f'):
    k = core.dtype_kind(dtype)
    return default if k is None else k


@model('zeros')
def _zeros(shape, dtype=None, order=None):
    if _iscx(dtype):
        return cplx.Cplx(_zeros(shape), _zeros(shape))
    k = _dk(dtype)
    return _ford(arr.full(_shape(shape), {'f': 0.0, 'i': 0, 'b': False, 'O': 0}[k], k), order)


def _ford(a, order):
    if isinstance(a, SymArr):
        a.ford = order == 'F'
    return a


@model('ones')
def _ones(shape, dtype=None, order=None):
    k = _dk(dtype)
    return arr.full(_shape(shape), {'f': 1.0, 'i': 1, 'b': True, 'O': 1}[k], k)


@model('full')
def _full(shape, v, dtype=None):
    k = _dk(dtype, arr.kind_of([v]))
    return arr.full(_shape(shape), v, k)


@model('empty')
def _empty(shape, dtype=None, order=None):
    if isinstance(dtype, str) and dtype[:1] == 'U' or isinstance(dtype, _np.dtype) and dtype.kind == 'U':
        from . import text
        return text.TextArr(_shape(shape))
    if _iscx(dtype):
        return cplx.Cplx(_empty(shape), _empty(shape))
    k = _dk(dtype)
    sh = _shape(shape)
    if k == 'O':
        return arr.full(sh, None, 'O')
    f = ctx().freshfun('empty', *([I] * len(sh) + [{'f': R, 'i': I, 'b': B}[k]]))
    kk = {'f': R, 'i': I, 'b': B}[k]
    if not sh:
        return ctx().fresh('empty', kk)
    return _ford(SymArr(sh, lambda idx: mk(kk, f(*[intexpr(i) for i in idx])), k), order)


@model('zeros_like')
def _zeros_like(a, dtype=None):
    a = as_arr(a)
    return _zeros(a.shape_, dtype or a.kind)


@model('ones_like')
def _ones_like(a, dtype=None):
    a = as_arr(a)
    return _ones(a.shape_, dtype or a.kind)


@model('empty_like')
def _empty_like(a, dtype=None):
    a = as_arr(a)
    return _empty(a.shape_, dtype or a.kind)


@model('full_like')
def _full_like(a, v, dtype=None):
    a = as_arr(a)
    return _full(a.shape_, v, dtype or a.kind)


@model('identity', 'eye')
def _eye(n, M=None, k=0, dtype=None):
    if M is not None or k:
        raise Unsupported('eye with M or k')
    return SymArr((n, n), lambda idx: ite(arr._idx_eq(idx[0], idx[1]), 1.0, 0.0), 'f')


@model('arange')
def _arange(a, b=None, step=1, dtype=None):
    lo, hi = (0, a) if b is None else (a, b)
    if conc(step) is None or any(isinstance(x, Sym) and x.k == R or isinstance(x, float) for x in (lo, hi)):
        raise Unsupported('arange with real bounds')
    n = seq.SymRange(lo, hi, conc(step)).length()
    r = SymArr((n,), lambda idx: _lin(lo, conc(step), idx[0]), 'i')
    return r.astype(dtype) if dtype is not None else r


def _lin(lo, step, i):
    return seq._at(lo, step, i)


@model('linspace')
def _linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if is_sym(a) and isinstance(as_arr(a), SymArr) and as_arr(a).ndim or is_sym(b) and as_arr(b).ndim:
        raise Unsupported('array linspace')
    n = num
    div = n - 1 if endpoint else n
    a, b = core.cast(a, 'f') if not isinstance(a, Sym) else a, b
    d = b - a

    def fn(idx):
        i = idx[0]
        c = conc(i)
        if c == 0:
            return a + 0.0 if not isinstance(a, Sym) else a
        t = arr._tdiv(d, div) * i + a
        return t
    return SymArr((n,), fn, 'f')


# --- elementwise
def ew1(name, f, kind='f', real_name=None):
    def g(x, out=None, **k):
        if k:
            raise Unsupported('keyword of %s' % name)
        if isinstance(x, Sym) or lift(x) is not None:
            return f(x)
        r = elementwise(f, [x], kind)
        if out is not None:
            out[...] = r
            return out
        return r
    MODELS[name] = g
    return g


for _n, _m in [('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arccos', 'acos'), ('arcsin', 'asin'),
               ('arctan', 'atan'), ('exp', 'exp'), ('log', 'log'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'),
               ('cbrt', 'cbrt')]:
    ew1(_n, (lambda mm: lambda x: m1(mm, x))(_m))
ew1('abs', abs, None)
MODELS['absolute'] = MODELS['fabs'] = MODELS['abs']
ew1('expm1', lambda x: m1('exp', x) - 1)
ew1('log1p', lambda x: m1('log', 1 + x))
ew1('square', lambda x: x * x, None)
ew1('negative', lambda x: -x, None)
ew1('floor', lambda x: mk(R, core.toreal(*lift(core.floor(x)))))
ew1('ceil', lambda x: mk(R, core.toreal(*lift(-core.floor(-x)))))
ew1('rint', lambda x: core.rint(x))
ew1('trunc', lambda x: mk(R, core.toreal(*lift(core.trunc(x)))))
ew1('fix', lambda x: mk(R, core.toreal(*lift(core.trunc(x)))))
ew1('sign', lambda x: ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0)), None)
ew1('deg2rad', lambda x: x * Sym(R, core.PI) / 180)
ew1('rad2deg', lambda x: x * 180 / Sym(R, core.PI))
MODELS['radians'], MODELS['degrees'] = MODELS['deg2rad'], MODELS['rad2deg']
ew1('isnan', lambda x: False, 'b')
ew1('isinf', lambda x: False, 'b')
ew1('isfinite', lambda x: True, 'b')
ew1('isreal', lambda x: True, 'b')
ew1('conj', lambda x: x, None)
ew1('real', lambda x: x, None)
ew1('logical_not', lambda x: core.lnot(mkb(boolexpr(x))), 'b')
ew1('nan_to_num', lambda x: x, None)


@model('round', 'around', 'round_')
def _round(x, decimals=0):
    if decimals:
        raise Unsupported('round to decimals')
    return MODELS['rint'](x)


def ew2(name, f, kind=None):
    def g(a, b, out=None, **k):
        if k:
            raise Unsupported('keyword of %s' % name)
        if all(isinstance(x, Sym) or lift(x) is not None for x in (a, b)):
            return f(a, b)
        r = elementwise(f, [a, b], kind)
        if out is not None:
            out[...] = r
            return out
        return r
    MODELS[name] = g


ew2('add', lambda a, b: a + b)
ew2('subtract', lambda a, b: a - b)
ew2('multiply', lambda a, b: a * b)
ew2('divide', arr._tdiv, 'f')
MODELS['true_divide'] = MODELS['divide']
ew2('floor_divide', lambda a, b: a // b)
ew2('mod', lambda a, b: a % b)
MODELS['remainder'] = MODELS['mod']
ew2('fmod', lambda a, b: a - core.trunc(a / b) * b)
ew2('power', arr._pow)
ew2('maximum', lambda a, b: ite(a >= b, a, b))
ew2('minimum', lambda a, b: ite(a <= b, a, b))
ew2('greater', lambda a, b: a > b, 'b')
ew2('greater_equal', lambda a, b: a >= b, 'b')
ew2('less', lambda a, b: a < b, 'b')
ew2('less_equal', lambda a, b: a <= b, 'b')
ew2('equal', lambda a, b: a == b, 'b')
ew2('not_equal', lambda a, b: core.lnot(a == b), 'b')
ew2('logical_and', lambda a, b: core.land(a, b), 'b')
ew2('logical_or', lambda a, b: core.lor(a, b), 'b')
ew2('arctan2', lambda a, b: mk(R, core.ATAN2(core.real(a), core.real(b))), 'f')
ew2('hypot', lambda a, b: m1('sqrt', a * a + b * b), 'f')


@model('clip')
def _clip(a, lo, hi):
    if lo is not None:
        a = _U['maximum'](a, lo)
    if hi is not None:
        a = _U['minimum'](a, hi)
    return a


@model('where')
def _where(c, a=None, b=None):
    if a is None:
        return _nonzero(c)
    shp, (c, a, b) = arr.broadcast_arrays(c, a, b)
    fc, fa, fb = c.vfn(), a.vfn(), b.vfn()
    kind = max((a.kind, b.kind), key='bifO'.index)
    if not shp:
        return ite(mkb(boolexpr(fc(()))), fa(()), fb(()))
    return SymArr(shp, lambda i: ite(mkb(boolexpr(fc(i))), fa(i), fb(i)), kind)


@model('nonzero')
def _nonzero(c):
    c = as_arr(c)
    cs = [conc(s) for s in c.shape_]
    if None in cs:
        return _sym_nonzero(c)
    m = _np.zeros(cs, dtype=bool)
    for i in _np.ndindex(*cs):
        m[i] = bool(c.elem(*i))
    return m.nonzero()


class IdxSet(SymArr):
    """1d integer array known through its members: x is an entry iff member(x)"""

    @classmethod
    def new(cls, n, member, inc):
        c = ctx()
        L = c.fresh('cnt', I)
        c.fact(z3.And(L.e >= 0, L.e <= intexpr(n)) if inc else L.e >= 0)
        f = z3.Function('idx!%d' % next(c.counter), z3.IntSort(), z3.IntSort())
        seen = []

        def fn(ix):
            k = intexpr(ix[0])
            e = f(k)
            if not any(z3.eq(k, q) for q in seen):
                inr = z3.And(k >= 0, k < L.e)
                c.fact(z3.Implies(inr, z3.And(e >= 0, e < intexpr(n), boolexpr(member(Sym(I, e))))))
                if inc:
                    for q in seen:
                        inq = z3.And(inr, q >= 0, q < L.e)
                        c.fact(z3.Implies(z3.And(inq, k < q), e < f(q)))
                        c.fact(z3.Implies(z3.And(inq, q < k), f(q) < e))
                seen.append(k)
            return Sym(I, e)
        r = cls((L,), fn, 'i')
        r.member, r.inc, r.n, r.store0 = member, inc, n, r.store.fn
        return r

    def intact(self):
        return self.store.fn is self.store0

    def __len__(self):
        return self.shape_[0].__index__()


def _bexists(n, fn):
    cn = conc(n)
    if cn is not None:
        return core.lor(*[fn(i) for i in range(cn)]) if cn else False
    q = z3.Const('q@%d' % next(ctx().counter), z3.IntSort())
    body = core.below_quantifier(lambda: boolexpr(fn(Sym(I, q))), [q >= 0, q < intexpr(n)])
    return mkb(z3.Exists([q], z3.And(q >= 0, q < intexpr(n), body)))


def _sym_nonzero(c):
    f = c.vfn()
    t = lambda ix: mkb(boolexpr(f(ix)))
    if c.ndim == 1:
        return (IdxSet.new(c.shape_[0], lambda x: t((x,)), True),)
    if c.ndim == 2:
        n, m = c.shape_
        return (IdxSet.new(n, lambda x: _bexists(m, lambda y: t((x, y))), False),
                IdxSet.new(m, lambda y: _bexists(n, lambda x: t((x, y))), False))
    raise Unsupported('nonzero over symbolic extents')


@model('unique')
def _unique(a, **k):
    if isinstance(a, IdxSet) and a.intact() and not k:
        return IdxSet.new(a.n, a.member, True)
    raise Unsupported('unique of a symbolic array')


@model('flatnonzero')
def _flatnonzero(c):
    return _nonzero(as_arr(c).ravel())[0]


# --- reductions
@model('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False):
    return arr.reduce_sum(a, axis, keepdims)


@model('mean', 'average')
def _mean(a, axis=None, keepdims=False, weights=None):
    if weights is not None:
        raise Unsupported('weighted average')
    return arr.mean(a, axis, keepdims)


@model('prod', 'product')
def _prod(a, axis=None):
    return arr.reduce_fold(a, axis, lambda x, y: x * y, None)


MODELS['multiply_reduce'] = _prod


@model('max', 'amax')
def _max(a, axis=None):
    return arr.reduce_ext(a, axis, True)


@model('min', 'amin')
def _min(a, axis=None):
    return arr.reduce_ext(a, axis, False)


@model('all', 'alltrue')
def _all(a, axis=None):
    return arr.reduce_bool(a, axis, True)


@model('any')
def _any(a, axis=None):
    return arr.reduce_bool(a, axis, False)


@model('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    # reals: |a-b| <= atol + rtol*|b| everywhere
    d = elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), [a, b], 'b')
    if not isinstance(d, SymArr):
        return d
    return arr.reduce_bool(d, None, True)


@model('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: abs(x - y) <= atol + rtol * abs(y), [a, b], 'b')


@model('array_equal')
def _array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim or not all(arr.same_dim(x, y) for x, y in zip(a.shape_, b.shape_)):
        return False
    return arr.reduce_bool(elementwise(lambda x, y: x == y, [a, b], 'b'), None, True)


@model('count_nonzero')
def _count_nonzero(a):
    return arr.reduce_sum(elementwise(lambda x: ite(mkb(boolexpr(x)), 1, 0), [a], 'i'))


@model('argmin')
def _argmin(a, axis=None):
    return _argext(a, axis, False)


@model('argmax')
def _argmax(a, axis=None):
    return _argext(a, axis, True)


def _argext(a, axis, ismax):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('argmin/argmax of a multi-dimensional array')
    # contract: the first index whose element is extremal
    c = ctx()
    j = c.fresh('arg', I)
    n = a.shape_[0]
    c.fact(z3.And(j.e >= 0, j.e < intexpr(n)))
    m = core.real(a.elem(j))
    cn = conc(n)
    if cn is not None:
        for q in range(cn):
            v = core.real(a.elem(q))
            c.fact((m >= v) if ismax else (m <= v))
            c.fact(z3.Implies(j.e > q, (m > v) if ismax else (m < v)))
    else:
        q = z3.Const('q@%d' % next(c.counter), z3.IntSort())
        v = core.below_quantifier(lambda: core.real(a.elem(Sym(I, q))), [q >= 0, q < intexpr(n)])
        c.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < intexpr(n)),
                                         z3.And((m >= v) if ismax else (m <= v),
                                                z3.Implies(q < j.e, (m > v) if ismax else (m < v))))))
    return j


# --- shaping
@model('dot', 'matmul')
def _dot(a, b, out=None):
    return arr.dot(a, b)


def _matmul(a, b):
    return arr.dot(a, b, matmul=True)


MODELS['matmul'] = _matmul


@model('inner')
def _inner(a, b):
    a, b = as_arr(a), as_arr(b)
    return arr.dot(a, b.T) if b.ndim > 1 else arr.dot(a, b)


@model('outer')
def _outer(a, b):
    a, b = as_arr(a).ravel(), as_arr(b).ravel()
    return a[:, None] * b[None, :]


@model('cross')
def _cross(a, b, axis=-1):
    a, b = as_arr(a), as_arr(b)
    if axis not in (-1, a.ndim - 1):
        raise Unsupported('cross with axis')
    if conc(a.shape_[-1]) != 3 or conc(b.shape_[-1]) != 3:
        raise Unsupported('cross of non-3-vectors')
    c = lambda i, j: a[..., i] * b[..., j] - a[..., j] * b[..., i]
    return arr.stack([c(1, 2), c(2, 0), c(0, 1)], axis=-1)


@model('diag')
def _diag(a, k=0):
    if k:
        raise Unsupported('diag with offset')
    return arr.diag(a)


@model('trace')
def _trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = as_arr(a)
    if dtype is not None or out is not None or conc(offset) != 0:
        raise Unsupported('trace options')
    x, y = axis1 % a.ndim, axis2 % a.ndim
    if a.ndim == 2:
        return arr.diag(a if (x, y) == (0, 1) else a.T).sum()
    if x == y:
        raise ValueError('axis1 and axis2 cannot be the same')
    n, m = conc(a.shape_[x]), conc(a.shape_[y])
    if n is None or m is None:
        raise Unsupported('trace over symbolic extents')
    key = lambda i: tuple(i if k in (x, y) else slice(None) for k in range(a.ndim))
    r = 0
    for i in range(min(n, m)):
        r = a[key(i)] + r
    return r


@model('concatenate')
def _concatenate(arrs, axis=0, out=None):
    return arr.concatenate(arrs, axis)


@model('vstack', 'row_stack')
def _vstack(arrs):
    return arr.concatenate([as_arr(a)[None, :] if as_arr(a).ndim == 1 else as_arr(a) for a in arrs], 0)


@model('hstack')
def _hstack(arrs):
    arrs = [as_arr(a) for a in arrs]
    return arr.concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


@model('column_stack')
def _column_stack(arrs):
    return arr.concatenate([as_arr(a)[:, None] if as_arr(a).ndim == 1 else as_arr(a) for a in arrs], 1)


@model('stack')
def _stack(arrs, axis=0):
    return arr.stack(list(arrs), axis)


@model('repeat')
def _repeat(a, n, axis=None):
    return arr.repeat(a, n, axis)


@model('tile')
def _tile(a, reps):
    a = as_arr(a)
    reps = list(reps) if isinstance(reps, (tuple, list)) else [reps]
    nd = max(a.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    while a.ndim < nd:
        a = a[None]
    f, sh = a.vfn(), a.shape_
    return SymArr([r * s for r, s in zip(reps, sh)],
                  lambda idx: f(tuple(i if conc(r) == 1 else i % s for i, s, r in zip(idx, sh, reps))), a.kind)


@model('reshape')
def _reshape(a, shape, order='C'):
    if order != 'C':
        return as_arr(a).reshape(shape, order=order)
    return arr.reshape(a, shape)


@model('ravel')
def _ravel(a, order='C'):
    return as_arr(a).ravel(order=order)


@model('transpose')
def _transpose(a, axes=None):
    return as_arr(a).transpose(axes)


@model('swapaxes')
def _swapaxes(a, i, j):
    return as_arr(a).swapaxes(i, j)


@model('moveaxis')
def _moveaxis(a, src, dst):
    a = as_arr(a)
    src = [src] if not isinstance(src, (tuple, list)) else list(src)
    dst = [dst] if not isinstance(dst, (tuple, list)) else list(dst)
    src = [s % a.ndim for s in src]
    dst = [d % a.ndim for d in dst]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


@model('rollaxis')
def _rollaxis(a, axis, start=0):
    a = as_arr(a)
    n = a.ndim
    axis %= n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    axes = list(range(n))
    axes.remove(axis)
    axes.insert(start, axis)
    return a.transpose(axes)


@model('squeeze')
def _squeeze(a, axis=None):
    return as_arr(a).squeeze(axis)


@model('expand_dims')
def _expand_dims(a, axis):
    a = as_arr(a)
    axis %= a.ndim + 1
    return a[tuple([slice(None)] * axis + [None])]


@model('atleast_1d')
def _atleast_1d(a):
    a = as_arr(a)
    return a if a.ndim else arr.from_list([a.elem()])


@model('atleast_2d')
def _atleast_2d(a):
    a = as_arr(a)
    if a.ndim == 0:
        return arr.full((1, 1), a.elem(), a.kind)
    return a[None, :] if a.ndim == 1 else a


@model('broadcast_to')
def _broadcast_to(a, shape):
    a = as_arr(a)
    return SymArr(_shape(shape), arr.bc_fn(a, _shape(shape)), a.kind, ro=False)


@model('copy')
def _copy(a):
    return as_arr(a).copy()


@model('take')
def _take(a, ind, axis=None):
    return as_arr(a).take(ind, axis)


@model('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    """a: concrete and ascending; the number of entries below v (side left), not above v (side right)"""
    x = _np.array([float(conc(t) if conc(t) is not None else _bad('searchsorted in symbolic values')) for t in (as_arr(a) if not isinstance(a, _np.ndarray) else a)])
    if sorter is not None or _np.any(x[1:] < x[:-1]) or not isinstance(v, Sym):
        raise Unsupported('searchsorted')
    xs = [int(t) if t == int(t) else t for t in x.tolist()]
    r = 0
    for k in xs:
        r = r + ite(k < v if side == 'left' else k <= v, 1, 0)
    return r


def _bad(s):
    raise Unsupported(s)


@model('cumsum')
def _cumsum(a, axis=None):
    return as_arr(a).cumsum(axis)


@model('diff')
def _diff(a, n=1, axis=-1):
    a = as_arr(a)
    for _ in range(n):
        axis %= a.ndim
        pre = (slice(None),) * axis
        a = a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]
    return a


@model('ndim')
def _ndim(a):
    return as_arr(a).ndim


@model('shape')
def _shape_of(a):
    return as_arr(a).shape


@model('size')
def _size_of(a, axis=None):
    a = as_arr(a)
    return a.size if axis is None else a.shape_[axis]


@model('meshgrid')
def _meshgrid(x, y, indexing='xy'):
    x, y = as_arr(x), as_arr(y)
    fx, fy = x.vfn(), y.vfn()
    nx, ny = x.shape_[0], y.shape_[0]
    if indexing == 'xy':
        return [SymArr((ny, nx), lambda i: fx((i[1],)), x.kind), SymArr((ny, nx), lambda i: fy((i[0],)), y.kind)]
    return [SymArr((nx, ny), lambda i: fx((i[0],)), x.kind), SymArr((nx, ny), lambda i: fy((i[1],)), y.kind)]


@model('einsum')
def _einsum(spec, *ops, **kw):
    kw.pop('optimize', None)
    if kw or not isinstance(spec, str):
        raise Unsupported('einsum keywords')
    spec = spec.replace(' ', '')
    ops = [as_arr(o) for o in ops]
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    if out is None:
        flat = ''.join(ins)
        out = ''.join(sorted(c for c in set(flat) if flat.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum')
        for c, n in zip(s, o.shape_):
            if c in dims:
                if not arr.same_dim(dims[c], n):
                    raise ValueError('einsum')
            else:
                dims[c] = n
    summed = [c for c in dims if c not in out]
    fs = [o.vfn() for o in ops]

    def fn(idx):
        env = dict(zip(out, idx))

        def rec(j):
            if j == len(summed):
                r = 1
                for s, f in zip(ins, fs):
                    r = f(tuple(env[c] for c in s)) * r
                return r

            def body(k):
                env[summed[j]] = k
                return rec(j + 1)
            return arr.sum_range(body, dims[summed[j]])
        return rec(0)
    if not out:
        return fn(())
    return SymArr([dims[c] for c in out], fn, max((o.kind for o in ops), key='bifO'.index))


@model('tensordot')
def _tensordot(a, b, axes=2):
    a, b = as_arr(a), as_arr(b)
    if isinstance(axes, int):
        aa, bb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        bb = [bb] if isinstance(bb, int) else list(bb)
    L = 'abcdefghijklmnopqrstuvw'
    sa = list(L[:a.ndim])
    sb = list(L[a.ndim:a.ndim + b.ndim])
    for x, y in zip(aa, bb):
        sb[y % b.ndim] = sa[x % a.ndim]
    out = [c for i, c in enumerate(sa) if i not in [x % a.ndim for x in aa]] + \
          [c for i, c in enumerate(sb) if i not in [x % b.ndim for x in bb]]
    return _einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(out), a, b)


@model('apply_along_axis')
def _apply_along_axis(f, axis, a, *args, **kw):
    a = as_arr(a)
    axis %= a.ndim
    rest = [i for i in range(a.ndim) if i != axis]
    probe = None
    fz = a.copy()

    def one(idx):
        key = [None] * a.ndim
        for p, x in zip(rest, idx):
            key[p] = x
        key[axis] = slice(None)
        return f(fz._basic(key), *args, **kw)
    p = one(tuple(ctx().fresh('probe', I) if conc(a.shape_[i]) is None else 0 for i in rest))
    if isinstance(p, (SymArr, _np.ndarray)):
        p = as_arr(p)
        if p.ndim != 1:
            raise Unsupported('apply_along_axis result')
        shape = list(a.shape_)
        shape[axis] = p.shape_[0]
        return SymArr(shape, lambda idx: as_arr(one(tuple(idx[i] for i in rest))).elem(idx[axis]), p.kind)
    return SymArr([a.shape_[i] for i in rest], lambda idx: one(idx), arr.kind_of([p]))


# --- linalg
def det3(m):
    f = as_arr(m)
    n = conc(f.shape_[-1])
    e = lambda i, j: f.elem(i, j)
    if n == 1:
        return e(0, 0)
    if n == 2:
        return e(0, 0) * e(1, 1) - e(0, 1) * e(1, 0)
    if n == 3:
        return (e(0, 0) * (e(1, 1) * e(2, 2) - e(1, 2) * e(2, 1))
                - e(0, 1) * (e(1, 0) * e(2, 2) - e(1, 2) * e(2, 0))
                + e(0, 2) * (e(1, 0) * e(2, 1) - e(1, 1) * e(2, 0)))
    raise Unsupported('determinant of this order')


def _square(a):
    n = conc(a.shape_[-1])
    if n is None or n != conc(a.shape_[-2]):
        raise Unsupported('linear algebra on symbolic extents')
    return n


LINALG = {}


def _lin_models():
    def det(a):
        a = as_arr(a)
        if a.ndim == 2:
            return det3(a)
        g = a.vfn()
        lead = a.shape_[:-2]
        nl = len(lead)
        n = a.shape_[-2:]
        return SymArr(lead, lambda idx: det3(SymArr(n, lambda ij: g(tuple(idx) + tuple(ij)), a.kind)), 'f')

    def inv2(a):
        n = _square(a)
        d = det3(a)
        e = lambda i, j: a.elem(i, j)
        if core.CTX is not None and isinstance(d, Sym):
            # numpy raises LinAlgError on an exactly singular matrix
            if not ctx().decide(core.real(d) != 0):
                raise _np.linalg.LinAlgError('Singular matrix')
        if n == 1:
            return as_arr([[1 / d]])
        if n == 2:
            return as_arr([[e(1, 1) / d, -e(0, 1) / d], [-e(1, 0) / d, e(0, 0) / d]])
        if n == 3:
            def cof(i, j):
                r = [x for x in range(3) if x != j]
                c = [x for x in range(3) if x != i]
                v = e(r[0], c[0]) * e(r[1], c[1]) - e(r[0], c[1]) * e(r[1], c[0])
                return (v if (i + j) % 2 == 0 else -v) / d
            return as_arr([[cof(i, j) for j in range(3)] for i in range(3)])
        raise Unsupported('inverse of this order')

    def inv(a):
        a = as_arr(a)
        if a.ndim == 2:
            return inv2(a)
        g = a.vfn()
        nl = a.ndim - 2

        def fn(idx):
            sub = SymArr(a.shape_[-2:], lambda ij: g(tuple(idx[:nl]) + tuple(ij)), a.kind)
            return _inv_elem(sub, idx[nl], idx[nl + 1])
        return SymArr(a.shape_, fn, 'f')

    def _inv_elem(a, i, j):
        n = _square(a)
        e = lambda p, q: a.elem(p, q)
        d = det3(a)
        if n != 3:
            raise Unsupported('stacked inverse of this order')
        vals = []
        def cof(i, j):
            r = [x for x in range(3) if x != j]
            c = [x for x in range(3) if x != i]
            v = e(r[0], c[0]) * e(r[1], c[1]) - e(r[0], c[1]) * e(r[1], c[0])
            return (v if (i + j) % 2 == 0 else -v) / d
        m = as_arr([[cof(p, q) for q in range(3)] for p in range(3)])
        return m.elem(i, j)

    def solve(a, b):
        a, b = as_arr(a), as_arr(b)
        return arr.dot(inv(a), b, matmul=True) if a.ndim > 2 else arr.dot(inv(a), b)

    def norm(a, ord=None, axis=None, keepdims=False):
        a = as_arr(a)
        if ord not in (None, 2, 'fro') or (ord == 2 and axis is None and a.ndim == 2):
            raise Unsupported('norm with ord')
        s = arr.reduce_sum(a * a, axis, keepdims)
        return MODELS['sqrt'](s)

    LINALG.update(det=det, inv=inv, solve=solve, norm=norm, LinAlgError=_np.linalg.LinAlgError)


_lin_models()
MODELS['linalg'] = NP(_np.linalg, LINALG, 'numpy.linalg')
FFT = {'fft': cplx.fft, 'ifft': cplx.ifft, 'fftfreq': cplx.fftfreq}
MODELS['fft'] = NP(_np.fft, FFT, 'numpy.fft')
MODELS['correlate'] = cplx.correlate
cplx.MODELS.update(fft=cplx.fft, ifft=cplx.ifft)

def _fftconvolve(a, k, mode='full', axes=None):
    """valid mode, exact arithmetic: out[i] = sum_m a[i+M-1-m] k[m] along the only axis on which k is longer than 1"""
    a, k = as_arr(a), as_arr(k)
    if mode != 'valid' or axes is not None:
        raise Unsupported('fftconvolve mode')
    if a.ndim != k.ndim:
        raise ValueError('in1 and in2 should have the same dimensionality')
    ax = [d for d in range(k.ndim) if conc(k.shape_[d]) != 1]
    if len(ax) > 1:
        raise Unsupported('fftconvolve along several axes')
    q = ax[0] if ax else 0
    n, M = a.shape_[q], k.shape_[q]
    if not _truth(n >= M):
        raise Unsupported('fftconvolve with a kernel longer than the data')
    fa, fk = a.vfn(), k.vfn()

    def fn(ix):
        def term(m):
            return fa(tuple(ix[:q]) + (ix[q] + M - 1 - m,) + tuple(ix[q + 1:])) * fk((0,) * q + (m,) + (0,) * (k.ndim - 1 - q))
        return arr.big_sum(term, 0, M)
    return SymArr(tuple(a.shape_[:q]) + (n - M + 1,) + tuple(a.shape_[q + 1:]), fn, 'f')


def _cdist(a, b, metric='euclidean'):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 2 or b.ndim != 2:
        raise ValueError('XA must be a 2-dimensional array.')
    if not _truth(a.shape_[1] == b.shape_[1]):
        raise ValueError('XA and XB must have the same number of columns')
    fa, fb = a.vfn(), b.vfn()

    def sq(i, j):
        def term(k):
            d = fa((i, k)) - fb((j, k))
            return d * d
        return arr.big_sum(term, 0, a.shape_[1])
    if metric == 'sqeuclidean':
        f = lambda ix: sq(*ix)
    elif metric == 'euclidean':
        f = lambda ix: core.m1('sqrt', sq(*ix))
    else:
        raise Unsupported('cdist metric %s' % metric)
    return SymArr((a.shape_[0], b.shape_[0]), f, 'f')


def _trapezoid(y, x=None, dx=1.0, axis=-1):
    """composite trapezoidal rule along axis; x 1d or None"""
    y = as_arr(y)
    q = axis % y.ndim
    n = y.shape_[q]
    f = y.vfn()
    if x is not None:
        x = as_arr(x)
        if x.ndim != 1:
            raise Unsupported('trapezoid with N-d x')
        if not _truth(x.shape_[0] == n):
            raise ValueError('operands could not be broadcast together')
        fx = x.vfn()
        h = lambda k: fx((k + 1,)) - fx((k,))
    else:
        h = lambda k: dx

    def fn(ix):
        at = lambda k: f(tuple(ix[:q]) + (k,) + tuple(ix[q:]))
        return arr.big_sum(lambda k: h(k) * (at(k + 1) + at(k)) / 2, 0, n - 1)
    sh = tuple(y.shape_[:q]) + tuple(y.shape_[q + 1:])
    return SymArr(sh, fn, 'f') if sh else fn(())


def _simpson(y, x=None, dx=1.0, axis=-1):
    """composite Simpson rule (irregular spacing) along axis, last interval of an even number of points by Cartwright's
    correction, as scipy >= 1.11; x 1d (distinct neighbours) or None"""
    y = as_arr(y)
    q = axis % y.ndim
    n = y.shape_[q]
    f = y.vfn()
    if x is not None:
        x = as_arr(x)
        if x.ndim != 1:
            raise Unsupported('simpson with N-d x')
        if not _truth(x.shape_[0] == n):
            raise ValueError('If given, length of x along axis must be the same as y.')
        fx = x.vfn()
        h = lambda k: fx((k + 1,)) - fx((k,))
    else:
        h = lambda k: dx
    if not _truth(n >= 2):
        raise Unsupported('simpson with fewer than two points')
    even = _truth(n % 2 == 0)
    two = even and _truth(n == 2)

    def fn(ix):
        at = lambda k: f(tuple(ix[:q]) + (k,) + tuple(ix[q:]))
        if two:
            return h(0) * (at(0) + at(1)) / 2

        def seg(j):
            k = 2 * j
            a, b = h(k), h(k + 1)
            return (a + b) / 6 * (at(k) * (2 - b / a) + at(k + 1) * ((a + b) * (a + b) / (a * b)) + at(k + 2) * (2 - a / b))
        m = (n - 2) // 2 if even else (n - 1) // 2
        r = arr.big_sum(seg, 0, m)
        if even:
            a, b = h(n - 3), h(n - 2)
            r = r + (2 * b * b + 3 * a * b) / (6 * (a + b)) * at(n - 1) + (b * b + 3 * a * b) / (6 * a) * at(n - 2) - b * b * b / (6 * a * (a + b)) * at(n - 3)
        return r
    sh = tuple(y.shape_[:q]) + tuple(y.shape_[q + 1:])
    return SymArr(sh, fn, 'f') if sh else fn(())


def _truth(c):
    if isinstance(c, Sym):
        return ctx().decide(core.boolexpr(c))
    return bool(c)


UFUNCS = {}


class _Ufunc:
    """numpy ufunc objects with .reduce"""

    def __init__(self, name, f, red):
        self.f, self.red, self.__name__ = f, red, name
        self.real = getattr(_np, name)

    def __call__(self, *a, **k):
        if any(is_sym(x) for x in a):
            return self.f(*a, **k)
        return self.real(*a, **k)

    def reduce(self, a, axis=0, **k):
        if is_sym(a):
            if k:
                raise Unsupported('keyword of %s.reduce' % self.__name__)
            return self.red(a, axis)
        return self.real.reduce(a, axis=axis, **k)


for _n, _r in (('add', lambda a, ax: arr.reduce_sum(a, ax)), ('multiply', lambda a, ax: arr.reduce_fold(a, ax, lambda x, y: x * y, None)),
               ('logical_and', lambda a, ax: arr.reduce_bool(a, ax, True)), ('logical_or', lambda a, ax: arr.reduce_bool(a, ax, False)),
               ('maximum', lambda a, ax: arr.reduce_ext(a, ax, True)), ('minimum', lambda a, ax: arr.reduce_ext(a, ax, False))):
    MODELS[_n] = type(_n, (), {})  # placeholder, replaced below
    UFUNCS[_n] = _r


def _fix_ufuncs():
    base = {}
    ew = {}
    for n in UFUNCS:
        pass


# (re)build the ufunc objects around the elementwise models
def _mk(n, f, kind=None):
    def g(a, b, out=None, **k):
        if k:
            raise Unsupported('keyword of %s' % n)
        if all(isinstance(x, Sym) or lift(x) is not None for x in (a, b)):
            return f(a, b)
        r = elementwise(f, [a, b], kind)
        if out is not None:
            out[...] = r
            return out
        return r
    return _Ufunc(n, g, UFUNCS[n])


_U = {'add': _mk('add', lambda a, b: a + b), 'multiply': _mk('multiply', lambda a, b: a * b),
      'logical_and': _mk('logical_and', lambda a, b: core.land(a, b), 'b'),
      'logical_or': _mk('logical_or', lambda a, b: core.lor(a, b), 'b'),
      'maximum': _mk('maximum', lambda a, b: ite(a >= b, a, b)),
      'minimum': _mk('minimum', lambda a, b: ite(a <= b, a, b))}
for _n in _U:
    MODELS.pop(_n)


class NumPy(NP):
    def __getattr__(self, name):
        if name in _U:
            return _U[name]
        return NP.__getattr__(self, name)


numpy = NumPy(_np, MODELS, 'numpy')

# --- math
import math as _math
MATH = {'pi': Sym(R, core.PI)}
for _n, _m in [('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('acos', 'acos'), ('asin', 'asin'),
               ('atan', 'atan'), ('exp', 'exp'), ('log', 'log'), ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh')]:
    MATH[_n] = (lambda mm: lambda x: m1(mm, x))(_m)
MATH['fabs'] = abs
MATH['expm1'] = lambda x: m1('exp', x) - 1
MATH['log1p'] = lambda x: m1('log', 1 + x)
MATH['floor'] = core.floor
MATH['ceil'] = lambda x: -core.floor(-x)
MATH['degrees'] = lambda x: x * 180 / Sym(R, core.PI)
MATH['radians'] = lambda x: x * Sym(R, core.PI) / 180
MATH['hypot'] = lambda a, b: m1('sqrt', a * a + b * b)
math = NP(_math, MATH, 'math')


@model('polyder')
def _polyder(p, m=1):
    p = as_arr(p)
    n = conc(p.shape_[0])
    if n is None:
        raise Unsupported('polyder with a symbolic number of coefficients')
    cs = [p[i] for i in range(n)]
    for _ in range(m):
        k = len(cs)
        cs = [cs[i] * (k - 1 - i) for i in range(k - 1)]
    return as_arr(cs) if cs else arr.SymArr((0,), lambda i: 0.0, 'f')


@model('polyval')
def _polyval(p, x):
    n = conc(as_arr(p).shape_[0]) if not isinstance(p, _np.ndarray) else len(p)
    if n is None:
        raise Unsupported('polyval with a symbolic number of coefficients')
    x = as_arr(x)
    r = x * 0.0
    for i in range(n):
        r = r * x + p[i]
    return r
