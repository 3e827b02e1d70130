"""complex values: pairs of real models.  Cplx.re, Cplx.im are scalars (numbers, Sym) or SymArr of one shape; tag
remembers what an array is (a Fourier transform, its modulus, its power spectrum), for the correlation theorem."""
import numpy as _np
from . import core, arr
from .core import Sym, Unsupported, R, mk, ite
from .arr import SymArr, as_arr, conc


def _zero(a):
    return not isinstance(a, (Sym, SymArr, _np.ndarray)) and a == 0


def _one(a):
    return not isinstance(a, (Sym, SymArr, _np.ndarray)) and a == 1


def _add(a, b):
    return b if _zero(a) and not isinstance(b, SymArr) else (a if _zero(b) and not isinstance(a, SymArr) else a + b)


def _sub(a, b):
    return a if _zero(b) and not isinstance(a, SymArr) else a - b


def _mul(a, b):
    if _zero(a) and not isinstance(b, SymArr) or _zero(b) and not isinstance(a, SymArr):
        return 0
    if _one(a) and not isinstance(b, SymArr):
        return b
    return b if _one(a) else (a if _one(b) else a * b)


def parts(x):
    if isinstance(x, Cplx):
        return x.re, x.im
    if isinstance(x, (complex, _np.complexfloating)):
        return x.real, x.imag
    if isinstance(x, _np.ndarray) and x.dtype.kind == 'c':
        return arr.from_np(x.real.copy()), arr.from_np(x.imag.copy())
    if isinstance(x, (SymArr, Sym)) or core.lift(x) is not None:
        return x, 0
    if isinstance(x, (_np.ndarray, list, tuple)):
        a = as_arr(x)
        return a, 0
    return None


def has(x):
    return isinstance(x, (Cplx, complex, _np.complexfloating)) or isinstance(x, _np.ndarray) and x.dtype.kind == 'c'


class Cplx:
    __array_ufunc__ = None
    __array_priority__ = 1000
    _is_sym = True

    def __init__(self, re, im, tag=None):
        if isinstance(re, SymArr) and not isinstance(im, SymArr):
            im = arr.full(re.shape_, im, 'f')
        if isinstance(im, SymArr) and not isinstance(re, SymArr):
            z = _zero(re)
            re = arr.full(im.shape_, re, 'f')
            re.zeros = z
        self.re, self.im, self.tag = re, im, tag

    def __repr__(self):
        return 'Cplx(%r, %r)' % (self.re, self.im)

    def __hash__(self):
        raise Unsupported('hash of a complex value')

    def __bool__(self):
        raise Unsupported('truth of a complex value')

    def __float__(self):
        raise TypeError("can't convert complex to float")

    @property
    def shape(self):
        return self.re.shape if isinstance(self.re, SymArr) else ()

    @property
    def shape_(self):
        return self.re.shape_ if isinstance(self.re, SymArr) else ()

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        return self.re.size

    @property
    def real(self):
        return self.re if not isinstance(self.re, SymArr) else self.re[...]

    @property
    def imag(self):
        return self.im if not isinstance(self.im, SymArr) else self.im[...]

    @property
    def T(self):
        return Cplx(self.re.T, self.im.T)

    def __len__(self):
        return len(self.re)

    def _op(self, o, f):
        p = parts(o)
        if p is None:
            return NotImplemented
        return f(self.re, self.im, *p)

    def __add__(self, o): return self._op(o, lambda a, b, c, d: Cplx(_add(a, c), _add(b, d)))
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b, c, d: Cplx(_sub(a, c), _sub(b, d)))
    def __rsub__(self, o): return self._op(o, lambda a, b, c, d: Cplx(_sub(c, a), _sub(d, b)))

    def __mul__(self, o):
        if isinstance(o, Cplx) and self.tag and o.tag and {self.tag[0], o.tag[0]} == {'fft', 'conj'} and self.tag[1] is o.tag[1]:
            t = ('power', self.tag[1])
            re = self.re * self.re + self.im * self.im
            return Cplx(re, 0, t)
        return self._op(o, lambda a, b, c, d: Cplx(_sub(_mul(a, c), _mul(b, d)), _add(_mul(a, d), _mul(b, c))))
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = parts(o)
        if p is None:
            return NotImplemented
        c, d = p
        if _zero(d):
            return Cplx(arr._tdiv(self.re, c), arr._tdiv(self.im, c))
        q = c * c + d * d
        return (self * Cplx(c, -d)) / q

    def __rtruediv__(self, o):
        q = self.re * self.re + self.im * self.im
        r = Cplx(self.re, -self.im) * o
        return r / q

    def __neg__(self): return Cplx(-self.re, -self.im)
    def __pos__(self): return Cplx(self.re, self.im)

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported('power of a complex value')

    def __abs__(self):
        q = self.re * self.re + self.im * self.im
        if isinstance(q, SymArr):
            f = q.vfn()
            r = SymArr(q.shape_, lambda ix: core.m1('sqrt', f(ix)), 'f')
            if self.tag and self.tag[0] in ('fft', 'conj'):
                r.tag = ('abs', self.tag[1], q)
            return r
        return core.m1('sqrt', q)

    def conj(self):
        return Cplx(self.re[...] if isinstance(self.re, SymArr) else self.re, -self.im,
                    ({'fft': 'conj', 'conj': 'fft', 'power': 'power'}[self.tag[0]],) + self.tag[1:] if self.tag else None)
    conjugate = conj

    def __getitem__(self, k): return Cplx(self.re[k], self.im[k])

    def __setitem__(self, k, v):
        self.tag = None
        p = parts(v)
        if p is None:
            raise Unsupported('assignment of %r to a complex array' % type(v))
        self.re[k], self.im[k] = p

    def __iter__(self):
        n = conc(self.shape_[0])
        if n is None:
            raise Unsupported('iteration over a complex array')
        return iter([self[i] for i in range(n)])

    def copy(self, order=None): return Cplx(self.re.copy(), self.im.copy(), self.tag)
    def sum(self, *a, **k): return Cplx(self.re.sum(*a, **k), self.im.sum(*a, **k))
    def mean(self, *a, **k): return Cplx(self.re.mean(*a, **k), self.im.mean(*a, **k))
    def swapaxes(self, a, b): return Cplx(self.re.swapaxes(a, b), self.im.swapaxes(a, b))
    def reshape(self, *s, **k): return Cplx(self.re.reshape(*s, **k), self.im.reshape(*s, **k))
    def elem(self, *ix): return Cplx(self.re.elem(*ix), self.im.elem(*ix))


def _exp(z):
    e = (lambda x: elw('exp', x))
    m = 1 if _zero(z.re) or isinstance(z.re, SymArr) and z.re.__dict__.get('zeros') else e(z.re)
    return Cplx(_mul(m, elw('cos', z.im)), _mul(m, elw('sin', z.im)))


def elw(name, x):
    if isinstance(x, SymArr):
        f = x.vfn()
        return SymArr(x.shape_, lambda ix: core.m1(name, f(ix)), 'f')
    return core.m1(name, x)


def _bil(op):
    def f(a, b, **k):
        if k:
            raise Unsupported('keyword of a complex product')
        (ar, ai), (br, bi) = parts(a), parts(b)
        def o(x, y):
            return 0 if _zero(x) or _zero(y) else op(as_arr(x), as_arr(y))
        return Cplx(_sub(o(ar, br), o(ai, bi)), _add(o(ar, bi), o(ai, br)))
    return f


def _cat(l, axis=0):
    ps = []
    for x in l:
        r, i = parts(x)
        r = as_arr(r)
        ps.append((r, i if not _zero(i) else arr.full(r.shape_, 0.0, 'f')))
    return Cplx(arr.concatenate([p[0] for p in ps], axis=axis), arr.concatenate([p[1] for p in ps], axis=axis))


MODELS = {
    'exp': _exp, 'abs': abs, 'absolute': abs, 'real': lambda z: z.real, 'imag': lambda z: z.imag, 'conj': lambda z: z.conj(),
    'conjugate': lambda z: z.conj(), 'sum': lambda z, axis=None, **k: z.sum(axis=axis, **k), 'mean': lambda z, axis=None: z.mean(axis=axis),
    'dot': _bil(arr.dot), 'matmul': _bil(lambda a, b: arr.dot(a, b, matmul=True)), 'copy': lambda z: z.copy(),
    'array': lambda z, dtype=None: z.copy(), 'asarray': lambda z, dtype=None: z, 'concatenate': _cat,
    'square': lambda z: z * z, 'multiply': lambda a, b: (a * b), 'add': lambda a, b: a + b,
    'transpose': lambda z: z.T, 'swapaxes': lambda z, a, b: z.swapaxes(a, b), 'shape': lambda z: z.shape, 'ndim': lambda z: z.ndim,
}


# ---------------------------------------------------------------- discrete Fourier transform (the defining sum)

def _padded(x, n, q):
    """x with n entries along axis q (cut or zero padded)"""
    m = x.shape_[q]
    if n is None or arr.same_dim(n, m):
        return x
    f = x.vfn()
    less = n <= m
    if core.ctx().decide(core.boolexpr(less)) if isinstance(less, Sym) else less:
        g = f
    else:
        g = lambda ix: ite(ix[q] < m, f(ix), 0.0)
    return SymArr(tuple(x.shape_[:q]) + (n,) + tuple(x.shape_[q + 1:]), g, 'f')


def transform(x, n=None, axis=-1, overwrite_x=False, norm=None, sign=-1):
    if norm not in (None, 'backward') or overwrite_x:
        raise Unsupported('options of fft')
    p = parts(x)
    if p is None:
        raise Unsupported('fft of %r' % type(x))
    tag = x.__dict__.get('tag') if hasattr(x, '__dict__') else None
    re = as_arr(p[0])
    im = None if _zero(p[1]) else as_arr(p[1])
    q = axis % re.ndim
    N0 = re.shape_[q]
    if sign > 0:
        if tag and tag[0] == 'power' and n is None:
            return _corr(tag[1])
        raise Unsupported('inverse transform of something else than a power spectrum')
    re = _padded(re, n, q)
    im = None if im is None else _padded(im, n, q)
    N = re.shape_[q]
    fr, fi = re.vfn(), im.vfn() if im is not None else None

    def sums(ix):
        def ang(t):
            return 2 * core.Sym(R, core.PI) * ix[q] * t / N
        at = lambda t: tuple(ix[:q]) + (t,) + tuple(ix[q + 1:])
        c, s = (lambda t: core.m1('cos', ang(t))), (lambda t: core.m1('sin', ang(t)))
        if fi is None:
            return (lambda t: fr(at(t)) * c(t)), (lambda t: -(fr(at(t)) * s(t)))
        return (lambda t: fr(at(t)) * c(t) + fi(at(t)) * s(t)), (lambda t: fi(at(t)) * c(t) - fr(at(t)) * s(t))
    a = SymArr(re.shape_, lambda ix: arr.big_sum(sums(ix)[0], 0, N), 'f')
    b = SymArr(re.shape_, lambda ix: arr.big_sum(sums(ix)[1], 0, N), 'f')
    src = _Src(re, q) if im is None else None
    return Cplx(a, b, ('fft', src) if src is not None else None)


class _Src:
    """the real series of which an array is the transform"""

    def __init__(self, x, q):
        f = x.vfn()
        self.fn, self.q, self.shape = f, q, x.shape_


def _corr(src):
    """ifft(|fft(x)|^2)[t] = sum_j x[j] x[(j+t) mod N]  (Wiener-Khinchin)"""
    q, N, f = src.q, src.shape[src.q], src.fn

    def fn(ix):
        t = ix[q]
        at = lambda j: f(tuple(ix[:q]) + (j,) + tuple(ix[q + 1:]))
        return arr.big_sum(lambda j: at(j) * at(j + t), 0, N - t) + arr.big_sum(lambda j: at(j) * at(j + N - t), 0, t)
    return Cplx(SymArr(src.shape, fn, 'f'), 0)


def fft(x, n=None, axis=-1, **k):
    return transform(x, n, axis, **k)


def ifft(x, n=None, axis=-1, **k):
    return transform(x, n, axis, sign=1, **k)


def fftfreq(n, d=1.0):
    h = (n - 1) // 2 + 1
    return SymArr((n,), lambda ix: arr._tdiv(ite(ix[0] < h, ix[0], ix[0] - n) * 1.0, n * d), 'f')


def correlate(a, v, mode='valid'):
    """full mode: c[k] = sum_m a[m + k - (M-1)] v[m], indices outside count as 0"""
    if mode != 'full':
        raise Unsupported('correlate mode')
    a, v = as_arr(a), as_arr(v)
    n, m = a.shape_[0], v.shape_[0]
    fa, fv = a.vfn(), v.vfn()

    def fn(ix):
        s = ix[0] - (m - 1)
        lo = arr.smax(0, -s)
        hi = arr.smin(m, n - s)
        return arr.big_sum(lambda j: fa((j + s,)) * fv((j,)), lo, hi)
    return SymArr((n + m - 1,), fn, 'f')


def _coerce(cls):
    for op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv'):
        nm = '__%s__' % op
        def new(self, o, nm=nm, orig=getattr(cls, nm)):
            if has(o) and not isinstance(o, Cplx):
                r = getattr(Cplx(self, 0), nm)(o)
                return r
            return orig(self, o)
        setattr(cls, nm, new)


_coerce(Sym)
_coerce(SymArr)


def _pow(self, o, orig=SymArr.__pow__):
    t = self.__dict__.get('tag')
    if t and t[0] == 'abs' and not isinstance(o, (Sym, SymArr, _np.ndarray)) and o == 2:
        f = t[2].vfn()
        r = SymArr(self.shape_, f, 'f')
        r.tag = ('power', t[1])
        return r
    return orig(self, o)


def _amul(self, o, orig=SymArr.__mul__):
    return self ** 2 if o is self and self.__dict__.get('tag') else orig(self, o)


SymArr.__pow__, SymArr.__mul__ = _pow, _amul
