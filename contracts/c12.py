from vc.harness import unit
from .spec import *
from .c13 import put
import numpy as np
import itertools


@unit('C12', ['signal.pad_zeros'])
def pad_zeros(g):
    """original samples at the requested end, zeros elsewhere, length as requested"""
    nd = g.choose('ndim', [1, 2, 3])
    dims = tuple(g.dim('n%d' % k) for k in range(nd))
    ax = g.choose('axis%d' % nd, list(range(-nd, nd)))
    q = ax % nd
    where = g.choose('where', ['end', 'start'])
    how = g.choose('how', ['default', 'nadd', 'upto'])
    a = g.reals('a', dims, samp=(-3, 3))
    a0 = g.snap(a)
    n = dims[q]
    kw = {}
    if how == 'nadd':
        add = g.int('nadd', 0, samp=(0, 6))
        kw['nadd'] = add
    elif how == 'upto':
        upto = g.int('upto', 1, samp=(1, 12))
        g.require(upto >= n)
        kw['upto'] = upto
        add = upto - n
    else:
        add = n
    r = g.call('signal.pad_zeros', a, axis=ax, where=where, **kw)
    g.shape('shape', r, dims[:q] + (n + add,) + dims[q + 1:])
    o = 0 if where == 'end' else add
    rest = dims[:q] + dims[q + 1:]
    g.forall('samples', rest + (n,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1] + o)], a0[put(ix[:-1], q, ix[-1])]))
    z = n if where == 'end' else 0
    g.forall('zeros', rest + (add,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1] + z)], 0))
    g.unchanged('input unchanged', a, a0)


@unit('C12', ['signal.pad_zeros'])
def tonext(g):
    """tonext: the length is a power of two, not below tonext_min (default: the length), and half of it is below"""
    nd = g.choose('ndim', [1, 2, 3])
    dims = tuple(g.dim('n%d' % k, 1) for k in range(nd))
    q = g.choose('axis%d' % nd, list(range(nd)))
    where = g.choose('where', ['end', 'start'])
    how = g.choose('tonext_min', ['default', 'given'])
    a = g.reals('a', dims, samp=(-3, 3))
    a0 = g.snap(a)
    n = dims[q]
    mn, kw = n, {}
    if how == 'given':
        more = g.int('more', 0, samp=(0, 40))
        mn = n + more
        kw['tonext_min'] = mn
    g.require(mn <= 2 ** 29)
    r = g.call('signal.pad_zeros', a, axis=q, where=where, tonext=True, **kw)
    N = r.shape[q]
    g.ensure('a power of two', g.lor(*[N == 2 ** k for k in range(30)]))
    g.ensure('not below', N >= mn)
    g.ensure('smallest', g.lor(N == 1, N < 2 * mn))
    g.shape('shape', r, dims[:q] + (N,) + dims[q + 1:])
    o = 0 if where == 'end' else N - n
    rest = dims[:q] + dims[q + 1:]
    g.forall('samples', rest + (n,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1] + o)], a0[put(ix[:-1], q, ix[-1])]))
    z = n if where == 'end' else 0
    g.forall('zeros', rest + (N - n,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1] + z)], 0))
    g.unchanged('input unchanged', a, a0)


@unit('C12', ['signal.pad_zeros'], mode='bounded', why='machine integers', n=300)
def pad_tonext(g):
    """tonext: the smallest power of two not below tonext_min (default: the length)"""
    n = g.int('n', 1, 140)
    mn = g.choose('min', [None, 'n', 'more', '2n-1'])
    extra = g.int('extra', 0, 200)
    two = g.flag('2d')
    a = np.arange(1.0, n + 1)
    if two:
        a = np.array([a, a + 0.5]).T
    kw = {} if mn is None else {'tonext_min': {'n': n, 'more': n + extra, '2n-1': 2 * n - 1}[mn]}
    where = g.choose('where', ['end', 'start'])
    r = g.call('signal.pad_zeros', a, tonext=True, where=where, **kw)
    want = 1
    while want < kw.get('tonext_min', n):
        want *= 2
    g.ensure('length', len(r) == want)
    g.eq('samples', r[:n] if where == 'end' else r[want - n:], a, rtol=0, atol=0)
    g.ensure('zeros', not np.any(r[n:] if where == 'end' else r[:want - n]))


@unit('C12', ['signal.mirror'])
def mirror(g):
    """2N-1 points, symmetric about the middle, the second half is the original"""
    nd = g.choose('ndim', [1, 2, 3])
    dims = tuple(g.dim('n%d' % k) for k in range(nd))
    q = g.choose('axis%d' % nd, list(range(nd)))
    a = g.reals('a', dims, samp=(-3, 3))
    a0 = g.snap(a)
    n = dims[q]
    r = g.call('signal.mirror', a, axis=q)
    g.shape('shape', r, dims[:q] + (2 * n - 1,) + dims[q + 1:])
    rest = dims[:q] + dims[q + 1:]
    g.forall('second half', rest + (n,), lambda *ix: g.same(r[put(ix[:-1], q, n - 1 + ix[-1])], a0[put(ix[:-1], q, ix[-1])]))
    g.forall('symmetric', rest + (2 * n - 1,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1])], r[put(ix[:-1], q, 2 * n - 2 - ix[-1])]))
    if g.flag('default axis'):
        g.require(q == 0)
        g.eq('axis defaults to 0', g.call('signal.mirror', a), r)
    g.unchanged('input unchanged', a, a0)


def window(g, w, M, Mf):
    """M points of the symmetric window of Mf points"""
    g.shape('M points', w, (M,))
    g.forall('symmetric', (Mf,), lambda i: g.implies(g.land(i < M, Mf - 1 - i < M), g.close(w[i] if g.sym else w[min(i, len(w) - 1)], w[Mf - 1 - i] if g.sym else w[min(Mf - 1 - i, len(w) - 1)])))
    g.forall('at most 1', (M,), lambda i: w[i] <= 1 + (0 if g.sym else 1e-9))


@unit('C12', ['signal.welch'])
def welch(g):
    """parabola through zero at both ends, 1 at the centre"""
    M = g.dim('M', samp=(1, 30))
    sym = g.choose('sym', [1, 0])
    w = g.call('signal.welch', M, sym=sym)
    even = M % 2 == 0
    Mf = M if sym else g.ite(even, M + 1, M)
    g.shape('M points', w, (M,))
    g.forall('value', (M,), lambda i: g.implies(M > 1, g.close(
        w[i] * g.toreal((Mf - 1) * (Mf - 1)), g.toreal((Mf - 1) * (Mf - 1)) - g.toreal((2 * i - (Mf - 1)) * (2 * i - (Mf - 1))))))
    g.forall('symmetric', (M,), lambda i: g.implies(g.land(M > 1, Mf - 1 - i < M), g.close(w[i], w[g.ite(Mf - 1 - i < M, Mf - 1 - i, 0)])))
    g.forall('bounds', (M,), lambda i: g.land(w[i] >= 0, w[i] <= 1))
    g.forall('peak', (M,), lambda i: g.implies(2 * i == Mf - 1, g.close(w[i], 1)))


@unit('C12', ['signal.lorentz'])
def lorentz(g):
    """std/(x^2+std^2) about the centre, scaled to a largest value of 1"""
    M = g.dim('M', samp=(1, 30))
    sym = g.flag('sym')
    std = g.real('std', 0, samp=(0.1, 20))
    g.require(std > 0)
    w = g.call('signal.lorentz', M, std=std, sym=sym)
    even = M % 2 == 0
    Mf = M if sym else g.ite(even, M + 1, M)
    g.shape('M points', w, (M,))
    d = lambda i: g.toreal((2 * i - (Mf - 1)) * (2 * i - (Mf - 1))) / 4 + std * std
    g.forall('shape of the curve', (M, M), lambda i, j: g.implies(M > 1, g.close(w[i] * d(i), w[j] * d(j))))
    g.forall('positive', (M,), lambda i: w[i] > 0)
    g.forall('at most 1', (M,), lambda i: w[i] <= (1 if g.sym else 1 + 1e-12))
    g.forall('peak at the centre', (M,), lambda i: g.implies(g.lor(2 * i == Mf - 1, 2 * i == Mf), g.close(w[i], 1)))


@unit('C12', ['signal.smooth'], trusted=['scipy.signal.fftconvolve(a, k, "valid"): the sum of products (exact arithmetic)'], fork={'edge': 2, 'odd': 2})
def smooth(g):
    """convolution of the edge-extended data with the (normalised) kernel, centred; shape kept"""
    edge = g.choose('edge', ['m', 'c'])
    o = g.choose('odd', [1, 0])
    norm = g.flag('norm')
    form = g.choose('form', ['1d', '2d', 'last axis'])
    h = g.int('h', 1 - o, samp=(1 - o, 4))
    M = 2 * h + o
    N = g.dim('N', samp=(1, 14))
    if edge == 'm':
        g.require(M < N)
    k = g.reals('kern', (M,), samp=(0.05, 2))
    ks = g.sum(lambda m: k[m], M)
    g.require(ks > g.frac(1, 100))
    c = h if o else h - 1
    L = g.dim('L') if form != '1d' else 1
    if form == '1d':
        x = g.reals('data', (N,), samp=(-3, 3))
        X = lambda i, l: x[i]
        kk = k
    elif form == '2d':
        x = g.reals('data', (N, L), samp=(-3, 3))
        X = lambda i, l: x[i, l]
        kk = k[:, None]
    else:
        x = g.reals('data', (L, N), samp=(-3, 3))
        X = lambda i, l: x[l, i]
        kk = k[None, :]
    x0 = g.snap(x)
    k0 = g.snap(k)
    r = g.call('signal.smooth', x, kk, axis=1 if form == 'last axis' else 0, edge=edge, norm=norm)
    g.shape('shape', r, x0.shape)
    R = {'1d': lambda i, l: r[i], '2d': lambda i, l: r[i, l], 'last axis': lambda i, l: r[l, i]}[form]

    def ext(p, l):
        if g.sym:
            if edge == 'm':
                return g.ite(p < 0, X(-p, l), g.ite(p >= N, X(2 * N - 2 - p, l), X(p, l)))
            return g.ite(p < 0, X(0, l), g.ite(p >= N, X(N - 1, l), X(p, l)))
        if edge == 'm':
            return X(-p if p < 0 else 2 * N - 2 - p if p >= N else p, l)
        return X(min(max(p, 0), N - 1), l)
    s = ks if norm else 1
    rd = _rd(g, x0, form)
    X = rd
    g.forall('convolution', (N, L), lambda i, l: g.close(R(i, l) * s, g.sum(lambda m: ext(i + c - m, l) * k0[m], M)))
    g.unchanged('data unchanged', x, x0)
    g.unchanged('kernel unchanged', k, k0)


def _rd(g, x, form):
    if not g.sym:
        return {'1d': lambda i, l: x[i], '2d': lambda i, l: x[i, l], 'last axis': lambda i, l: x[l, i]}[form]
    f = x.vfn()
    return {'1d': lambda i, l: f((i,)), '2d': lambda i, l: f((i, l)), 'last axis': lambda i, l: f((l, i))}[form]


@unit('C12', ['signal.smooth'], mode='bounded', why='general form of the edge extension with zero filling', n=250)
def smooth_general(g):
    """kernels up to twice as long as the data; any axis of 1d - 3d data; constants kept for short kernels"""
    nd = g.int('nd', 1, 3)
    ax = g.int('ax', 0, nd - 1)
    dims = [g.int('d%d' % k, 1, 4) for k in range(nd)]
    N = dims[ax] = g.int('N', 2, 15)
    M = g.int('M', 1, 25)
    edge = g.choose('edge', ['m', 'c'])
    norm = g.flag('norm')
    x = g.reals('x', tuple(dims), samp=(-2, 2))
    k = g.reals('k', (M,), samp=(0.05, 2))
    kk = k.reshape([M if a == ax else 1 for a in range(nd)])
    r = g.call('signal.smooth', x, kk, axis=ax, edge=edge, norm=norm)
    g.shape('shape', r, x.shape)
    xm = np.moveaxis(x, ax, 0).reshape(N, -1)
    c = M // 2 if M % 2 else M // 2 - 1
    out = np.zeros_like(xm)
    for i in range(N):
        for m in range(M):
            p = i + c - m
            if edge == 'c':
                v = xm[min(max(p, 0), N - 1)]
            elif 0 <= p < N:
                v = xm[p]
            else:
                j = -p if p < 0 else 2 * N - 2 - p
                v = xm[j] if 0 <= j < N else 0 * xm[0]
            out[i] += k[m] * v
    if norm:
        out /= k.sum()
    g.eq('convolution', np.moveaxis(r, ax, 0).reshape(N, -1), out)
    if norm and (edge == 'c' or M <= N):
        one = g.call('signal.smooth', np.full(x.shape, 1.75), kk, axis=ax, edge=edge)
        g.eq('constants kept', one, np.full(x.shape, 1.75))


@unit('C12', ['signal.gauss', 'signal.odd', 'signal.scale'])
def small(g):
    """gauss is the Gaussian, odd the odd neighbour, scale maps onto [0,1]"""
    x = g.real('x')
    s = g.real('std', 0, samp=(0.2, 3))
    g.require(s > 0)
    v = g.call('signal.gauss', x, std=s)
    g.ensure('gauss', g.close(v, g.exp(-x * x / (2 * s * s))))
    u = g.call('signal.gauss', x, std=s, norm=True)
    g.ensure('normalised', g.close(u * s * g.sqrt(2 * g.pi), v))
    n = g.int('n', samp=(0, 40))
    add = g.choose('add', [1, -1])
    m = g.call('signal.odd', n, add=add)
    g.ensure('odd', g.land(g.same(m % 2, 1), g.lor(g.same(m, n), g.land(g.same(n % 2, 0), g.same(m, n + add)))))
    k = g.dim('k', 2)
    a = g.reals('a', (k,), samp=(-5, 5))
    g.require(g.lnot(a[0] == a[1]))
    a0 = g.snap(a)
    r = g.call('signal.scale', a)
    g.shape('shape', r, (k,))
    g.forall('range', (k,), lambda i: g.land(r[i] >= 0, r[i] <= 1))
    g.forall('affine', (k, k), lambda i, j: g.implies(a0[i] < a0[j], r[i] < r[j]))
    g.unchanged('input unchanged', a, a0)
