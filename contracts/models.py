"""Contracts of the library functions that vc/npf.py, vc/arr.py and vc/loader.py model (numpy, scipy, math, builtins).

Not a property of pwtools: the proof of a unit here shows that the *model* satisfies the formula, its bounded run (the
same formula, real library) that the *library* does, so both sides of a trusted model are compared.  tools/selftest.py runs
them; no check depends on them."""
from vc.harness import unit
from .spec import *
import numpy as np
import itertools


def A(g, nd, name='a', **kw):
    dims = tuple(g.dim('%s_%d' % (name, k)) for k in range(nd))
    return dims, g.reals(name, dims, samp=(-3, 3), **kw)


def put(ix, a, k):
    ix = list(ix)
    return tuple(ix[:a] + [k] + ix[a:])


@unit('models', ['numpy'])
def reductions(g):
    """sum, mean, prod over a concrete axis; all axes; keepdims; negative axes; max/min/argmax/argmin by their defining properties"""
    np = g.mod('num').np
    nd = g.choose('nd', [1, 2, 3])
    dims, a = A(g, nd)
    ax = g.choose('ax%d' % nd, list(range(-nd, nd)))
    q = ax % nd
    rest = dims[:q] + dims[q + 1:]
    keep = g.flag('keep')
    for name in ('sum', 'mean'):
        r = getattr(np, name)(a, axis=ax, keepdims=keep)
        if keep:
            g.shape(name, r, dims[:q] + (1,) + dims[q + 1:])
            g.forall(name, rest, lambda *ix, r=r, name=name: g.close(r[put(ix, q, 0)] * (dims[q] if name == 'mean' else 1), g.sum(lambda k: a[put(ix, q, k)], dims[q])))
        elif nd > 1:
            g.shape(name, r, rest)
            g.forall(name, rest, lambda *ix, r=r, name=name: g.close(r[ix] * (dims[q] if name == 'mean' else 1), g.sum(lambda k: a[put(ix, q, k)], dims[q])))
        else:
            g.eq(name, r * (dims[q] if name == 'mean' else 1), g.sum(lambda k: a[k], dims[q]))
    if nd == 2:
        g.eq('sum of all', a.sum(), g.sum(lambda i: g.sum(lambda j: a[i, j], dims[1]), dims[0]))
    if nd == 1:
        for name in ('argmax', 'argmin'):
            r = getattr(np, name)(a)
            g.ensure(name + ' in range', g.land(r >= 0, r < dims[0]))
            g.forall(name + ' optimal', dims, lambda i, r=r, name=name: (a[r] >= a[i]) if name == 'argmax' else (a[r] <= a[i]))
            g.forall(name + ' first', dims, lambda i, r=r: g.implies(i < r, g.lnot(g.same(a[i], a[r]))))


@unit('models', ['numpy'])
def extrema(g):
    """max/min along an axis of listed extent: bound and attained"""
    np = g.mod('num').np
    n = g.dim('n')
    a = g.reals('a', (n, 3), samp=(-3, 3))
    for name in ('max', 'min'):
        r = getattr(np, name)(a, axis=g.choose('ax', [1, -1]))
        g.shape(name, r, (n,))
        g.forall(name, (n,), lambda i, r=r: g.lor(*[g.same(r[i], a[i, k]) for k in range(3)]))
        g.forall(name + ' bound', (n, 3), lambda i, k, r=r, name=name: (r[i] >= a[i, k]) if name == 'max' else (r[i] <= a[i, k]))


@unit('models', ['numpy'])
def products(g):
    """dot for every pair of ranks used, matmul, inner, outer, tensordot, einsum, cross, trace"""
    np = g.mod('num').np
    n, m, k = g.dim('n'), g.dim('m'), g.dim('k')
    a, b = g.reals('a', (n, k), samp=(-3, 3)), g.reals('b', (k, m), samp=(-3, 3))
    x, y = g.reals('x', (k,), samp=(-3, 3)), g.reals('y', (k,), samp=(-3, 3))
    s = g.reals('s', (m, n, k), samp=(-3, 3))
    mm = lambda i, j: g.sum(lambda p: a[i, p] * b[p, j], k)
    for name, r in (('dot', np.dot(a, b)), ('matmul', np.matmul(a, b)), ('@', a @ b), ('einsum', np.einsum('ip,pj->ij', a, b)),
                    ('tensordot', np.tensordot(a, b, axes=1)), ('tensordot axes', np.tensordot(a, b, axes=([1], [0])))):
        g.shape(name, r, (n, m))
        g.forall(name, (n, m), lambda i, j, r=r: g.close(r[i, j], mm(i, j)))
    g.forall('einsum transposed', (m, n), lambda j, i: g.close(np.einsum('ip,pj->ji', a, b)[j, i], mm(i, j)))
    g.forall('dot mat vec', (n,), lambda i: g.close(np.dot(a, x)[i], g.sum(lambda p: a[i, p] * x[p], k)))
    g.forall('dot vec mat', (m,), lambda j: g.close(np.dot(x, b)[j], g.sum(lambda p: x[p] * b[p, j], k)))
    g.eq('dot vec vec', np.dot(x, y), g.sum(lambda p: x[p] * y[p], k))
    g.eq('inner', np.inner(x, y), g.sum(lambda p: x[p] * y[p], k))
    g.forall('outer', (k, k), lambda i, j: g.close(np.outer(x, y)[i, j], x[i] * y[j]))
    r = np.dot(s, b)
    g.shape('dot 3 2', r, (m, n, m))
    g.forall('dot 3 2', (m, n, m), lambda i, j, l, r=r: g.close(r[i, j, l], g.sum(lambda p: s[i, j, p] * b[p, l], k)))
    r = np.dot(a, s.swapaxes(1, 2))
    g.shape('dot 2 3', r, (n, m, n))
    g.forall('dot 2 3', (n, m, n), lambda i, j, l, r=r: g.close(r[i, j, l], g.sum(lambda p: a[i, p] * s[j, l, p], k)))
    r = np.matmul(s, b)
    g.forall('matmul stacked', (m, n, m), lambda i, j, l, r=r: g.close(r[i, j, l], g.sum(lambda p: s[i, j, p] * b[p, l], k)))
    u, v = g.reals('u', (n, 3), samp=(-3, 3)), g.reals('v', (n, 3), samp=(-3, 3))
    r = np.cross(u, v)
    g.shape('cross', r, (n, 3))
    for c in range(3):
        p, q = (c + 1) % 3, (c + 2) % 3
        g.forall('cross', (n,), lambda i, r=r, c=c, p=p, q=q: g.close(r[i, c], u[i, p] * v[i, q] - u[i, q] * v[i, p]))
    w = g.reals('w', (3, 3), samp=(-3, 3))
    g.eq('trace', np.trace(w), w[0, 0] + w[1, 1] + w[2, 2])
    g.forall('diag', (3,), lambda i: g.same(np.diag(w)[i], w[i, i]))


@unit('models', ['numpy.linalg', 'scipy.linalg'])
def linalg(g):
    """det, inv (plain and stacked), solve, norm"""
    np = g.mod('num').np
    w = g.reals('w', (3, 3), samp=(-3, 3))
    invertible(g, w)
    n = g.dim('n')
    g.eq('det', np.linalg.det(w), det(w))
    i = np.linalg.inv(w)
    for p in range(3):
        for q in range(3):
            g.eq('inv', sum(i[p, r] * w[r, q] for r in range(3)), 1 if p == q else 0)
    b = g.reals('b', (3, n), samp=(-3, 3))
    x = np.linalg.solve(w, b)
    g.shape('solve', x, (3, n))
    g.forall('solve', (3, n), lambda p, j: g.close(w[p, 0] * x[0, j] + w[p, 1] * x[1, j] + w[p, 2] * x[2, j], b[p, j], rtol=1e-6, atol=1e-6))
    d2, a = A(g, 2)
    g.forall('norm', (d2[0],), lambda i: g.close(np.linalg.norm(a, axis=1)[i], g.sqrt(g.sum(lambda k: a[i, k] * a[i, k], d2[1]))))


@unit('models', ['numpy'])
def shapes(g):
    """reshape, transpose, swapaxes, rollaxis, moveaxis, squeeze, expand_dims, broadcasting, newaxis, views"""
    np = g.mod('num').np
    dims, a = A(g, 3)
    i3 = lambda f: g.forall(f[0], dims, f[1])
    i3(('T', lambda i, j, k: g.same(a.T[k, j, i], a[i, j, k])))
    for perm in itertools.permutations(range(3)):
        r = np.transpose(a, perm)
        g.shape('transpose', r, tuple(dims[p] for p in perm))
        g.forall('transpose', dims, lambda *ix, r=r, perm=perm: g.same(r[tuple(ix[p] for p in perm)], a[ix]))
    for p in range(-3, 3):
        for q in range(-3, 3):
            r = np.swapaxes(a, p, q)
            def at(ix, p=p, q=q):
                ix = list(ix)
                ix[p], ix[q] = ix[q], ix[p]
                return tuple(ix)
            g.forall('swapaxes', dims, lambda *ix, r=r, at=at: g.same(r[at(ix)], a[ix]))
            r = np.moveaxis(a, p, q)
            order = [x for x in range(3) if x != p % 3]
            order.insert(q % 3, p % 3)
            g.forall('moveaxis', dims, lambda *ix, r=r, order=order: g.same(r[tuple(ix[o] for o in order)], a[ix]))
    for p in range(3):
        for q in range(4):
            r = np.rollaxis(a, p, q)
            order = [x for x in range(3) if x != p]
            order.insert(q - (1 if q > p else 0), p)
            g.forall('rollaxis', dims, lambda *ix, r=r, order=order: g.same(r[tuple(ix[o] for o in order)], a[ix]))
    r = a[:, None, :, :]
    g.shape('newaxis', r, (dims[0], 1, dims[1], dims[2]))
    g.forall('newaxis', dims, lambda i, j, k, r=r: g.same(r[i, 0, j, k], a[i, j, k]))
    g.shape('squeeze', r.squeeze(1) if hasattr(r, 'squeeze') else r, dims)
    v = g.reals('v', (dims[2],), samp=(-3, 3))
    g.forall('broadcast', dims, lambda i, j, k: g.close((a * v + v[None, None, :])[i, j, k], a[i, j, k] * v[k] + v[k]))
    m, n = g.dim('m'), g.dim('n')
    b = g.reals('b', (m * n,), samp=(-3, 3))
    r = b.reshape((m, n))
    g.shape('reshape', r, (m, n))
    g.forall('reshape', (m, n), lambda i, j: g.same(r[i, j], b[i * n + j]))
    c = g.reals('c', (m, n), samp=(-3, 3))
    f = c.reshape((m * n,))
    g.forall('flatten', (m, n), lambda i, j: g.same(f[i * n + j], c[i, j]))


@unit('models', ['numpy'])
def indexing(g):
    """slices with steps and negative bounds, integer arrays, integer and slice mixed, assignment through views, copies"""
    np = g.mod('num').np
    n, m = g.dim('n', 3), g.dim('m')
    a = g.reals('a', (n, m), samp=(-3, 3))
    a0 = g.snap(a)
    for lo, hi, st in ((0, 2, 1), (1, None, 1), (None, -1, 1), (None, None, 2), (None, None, -1), (-2, None, 1), (1, -1, 1)):
        r = a[lo:hi:st]
        idx = {(0, 2, 1): (2, lambda i: i), (1, None, 1): (n - 1, lambda i: i + 1), (None, -1, 1): (n - 1, lambda i: i),
               (None, None, 2): ((n + 1) // 2, lambda i: 2 * i), (None, None, -1): (n, lambda i: n - 1 - i),
               (-2, None, 1): (2, lambda i: n - 2 + i), (1, -1, 1): (n - 2, lambda i: i + 1)}[(lo, hi, st)]
        g.shape('slice', r, (idx[0], m))
        g.forall('slice', (idx[0], m), lambda i, j, r=r, f=idx[1]: g.same(r[i, j], a0[f(i), j]))
    ix = [n - 1, 0, 1, 0]
    r = a[ix]
    g.shape('fancy', r, (4, m))
    for p in range(4):
        g.forall('fancy', (m,), lambda j, p=p: g.same(r[p, j], a0[ix[p], j]))
    g.forall('last', (m,), lambda j: g.same(a[-1][j], a0[n - 1, j]))
    v = a[1:]
    v[0, :] = 5.0
    g.forall('view written', (n, m), lambda i, j: g.same(a[i, j], g.ite(g.same(i, 1), 5.0, a0[i, j])))
    c = a.copy()
    c[...] = 0.0
    g.forall('copy', (n, m), lambda i, j: g.same(a[i, j], g.ite(g.same(i, 1), 5.0, a0[i, j])))
    a[:, 0] += 1.0
    g.forall('augmented', (n, m), lambda i, j: g.close(a[i, j], g.ite(g.same(i, 1), 5.0, a0[i, j]) + g.ite(g.same(j, 0), 1.0, 0.0)))


@unit('models', ['numpy'])
def building(g):
    """arange, linspace, zeros/ones/eye/empty_like, concatenate, vstack, hstack, column_stack, repeat, tile, meshgrid, diff, where, clip"""
    np = g.mod('num').np
    n, m = g.dim('n', 2), g.dim('m')
    g.shape('arange', np.arange(n), (n,))
    g.forall('arange', (n,), lambda i: g.same(np.arange(n)[i], i))
    g.forall('arange from', (m,), lambda i: g.same(np.arange(n, n + m)[i], n + i))
    lo, hi = g.real('lo', samp=(-3, 3)), g.real('hi', samp=(-3, 3))
    r = np.linspace(lo, hi, n)
    g.shape('linspace', r, (n,))
    g.forall('linspace', (n,), lambda i: g.close(r[i] * (n - 1), lo * (n - 1) + (hi - lo) * i))
    r2 = np.linspace(lo, hi, n, endpoint=False)
    g.forall('linspace open', (n,), lambda i: g.close(r2[i] * n, lo * n + (hi - lo) * i))
    g.forall('eye', (3, 3), lambda i, j: g.same(np.eye(3)[i, j], g.ite(g.same(i, j), 1.0, 0.0)))
    a, b = g.reals('a', (n, m), samp=(-3, 3)), g.reals('b', (n, m), samp=(-3, 3))
    for ax in (0, 1, -1):
        q = ax % 2
        r = np.concatenate((a, b), axis=ax)
        g.shape('concatenate', r, (2 * n, m) if q == 0 else (n, 2 * m))
        g.forall('concatenate 1', (n, m), lambda i, j, r=r: g.same(r[i, j], a[i, j]))
        g.forall('concatenate 2', (n, m), lambda i, j, r=r, q=q: g.same(r[(i + n, j) if q == 0 else (i, j + m)], b[i, j]))
    g.forall('vstack', (n, m), lambda i, j: g.same(np.vstack((a, b))[i + n, j], b[i, j]))
    g.forall('hstack', (n, m), lambda i, j: g.same(np.hstack((a, b))[i, j + m], b[i, j]))
    g.forall('column_stack', (n,), lambda i: g.same(np.column_stack((a[:, 0], b[:, 0]))[i, 1], b[i, 0]))
    r = np.repeat(a, 3, axis=0)
    g.shape('repeat', r, (3 * n, m))
    for p in range(3):
        g.forall('repeat', (n, m), lambda i, j, p=p: g.same(r[3 * i + p, j], a[i, j]))
    r3 = a[:, None, :].repeat(m, axis=1)
    g.forall('repeat new', (n, m, m), lambda i, p, j: g.same(r3[i, p, j], a[i, j]))
    g.forall('diff', (n - 1, m), lambda i, j: g.close(np.diff(a, axis=0)[i, j], a[i + 1, j] - a[i, j]))
    g.forall('where', (n, m), lambda i, j: g.same(np.where(a > b, a, b)[i, j], g.ite(a[i, j] > b[i, j], a[i, j], b[i, j])))
    g.forall('clip', (n, m), lambda i, j: g.same(np.clip(a, -1.0, 1.0)[i, j], g.ite(a[i, j] < -1.0, -1.0, g.ite(a[i, j] > 1.0, 1.0, a[i, j]))))
    X = np.meshgrid(a[:, 0], b[0], indexing='ij')
    g.forall('meshgrid', (n, m), lambda i, j: g.land(g.same(X[0][i, j], a[i, 0]), g.same(X[1][i, j], b[0, j])))


@unit('models', ['numpy', 'math'])
def rounding(g):
    """floor, ceil, trunc, rint, fix, sign, abs, integer division and modulo (Python and numpy signs), int()"""
    np = g.mod('num').np
    n = g.dim('n')
    a = g.reals('a', (n,), samp=(-3, 3))
    f, c = np.floor(a), np.ceil(a)
    g.forall('floor', (n,), lambda i: g.land(g.isint(f[i]), f[i] <= a[i], a[i] < f[i] + 1))
    g.forall('ceil', (n,), lambda i: g.land(g.isint(c[i]), c[i] >= a[i], a[i] > c[i] - 1))
    r = np.rint(a)
    g.forall('rint', (n,), lambda i: g.land(g.isint(r[i]), g.abs(r[i] - a[i]) <= 0.5))
    g.forall('sign', (n,), lambda i: g.same(np.sign(a)[i], g.ite(a[i] > 0, 1.0, g.ite(a[i] < 0, -1.0, 0.0))))
    g.forall('mod', (n,), lambda i: g.land((a % 1.0)[i] >= 0, (a % 1.0)[i] < 1.0000000001))
    k = g.ints('k', (n,), samp=(-9, 9))
    d = g.choose('d', [3, -3, 2, 7])
    q, m = k // d, k % d
    g.forall('div mod', (n,), lambda i: g.land(g.same(q[i] * d + m[i], k[i]), (m[i] >= 0) if d > 0 else (m[i] <= 0), (m[i] < d) if d > 0 else (m[i] > d)))
    z = g.int('z', samp=(-9, 9))
    g.ensure('python div mod', g.land(g.same((z // d) * d + z % d, z), (z % d >= 0) if d > 0 else (z % d <= 0), g.abs(z % d) < abs(d)))
    x = g.real('x', samp=(-3, 3))
    t = int(x) if not g.sym else np.trunc(x)
    g.ensure('trunc', g.land(g.isint(g.toreal(t)), g.abs(g.toreal(t)) <= g.abs(x), g.abs(x - g.toreal(t)) < 1, x * g.toreal(t) >= 0))
    t = a.astype(int)
    g.forall('astype int', (n,), lambda i: g.land(g.abs(g.toreal(t[i])) <= g.abs(a[i]), g.abs(a[i] - g.toreal(t[i])) < 1, a[i] * t[i] >= 0))


@unit('models', ['numpy'])
def rint_even(g):
    """halves are rounded to even"""
    np = g.mod('num').np
    a = g.real('a', samp=(-3, 3))
    r = np.rint(a)
    g.ensure('rint even', g.implies(g.same(g.abs(r - a), 0.5), g.isint(r / 2)))


@unit('models', ['scipy'])
def quadrature(g):
    """trapezoid, fftconvolve (valid), cdist"""
    num, sg = g.mod('num'), g.mod('signal')
    np = num.np
    n, m = g.dim('n', 2), g.dim('m')
    y, x = g.reals('y', (n, m), samp=(-3, 3)), g.reals('x', (n,), samp=(-3, 3))
    if g.sym:
        from vc import loader
        sp = loader._scipy()
    else:
        import scipy.integrate, scipy.signal, scipy.spatial.distance
        sp = scipy
    r = sp.integrate.trapezoid(y, x, axis=0)
    g.shape('trapezoid', r, (m,))
    g.forall('trapezoid', (m,), lambda j: g.close(r[j], g.sum(lambda k: (x[k + 1] - x[k]) * (y[k + 1, j] + y[k, j]) / 2, n - 1)))
    r2 = sp.integrate.trapezoid(y[:, 0], dx=0.5)
    g.eq('trapezoid dx', r2, g.sum(lambda k: (y[k + 1, 0] + y[k, 0]) / 4, n - 1))
    from . import c11
    K = g.int('K', 1, samp=(1, 7))
    for nn, how in [(2 * K + 1, 2 * K + 1), (2 * K + 2, (2 * K + 2,)), (2, None)]:
        ys, xs = g.reals('ys%d' % bool(how), (nn,), samp=(-3, 3)), g.reals('xs%d' % bool(how), (nn,), samp=(1, 2))
        if not g.sym:
            xs = xs.cumsum()
        g.ensure('simpson', g.close(sp.integrate.simpson(ys, x=xs), c11.simpson_rule(g, ys, xs, how)))
    k = g.reals('k', (3,), samp=(-2, 2))
    g.require(n >= 3)
    r3 = sp.signal.fftconvolve(x, k, 'valid')
    g.shape('convolve', r3, (n - 2,))
    g.forall('convolve', (n - 2,), lambda i: g.close(r3[i], x[i] * k[2] + x[i + 1] * k[1] + x[i + 2] * k[0]))
    r4 = sp.spatial.distance.cdist(y, y)
    g.forall('cdist', (n, n), lambda i, j: g.close(r4[i, j], g.sqrt(g.sum(lambda c: (y[i, c] - y[j, c]) * (y[i, c] - y[j, c]), m))))


@unit('models', ['numpy', 'builtins'])
def comparing(g):
    """all/any, boolean masks (selection in order), nonzero, argsort-free selection, allclose, array_equal, cumsum, in-place ufuncs"""
    np = g.mod('num').np
    n = g.dim('n')
    a = g.reals('a', (n,), samp=(-3, 3))
    b = g.reals('b', (n,), samp=(-3, 3))
    all_, any_ = (a > 0).all(), (a > 0).any()
    g.forall('all', (n,), lambda i: g.implies(all_, a[i] > 0))
    g.forall('any', (n,), lambda i: g.implies(a[i] > 0, any_))
    idx = (a > b).nonzero()[0]
    g.indexset('nonzero', idx, n, lambda i: a[i] > b[i])
    c = np.cumsum(a)
    g.shape('cumsum', c, (n,))
    g.forall('cumsum', (n,), lambda i: g.close(c[i], g.sum(lambda k: a[k], i + 1)))
    s = g.snap(a)
    a *= 2.0
    a -= b
    a /= 4.0
    g.forall('in place', (n,), lambda i: g.close(a[i], (2 * s[i] - b[i]) / 4))
    g.forall('power', (n,), lambda i: g.close((b ** 2)[i], b[i] * b[i]))
    x = np.abs(b) + 1.0
    g.forall('power half', (n,), lambda i: g.close((x ** 0.5)[i], g.sqrt(x[i])))
    g.forall('power -1', (n,), lambda i: g.close((x ** -1.0)[i] * x[i], 1))
    g.forall('exp log', (n,), lambda i: g.close(np.log(np.exp(b))[i], b[i]))
    g.forall('trig', (n,), lambda i: g.close(np.sin(b)[i] * np.sin(b)[i] + np.cos(b)[i] * np.cos(b)[i], 1))
    g.forall('degrees', (n,), lambda i: g.close(np.degrees(np.radians(b))[i], b[i]))
