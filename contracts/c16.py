from vc.harness import unit
from .spec import *

KERN = ['gauss', 'multi', 'inv_multi']


def phi(g, name, rsq, p):
    if name == 'gauss':
        return g.exp(-rsq / (2 * p * p))
    m = g.sqrt(rsq + p * p)
    return m if name == 'multi' else 1 / m


def el(g, a, *i):
    return a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]


def sq(g, a, i, b, j, d):
    return g.sum(lambda k: (el(g, a, i, k) - el(g, b, j, k)) * (el(g, a, i, k) - el(g, b, j, k)), d)


def width(g):
    p = g.real('p', samp=(.3, 3))
    g.require(g.lnot(p == 0))
    return p


@unit('C16', ['num.distsq', 'flib.f90: distsq (translated)', 'rbf.core.squared_dists', 'rbf.core.euclidean_dists', 'rbf.core._np_distsq', 'rbf.core.estimate_p'],
      assume=['scipy.spatial.distance.cdist: (squared) euclidean distances'])
def squared_distances(g):
    """every implementation: sum_k (a_ik - b_jk)^2"""
    n, m, d = g.dim('n'), g.dim('m'), g.dim('d')
    a, b = g.reals('a', (n, d)), g.reals('b', (m, d))
    a0, b0 = g.snap(a), g.snap(b)
    how = g.choose('how', ['num.distsq', 'rbf.core.squared_dists', 'rbf.core._np_distsq', 'rbf.core.euclidean_dists', 'rbf.core.estimate_p'])
    if how == 'rbf.core.estimate_p':
        r = g.call(how, a) if g.flag('default') else g.call(how, a, method='mean')
        g.eq('mean distance', r * n * n, g.sum(lambda i: g.sum(lambda j: g.sqrt(sq(g, a0, i, a0, j, d)), n), n))
    else:
        r = g.call(how, a, b)
        g.shape('shape', r, (n, m))
        if how == 'rbf.core.euclidean_dists':
            g.forall('distance', (n, m), lambda i, j: g.close(r[i, j], g.sqrt(sq(g, a0, i, b0, j, d))))
        else:
            g.forall('squared distance', (n, m), lambda i, j: g.close(r[i, j], sq(g, a0, i, b0, j, d)))
    g.unchanged('a kept', a, a0)
    g.unchanged('b kept', b, b0)


@unit('C16', ['num.distsq', 'rbf.core.squared_dists', 'rbf.core._np_distsq', 'rbf.core.euclidean_dists'], mode='bounded', n=150, why='scales far from 1')
def scales(g):
    """(squared) distances scale with the coordinates"""
    import numpy as np
    n, m, d = g.dim('n'), g.dim('m'), g.dim('d')
    a, b = g.reals('a', (n, d)), g.reals('b', (m, d))
    f = g.choose('scale', [2.0 ** -40, 2.0 ** -20, 2.0 ** 30])
    how = g.choose('how', ['num.distsq', 'rbf.core.squared_dists', 'rbf.core._np_distsq', 'rbf.core.euclidean_dists'])
    q = f if how.endswith('euclidean_dists') else f * f
    g.ensure('scaled', np.allclose(g.call(how, a * f, b * f) / q, g.call(how, a, b), rtol=1e-9, atol=1e-9))


@unit('C16', ['num.distsq', 'flib.f90: distsq (translated)'])
def distsq_rejects(g):
    n, m, d = g.dim('n'), g.dim('m'), g.dim('d')
    g.raises('dimensions differ', AssertionError, lambda: g.call('num.distsq', g.reals('a', (n, d)), g.reals('b', (m, d + 1))))


def fitted(g, n, d, kern):
    """an Rbf object with arbitrary centers, weights and width"""
    pts = g.reals('c', (n, d), samp=(-2, 2))
    f = g.call('rbf.core.Rbf', pts, g.reals('v', (n,)), rbf=kern, p=width(g), fit=False)
    f.w = g.reals('w', (n,), samp=(-3, 3))
    return f


@unit('C16', ['rbf.core.Rbf.predict', 'rbf.core.Rbf.__call__', 'rbf.core.Rbf.get_distsq', 'rbf.core.Rbf._rectify_points_shape', 'rbf.core.rbf_gauss', 'rbf.core.rbf_multi', 'rbf.core.rbf_inv_multi'],
      fork={'rbf': 3})
def predict(g):
    """f(x) = sum_j w_j phi(|x - c_j|^2; p) for any number of centers, points and dimensions"""
    kern = g.choose('rbf', KERN)
    n, d, m = g.dim('n'), g.dim('d'), g.dim('m')
    f = fitted(g, n, d, kern)
    w0, c0 = g.snap(f.w), g.snap(f.points)
    want = lambda x, i: g.sum(lambda j: el(g, w0, j) * phi(g, kern, sq(g, x, i, c0, j, d), f.p), n)
    if g.flag('single point'):
        x = g.reals('x', (d,), samp=(-2, 2))
        r = f(x) if g.flag('call') else f.predict(x)
        g.shape('scalar', r, ())
        g.eq('prediction', r, want(x[None, :], 0))
    else:
        x = g.reals('x', (m, d), samp=(-2, 2))
        x0 = g.snap(x)
        r = f(x) if g.flag('call') else f.predict(x)
        g.shape('shape', r, (m,))
        g.forall('prediction', (m,), lambda i: g.close(r[i], want(x0, i)))
        g.unchanged('points kept', x, x0)
    g.unchanged('weights kept', f.w, w0)
    g.unchanged('centers kept', f.points, c0)


@unit('C16', ['rbf.core.Rbf.deriv', 'rbf.core.Rbf.__call__'], fork={'rbf': 3, 'd': 3})
def gradient(g):
    """der=1 is the exact gradient of the sum (1, 2, 3 dimensions; any number of centers and points)"""
    kern = g.choose('rbf', KERN)
    d = g.choose('d', [1, 2, 3])
    n, m = g.dim('n'), g.dim('m')
    f = fitted(g, n, d, kern)
    w0, c0 = g.snap(f.w), g.snap(f.points)

    def fx(xs):
        def term(j):
            r = 0
            for k in range(d):
                r = r + (xs[k] - el(g, c0, j, k)) * (xs[k] - el(g, c0, j, k))
            return el(g, w0, j) * phi(g, kern, r, f.p)
        return g.sum(term, n)

    def grad(x, i, k):
        xs = [el(g, x, i, q) for q in range(d)]
        return g.deriv(lambda u: fx([u if q == k else xs[q] for q in range(d)]), xs[k], **({} if g.sym else {'h': .05}))
    tol = {} if g.sym else {'rtol': 1e-6, 'atol': 1e-6}
    if g.flag('single point'):
        x = g.reals('x', (d,), samp=(-2, 2))
        r = f(x, der=1)
        g.shape('shape', r, (d,))
        for k in range(d):
            g.ensure('gradient', g.close(r[k], grad(x[None, :], 0, k), **tol))
    else:
        x = g.reals('x', (m, d), samp=(-2, 2))
        x0 = g.snap(x)
        r = f(x, der=1)
        g.shape('shape', r, (m, d))
        for k in range(d):
            g.forall('gradient', (m,), lambda i: g.close(r[i, k], grad(x0, i, k), **tol))
        g.unchanged('points kept', x, x0)
    g.raises('second derivative', Exception, lambda: f(x, der=2))


@unit('C16', ['rbf.core.Rbf.fit', 'rbf.core.Rbf.__init__', 'rbf.core.Rbf._solve', 'rbf.core.Rbf.get_params'], fork={'rbf': 3, 'r': 4},
      assume=['scipy.linalg.solve(A, b) returns the solution of A x = b; scipy.linalg.lstsq(A, b)[0] the least-squares solution'])
def fit_system(g):
    """the system handed to the solver is (G + r I) w = values, least squares for r=None; its solution is w"""
    kern = g.choose('rbf', KERN)
    r = g.choose('r', ['default', 0, None, 'any'])
    n, d = g.dim('n'), g.dim('d')
    c, v = g.reals('c', (n, d), samp=(-2, 2)), g.reals('v', (n,))
    c0, v0 = g.snap(c), g.snap(v)
    kw = {'rbf': kern}
    if kern == 'gauss' and g.flag('default rbf'):
        kw.pop('rbf')
    mean = g.flag('mean p')
    p = None if mean else width(g)
    if not mean:
        kw['p'] = p
    elif g.flag('explicit mean'):
        kw['p'] = 'mean'
    if r == 'any':
        r = g.real('r', samp=(.01, 2))
        g.require(g.lnot(r == 0))
    if not (isinstance(r, str) and r == 'default'):
        kw['r'] = r
    else:
        r = 0
    seen = []
    M = g.mod('rbf.core')
    sol = g.reals('sol', (n,))
    real = M.linalg

    class La:
        def solve(A, b, **k):
            seen.append(('solve', A, b, k))
            return sol

        def lstsq(A, b, **k):
            seen.append(('lstsq', A, b, k))
            return sol, None, None, None
    M.linalg = La
    try:
        f = M.Rbf(c, v, **kw)
    finally:
        M.linalg = real
    g.ensure('one solve', len(seen) == 1 and seen[0][0] == ('lstsq' if r is None else 'solve'))
    A, b = seen[0][1:3]
    g.ensure('method', seen[0][3] in ({}, {'assume_a': 'sym'}))
    g.shape('matrix', A, (n, n))
    if mean:
        g.eq('p: mean distance', f.p * n * n, g.sum(lambda i: g.sum(lambda j: g.sqrt(sq(g, c0, i, c0, j, d)), n), n))
        p = f.p
        if g.sym:
            g.require(g.lnot(p == 0))
        elif n == 1:
            return
    else:
        g.eq('p', f.p, p)
    if r is None:
        g.forall('matrix', (n, n), lambda i, j: g.close(A[i, j], phi(g, kern, sq(g, c0, i, c0, j, d), p)))
    else:
        g.forall('matrix', (n, n), lambda i, j: g.close(A[i, j], phi(g, kern, sq(g, c0, i, c0, j, d), p) + g.ite(i == j, r, 0)))
    g.eq('right hand side', b, v0)
    g.eq('weights', f.w, sol)
    g.unchanged('points kept', c, c0)
    g.unchanged('values kept', v, v0)
    q = f.get_params()
    g.ensure('params', len(q) == 2 and q[0] is f.p and q[1] is f.r)


@unit('C16', ['rbf.core.Rbf.fit', 'rbf.core.Rbf.predict', 'rbf.core.Rbf.deriv', 'rbf.core.Rbf.fit_error'], mode='bounded', n=60,
      why='LAPACK solvers: conditioning is outside real-arithmetic contracts')
def interpolation(g):
    """end to end with the real solver: (G + r I) w = values, interpolation for r=0, least squares for r=None, zero values"""
    import numpy as np
    kern = g.choose('rbf', KERN)
    n, d = g.int('n', 1, samp=(1, 12)), g.choose('d', [1, 2, 3])
    c = g.reals('c', (n, d), samp=(-2, 2))
    if n > 1:
        D = np.sqrt(((c[:, None] - c[None]) ** 2).sum(-1)) + np.eye(n) * 9
        g.require(D.min() > .15)
    v = g.reals('v', (n,)) * (0 if g.flag('zero') else 1)
    r = g.choose('r', [0, None, .1, 1e-3])
    p = g.choose('p', ['mean', 'scipy', .4, .7])
    if n == 1 and isinstance(p, str):
        p = .5
    f = g.call('rbf.core.Rbf', c, v, rbf=kern, r=r, p=p)
    G = np.array([[phi(g, kern, ((c[i] - c[j]) ** 2).sum(), f.p) for j in range(n)] for i in range(n)])
    cond = np.linalg.cond(G + np.eye(n) * (r or 0))
    g.require(cond < 1e8)
    if r is None:
        g.eq('least squares', G.T @ G @ f.w, G.T @ v, rtol=1e-6, atol=1e-6)
    else:
        g.eq('system', (G + r * np.eye(n)) @ f.w, v, rtol=1e-6, atol=1e-7)
    if not r:
        g.eq('interpolates', f(c), v, rtol=1e-6, atol=1e-6)
    res = v - G @ f.w
    if v.any() or True:
        g.eq('fit_error', f.fit_error(c, v), (res ** 2).mean(), atol=1e-9)
    x = g.reals('x', (3, d), samp=(-2, 2))
    D = f(x, der=1)
    for i in range(3):
        for k in range(d):
            e = np.eye(d)[k]
            g.ensure('gradient', g.close(D[i, k], g.deriv(lambda u: f(x[i] + (u - x[i, k]) * e), x[i, k], h=.05), rtol=1e-5, atol=1e-5 * (1 + np.abs(f.w).max())))
