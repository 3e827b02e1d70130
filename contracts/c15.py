from vc.harness import unit
from .spec import *


def el(g, a, *i):
    return a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]


def powers(nd, deg):
    """{0..deg}^nd, last entry fastest"""
    r = [()]
    for _ in range(nd):
        r = [t + (k,) for t in r for k in range(deg + 1)]
    return r


def ipow(x, k):
    r = 1
    for _ in range(k):
        r = r * x
    return r


def mono(g, x, pw):
    r = 1
    for v, k in zip(x, pw):
        r = r * ipow(v, k)
    return r


class Solver:
    """stands in for numpy.linalg.lstsq inside pwtools.num: records the system, returns the given solution"""

    def __init__(self, g, sol):
        self.M, self.sol, self.seen = g.mod('num'), sol, []

    def __enter__(self):
        me, real = self, self.M.np
        self.real = real

        class La:
            def __getattr__(s, n):
                return getattr(real.linalg, n)

            def lstsq(s, A, b, *a, **k):
                me.seen.append((A, b))
                return me.sol, None, None, None

        class Np:
            linalg = La()

            def __getattr__(s, n):
                return getattr(real, n)
        self.M.np = Np()
        return self

    def __exit__(self, *a):
        self.M.np = self.real


@unit('C15', ['num.poly_powers', 'num.poly_str'], fork={'ndim': 4})
def poly_powers(g):
    """every exponent tuple of {0..deg}^ndim exactly once (ndim 1..4, deg 0..4)"""
    nd, deg = g.choose('ndim', [1, 2, 3, 4]), g.choose('deg', [0, 1, 2, 3, 4])
    p = g.call('num.poly_powers', nd, deg)
    want = powers(nd, deg)
    g.ensure('shape', tuple(int(k) for k in p.shape) == (len(want), nd))
    rows = [tuple(int(p[i, k]) for k in range(nd)) for i in range(len(want))]
    g.ensure('each once', sorted(rows) == sorted(want))
    g.ensure('last fastest', rows == want)


SHAPES = [(1, 0), (1, 1), (1, 3), (1, 5), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2)]


@unit('C15', ['num.vander', 'num.poly_powers'], fork={'nd_deg': len(SHAPES)}, n=200)
def vander(g):
    """V[i, k] = prod_j x_ij ^ p_kj for every number of points"""
    nd, deg = g.choose('nd_deg', SHAPES)
    n = g.dim('n')
    x = g.reals('x', (n, nd), samp=(-2, 2))
    x0 = g.snap(x)
    v = g.call('num.vander', x, deg)
    pw = powers(nd, deg)
    g.shape('shape', v, (n, len(pw)))
    for k, p in enumerate(pw):
        g.forall('column %d' % k, (n,), lambda i: g.close(el(g, v, i, k), mono(g, [el(g, x0, i, j) for j in range(nd)], p)))
    g.unchanged('points kept', x, x0)


def sel(l, j):
    return l[int(j)]


def fitdata(g, nd, n):
    x = g.reals('x', (n, nd), samp=(-3, 5))
    y = g.reals('y', (n,), samp=(-4, 4))
    return x, y


def arbitrary_fit(g, nd, deg, scaled):
    """what polyfit returns, for arbitrary coefficients and scales"""
    nc = (deg + 1) ** nd
    c = g.reals('c', (nc,), samp=(-2, 2))
    sc = [g.real('s%d' % k, samp=(.3, 4)) for k in range(nd)] if scaled else [1.0] * nd
    mn = [g.real('m%d' % k, samp=(-2, 2)) for k in range(nd)] if scaled else [0.0] * nd
    vs, vm = (g.real('vs', samp=(.3, 4)), g.real('vm', samp=(-2, 2))) if scaled else (1.0, 0.0)
    if scaled:
        for s in sc + [vs]:
            g.require(g.lnot(s == 0))
    return {'coeffs': c, 'deg': deg, 'ndim': nd, 'pscale': g.array((1, nd), lambda i, j: sel(sc, j)), 'vscale': vs, 'pmin': g.array((1, nd), lambda i, j: sel(mn, j)), 'vmin': vm}, sc, mn, vs, vm


def evalpoly(g, fit, xs, sc, mn, vs, vm):
    nd, deg = fit['ndim'], fit['deg']
    u = [(x - m) / s for x, m, s in zip(xs, mn, sc)]
    r = 0
    for k, p in enumerate(powers(nd, deg)):
        r = r + el(g, fit['coeffs'], k) * mono(g, u, p)
    return r * vs + vm


@unit('C15', ['num.polyval', 'num.vander'], fork={'nd_deg': len(SHAPES), 'scaled': 2})
def polyval(g):
    """evaluation is the coefficient-weighted sum of monomials of the (rescaled) coordinates"""
    nd, deg = g.choose('nd_deg', SHAPES)
    fit, sc, mn, vs, vm = arbitrary_fit(g, nd, deg, g.choose('scaled', [False, True]))
    n = g.dim('n')
    x = g.reals('x', (n, nd), samp=(-3, 3))
    x0 = g.snap(x)
    r = g.call('num.polyval', fit, x)
    g.shape('shape', r, (n,))
    g.forall('value', (n,), lambda i: g.close(el(g, r, i), evalpoly(g, fit, [el(g, x0, i, j) for j in range(nd)], sc, mn, vs, vm)))
    g.unchanged('points kept', x, x0)


@unit('C15', ['num.polyval'], fork={'deg': 6, 'der': 3}, assume=['numpy.polyder, numpy.polyval: their definitions'])
def derivative(g):
    """1d: der=k is the exact k-th derivative of the evaluated polynomial, rescaling included"""
    deg = g.choose('deg', [0, 1, 2, 3, 4, 5])
    der = g.choose('der', [1, 2, 3])
    fit, sc, mn, vs, vm = arbitrary_fit(g, 1, deg, g.flag('scaled'))
    n = g.dim('n')
    x = g.reals('x', (n, 1), samp=(-3, 3))
    x0 = g.snap(x)
    r = g.call('num.polyval', fit, x, der=der)
    g.shape('shape', r, (n,))

    def want(i):
        # sum over k of c_k * k!/(k-der)! u^(k-der) / scale^der
        u = (el(g, x0, i, 0) - mn[0]) / sc[0]
        t = 0
        for k in range(der, deg + 1):
            f = 1
            for q in range(der):
                f *= k - q
            t = t + el(g, fit['coeffs'], k) * f * ipow(u, k - der)
        return t * vs / ipow(sc[0], der)
    g.forall('derivative formula', (n,), lambda i: g.close(el(g, r, i), want(i)))
    if der < 3:
        g.forall('derivative of the value', (n,), lambda i: g.close(el(g, r, i), g.deriv(lambda t: evalpoly(g, fit, [t], sc, mn, vs, vm), el(g, x0, i, 0), n=der), **({} if g.sym else {'rtol': 1e-4, 'atol': 1e-4})))
    g.unchanged('points kept', x, x0)


@unit('C15', ['num.polyval'])
def polyval_rejects(g):
    fit, *_ = arbitrary_fit(g, 2, 1, True)
    n = g.dim('n')
    g.raises('derivative in 2d', AssertionError, lambda: g.call('num.polyval', fit, g.reals('x', (n, 2)), der=1))
    g.raises('wrong dimension', AssertionError, lambda: g.call('num.polyval', fit, g.reals('z', (n, 3))))
    g.raises('1d points', AssertionError, lambda: g.call('num.polyval', fit, g.reals('t', (n,))))


@unit('C15', ['num.polyfit', 'num.vander'], fork={'nd_deg': len(SHAPES), 'scale': 3},
      assume=['numpy.linalg.lstsq(A, b)[0]: least-squares solution of A x = b (not used by the proof: the system is what is specified)'])
def fit_system(g):
    """the least-squares system is V c = values of the rescaled data, and the stored fit evaluates to V c, unscaled"""
    nd, deg = g.choose('nd_deg', SHAPES)
    how = g.choose('scale', ['default', True, False])
    sv = g.flag('scale_vand')
    n = g.dim('n')
    x, y = fitdata(g, nd, n)
    x0, y0 = g.snap(x), g.snap(y)
    pw = powers(nd, deg)
    sol = g.reals('sol', (len(pw),))
    kw = {} if how == 'default' else {'scale': how}
    if sv:
        kw['scale_vand'] = True
    with Solver(g, sol) as s:
        fit = g.call('num.polyfit', x, y, deg, **kw)
    g.ensure('one solve', len(s.seen) == 1)
    A, b = s.seen[0]
    g.shape('matrix', A, (n, len(pw)))
    g.shape('right hand side', b, (n,))
    ps, pm, vs, vm = fit['pscale'], fit['pmin'], fit['vscale'], fit['vmin']
    for k in range(nd):
        g.ensure('scale not zero', g.lnot(ps[0, k] == 0))
        if how is False:
            g.ensure('no rescaling', g.land(ps[0, k] == 1, pm[0, k] == 0, vs == 1, vm == 0))
    g.ensure('value scale not zero', g.lnot(vs == 0))
    g.ensure('degree', fit['deg'] == deg and fit['ndim'] == nd)
    u = lambda i: [(el(g, x0, i, j) - pm[0, j]) / ps[0, j] for j in range(nd)]
    if not sv:
        for k, p in enumerate(pw):
            g.forall('matrix %d' % k, (n,), lambda i: g.close(el(g, A, i, k), mono(g, u(i), p)))
        g.eq('coefficients', fit['coeffs'], sol)
    else:
        # columns divided by a norm, coefficients by the same norm: A sol = V coeffs
        g.forall('column scaling', (n,), lambda i: g.close(
            sumk(el(g, A, i, k) * el(g, sol, k) for k in range(len(pw))),
            sumk(mono(g, u(i), p) * el(g, fit['coeffs'], k) for k, p in enumerate(pw))))
    g.forall('values', (n,), lambda i: g.close(el(g, b, i) * vs + vm, el(g, y0, i)))
    g.unchanged('points kept', x, x0)
    g.unchanged('values kept', y, y0)


def sumk(it):
    r = 0
    for t in it:
        r = r + t
    return r


@unit('C15', ['num.PolyFit', 'num.polyfit', 'num.polyval', 'num.vander'], mode='bounded', n=150, why='numpy.linalg.lstsq (LAPACK)')
def reproduces(g):
    """values of a polynomial of the fitted degree (also constant ones) are reproduced everywhere, with or without scaling"""
    import numpy as np
    nd, deg = g.choose('nd_deg', SHAPES)
    scale, sv = g.flag('scale'), g.flag('scale_vand')
    pw = powers(nd, deg)
    axes = [np.linspace(0, 1, deg + 2) + g.reals('jit%d' % k, (deg + 2,), samp=(-.05, .05)) for k in range(nd)]
    grid = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, nd)
    off, wid = g.reals('off', (nd,), samp=(-2, 2)), g.reals('wid', (nd,), samp=(.5, 3))
    pts = off + wid * grid
    zero = g.choose('poly', ['full', 'constant', 'zero', 'low'])
    c = g.reals('c', (len(pw),), samp=(-2, 2))
    if zero != 'full':
        for k, p in enumerate(pw):
            if zero == 'zero' or sum(p) > (0 if zero == 'constant' else 1):
                c[k] = 0
    f = lambda X: sum(ck * np.prod(X ** np.array(p), axis=1) for ck, p in zip(c, pw))
    vals = f(pts)
    p0, v0 = pts.copy(), vals.copy()
    P = g.call('num.PolyFit', pts, vals, deg, scale=scale, scale_vand=sv)
    big = np.abs(vals).max() + 1
    new = off + wid * g.reals('new', (7, nd), samp=(0, 1))
    g.ensure('data', np.allclose(P(pts), vals, atol=1e-6 * big))
    g.ensure('elsewhere', np.allclose(P(new), f(new), atol=1e-5 * big))
    g.ensure('one point', np.ndim(P(new[0])) == 0 and np.allclose(P(new[0]), f(new[:1])[0], atol=1e-5 * big))
    g.unchanged('points kept', pts, p0)
    g.unchanged('values kept', vals, v0)
    if nd == 1:
        d = sum(ck * p[0] * new[:, 0] ** max(p[0] - 1, 0) for ck, p in zip(c, pw))
        g.ensure('derivative', np.allclose(P(new, der=1), d, atol=1e-4 * big * 10))


@unit('C15', ['num.PolyFit1D', 'num.Fit1D.get_min', 'num.Fit1D.get_root', 'num.Fit1D.get_max', 'num.Fit1D._findroot'], mode='bounded', n=150,
      why='lstsq and scipy root finders')
def fit1d(g):
    """PolyFit1D: 1d, (n,1) and scalar points alike; extrema and roots of the polynomial"""
    import numpy as np
    x = np.sort(g.reals('x', (9,), samp=(-.2, .2)) + np.linspace(-4, 4, 9))
    a, c, s = g.real('a', samp=(.3, 2)), g.real('c', samp=(-2, 2)), g.choose('sign', [1, -1])
    off = g.real('off', samp=(-.8, .8))
    scale = g.flag('scale')
    y = s * (a * (x - off) ** 2 - 1 + 0 * c)
    col = g.flag('column')
    f = g.call('num.PolyFit1D', x[:, None] if col else x, y, 2, scale=scale)
    ok = lambda u, v, t=1e-6: np.shape(u) == np.shape(v) and np.allclose(u, v, atol=t)
    q = lambda t: s * (a * (t - off) ** 2 - 1)
    new = g.reals('new', (5,), samp=(-4, 4))
    g.ensure('array', ok(f(new), q(new)))
    g.ensure('column points', ok(f(new[:, None]), q(new)))
    g.ensure('scalar', ok(f(new[0]), q(new[0])))
    g.ensure('derivative', ok(f(new, der=1), s * 2 * a * (new - off), 1e-5))
    g.ensure('scalar derivative', ok(f(new[0], der=1), s * 2 * a * (new[0] - off), 1e-5))
    ext = f.get_min() if s == 1 else f.get_max()
    g.ensure('extremum', abs(ext - off) < 1e-5)
    ext = f.get_min(x0=off + .3) if s == 1 else f.get_max(xab=[off - 1, off + 2])
    g.ensure('extremum from start', abs(ext - off) < 1e-4)
    root = off + 1 / np.sqrt(a)
    if root < 3.5:
        g.ensure('root', abs(f.get_root(xab=[off, 4.5]) - root) < 1e-5 if root < x[-1] and root < 4.5 else True)
    g.ensure('monotone', not f.is_mono() if off - 3 > x[0] and off + 3 < x[-1] else True)


@unit('C15', ['num.PolyFit.get_min'], mode='bounded', n=25, why='scipy.optimize.fmin')
def minimum_nd(g):
    import numpy as np
    x0, y0 = g.real('x0', samp=(-.5, .5)), g.real('y0', samp=(-.5, .5))
    ax = np.linspace(-2, 2, 5)
    pts = np.array([[a, b] for a in ax for b in ax])
    v = (pts[:, 0] - x0) ** 2 + 2 * (pts[:, 1] - y0) ** 2 + .5 * (pts[:, 0] - x0) * (pts[:, 1] - y0)
    f = g.call('num.PolyFit', pts, v, 2)
    m = f.get_min()
    g.ensure('minimum', np.shape(m) == (2,) and np.allclose(m, [x0, y0], atol=1e-3))


@unit('C15', ['num.DataND.a2_to_an'], mode='bounded', n=300, why='np.unique, object of arbitrary rank')
def datand(g):
    """table with a last value column over a grid of ordered axes: an[i,j,..] is the value of that grid point"""
    import numpy as np
    nd = g.choose('nd', [1, 2, 3, 4])
    dims = [g.int('n%d' % k, 1, samp=(1, 4)) for k in range(nd)]
    axes = [np.sort(g.reals('ax%d' % k, (dims[k],), samp=(-5, 5))) for k in range(nd)]
    for a in axes:
        g.require(len(a) == len(np.unique(a)))
    vals = g.reals('v', tuple(dims))
    grid = np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, nd)
    a2 = np.column_stack([grid, vals.reshape(-1)])
    b2 = a2.copy()
    d = g.call('num.DataND', a2=a2)
    g.ensure('shape', d.an.shape == tuple(dims))
    g.ensure('values', bool((d.an == vals).all()))
    g.ensure('axes', len(d.axes) == nd and all(np.array_equal(u, v) for u, v in zip(d.axes, axes)))
    g.ensure('table kept', np.array_equal(a2, b2))
