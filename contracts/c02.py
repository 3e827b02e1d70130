from vc.harness import unit
from .spec import *

B = (-2, 2)


def basis(g, name):
    c = g.reals(name, (3, 3), samp=B)
    invertible(g, c)
    return c


def eqn(g, name, dims, X, new, C, old):
    """X[.., a] NEW[a, k] == C[.., a] OLD[a, k] for all points"""
    for k in range(3):
        g.forall('%s %d' % (name, k), dims, lambda *ix: g.close(
            g.sum(lambda a: X(ix, a) * new(ix, a, k), 3), g.sum(lambda a: C(ix, a) * old(ix, a, k), 3)))


@unit('C02', ['crys.coord_trans', 'crys._trans'])
def coord_trans(g):
    """defining equation for rank 1..4, every axis; copy=True leaves the input alone, copy=False returns it"""
    nd = g.choose('ndim', [1, 2, 3, 4])
    axis = g.choose('axis', list(range(-nd, nd)))
    copy = g.flag('copy')
    ax = axis % nd
    dims = [g.dim('n%d' % k) for k in range(nd - 1)]
    shape = list(dims)
    shape.insert(ax, 3)
    co = g.reals('coords', tuple(shape))
    old, new = basis(g, 'old'), basis(g, 'new')
    c0, o0, n0 = g.snap(co), g.snap(old), g.snap(new)
    r = g.call('crys.coord_trans', co, old=old, new=new, copy=copy, axis=axis)
    g.shape('shape', r, tuple(shape))
    at = lambda A: lambda ix, a: A[tuple(list(ix)[:ax] + [a] + list(ix)[ax:])]
    mat = lambda M: lambda ix, a, k: M[a, k]
    eqn(g, 'cartesian point', tuple(dims), at(r), mat(n0), at(c0), mat(o0))
    if copy:
        g.unchanged('coords unchanged', co, c0)
    else:
        g.eq('in place', co, r)
    g.unchanged('old unchanged', old, o0)
    g.unchanged('new unchanged', new, n0)


@unit('C02', ['crys.coord_trans'])
def coord_trans_identity(g):
    n = g.dim('n')
    co = g.reals('coords', (n, 3))
    old = basis(g, 'old')
    r = g.call('crys.coord_trans', co, old=old, new=old)
    g.eq('identity', r, co)


@unit('C02', ['crys.coord_trans'])
def coord_trans_roundtrip(g):
    n = g.dim('n')
    co = g.reals('coords', (n, 3))
    old, new = basis(g, 'old'), basis(g, 'new')
    r = g.call('crys.coord_trans', g.call('crys.coord_trans', co, old=old, new=new), old=new, new=old)
    g.eq('restored', r, co)


@unit('C02', ['crys.coord_trans3d', 'crys.coord_trans'], fork={'axes': 5, 'copy': 2})
def coord_trans3d(g):
    """per-step bases, every time axis (the step axis is moved to the front unless it is 0 -> same place)"""
    axis, timeaxis = g.choose('axes', [(-1, 0), (1, 0), (0, 0), (-1, 1), (-1, 2)])
    nt, n = g.dim('nt'), g.dim('n')
    copy = g.flag('copy')
    # shape of one step
    ax = axis if axis >= 0 else 1
    step = [n, 3] if ax == 1 else [3, n]
    shape = list(step)
    shape.insert(timeaxis, nt)
    bshape = [3, 3]
    bshape.insert(timeaxis, nt)
    co = g.reals('coords', tuple(shape))
    old, new = g.reals('old', tuple(bshape), samp=B), g.reals('new', tuple(bshape), samp=B)
    put = lambda ix, t: tuple(list(ix)[:timeaxis] + [t] + list(ix)[timeaxis:])
    for M in (old, new):
        g.require_all((nt,), lambda t: g.abs(det3(lambda i, j: M[put((i, j), t)])) > g.frac(1, 10))
    c0 = g.snap(co)
    r = g.call('crys.coord_trans3d', co, old=old, new=new, axis=axis, timeaxis=timeaxis, copy=copy)
    g.shape('shape', r, tuple(shape))
    pt = lambda A: lambda ix, a: A[put([ix[1], a] if ax == 1 else [a, ix[1]], ix[0])]
    mat = lambda M: lambda ix, a, k: M[put((a, k), ix[0])]
    eqn(g, 'cartesian point', (nt, n), pt(r), mat(new), pt(c0), mat(old))
    if copy:
        g.unchanged('coords unchanged', co, c0)


@unit('C02', ['crys.coord_trans'])
def coord_trans_rejects(g):
    """a basis pair of different shape or not square is an error, not a result"""
    co = g.reals('coords', (2, 3))
    bad = g.choose('bad', ['shape', 'square', 'rank'])
    old = g.reals('old', (3, 3))
    new = {'shape': g.reals('new', (2, 2)), 'square': g.reals('new', (3, 2)), 'rank': g.reals('new', (3, 3, 3))}[bad]
    if bad == 'square':
        old = new
    g.raises('error', Exception, lambda: g.call('crys.coord_trans', co, old=old, new=new))


@unit('C02', ['flib.f90: frac2cart, cart2frac (translated)'], n=60)
def flib_single(g):
    """compiled routines: coords = frac . cell, and the inverse solves exactly that"""
    n = g.dim('n')
    co = g.reals('coords', (n, 3))
    cell = basis(g, 'cell')
    c0, m0 = g.snap(co), g.snap(cell)
    r = g.call('_flib.frac2cart', co, cell)
    g.shape('shape', r, (n, 3))
    for k in range(3):
        g.forall('frac2cart %d' % k, (n,), lambda i: g.close(r[i, k], g.sum(lambda a: co[i, a] * cell[a, k], 3)))
    f = g.call('_flib.cart2frac', co, cell)
    g.shape('inverse shape', f, (n, 3))
    for k in range(3):
        g.forall('cart2frac %d' % k, (n,), lambda i: g.close(g.sum(lambda a: f[i, a] * cell[a, k], 3), co[i, k]))
    g.unchanged('input', co, c0)
    g.unchanged('cell', cell, m0)


@unit('C02', ['flib.f90: frac2cart_traj, cart2frac_traj (translated)'], n=60)
def flib_traj(g):
    nt, n = g.dim('nt'), g.dim('n')
    co = g.reals('coords', (nt, n, 3))
    cell = g.reals('cell', (nt, 3, 3), samp=B)
    g.require_all((nt,), lambda t: g.abs(det3(lambda i, j: cell[t, i, j])) > g.frac(1, 10))
    c0, m0 = g.snap(co), g.snap(cell)
    r = g.call('_flib.frac2cart_traj', co, cell)
    g.shape('shape', r, (nt, n, 3))
    for k in range(3):
        g.forall('frac2cart %d' % k, (nt, n), lambda t, i: g.close(r[t, i, k], g.sum(lambda a: co[t, i, a] * cell[t, a, k], 3)))
    f = g.call('_flib.cart2frac_traj', co, cell)
    g.shape('inverse shape', f, (nt, n, 3))
    for k in range(3):
        g.forall('cart2frac %d' % k, (nt, n), lambda t, i: g.close(g.sum(lambda a: f[t, i, a] * cell[t, a, k], 3), co[t, i, k]))
    g.unchanged('input', co, c0)
    g.unchanged('cell', cell, m0)


@unit('C02', ['crys.coord_trans', 'crys.coord_trans3d'], mode='bounded', n=200, why='array element types are below the model (all numbers are reals)')
def integers(g):
    """integer typed coordinates give the result of the same values as floats"""
    import numpy as np
    nt, n = g.int('nt', 1, 4), g.int('n', 1, 4)
    co = g.ints('coords', (nt, n, 3), samp=(-3, 4))
    old, new = g.ints('old', (nt, 3, 3), samp=(-3, 4)), g.ints('new', (nt, 3, 3), samp=(-3, 4))
    g.require((abs(np.linalg.det(old)) > .5).all() and (abs(np.linalg.det(new)) > .5).all())
    old, new = old * 1.0, new * 1.0  # integer bases: the installed scipy.linalg.inv may crash on them
    c0 = co.copy()
    for got, want in [(g.call('crys.coord_trans', co, old[0], new[0]), g.call('crys.coord_trans', co * 1.0, old[0] * 1.0, new[0] * 1.0)),
                      (g.call('crys.coord_trans3d', co, old, new), g.call('crys.coord_trans3d', co * 1.0, old * 1.0, new * 1.0))]:
        g.ensure('same as floats', got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9))
    x = np.einsum('tad,tde->tae', g.call('crys.coord_trans3d', co, old, new), new * 1.0)
    g.ensure('cartesian point', np.allclose(x, np.einsum('tad,tde->tae', co * 1.0, old * 1.0), rtol=1e-7, atol=1e-7))
    g.ensure('coords kept', np.array_equal(co, c0))
