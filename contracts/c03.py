from vc.harness import unit
from .spec import *


@unit('C03', ['crys.pbc_wrap_coords'])
def pbc_wrap_coords(g):
    """selected directions: moved by an integer into [0,1); others untouched; input kept if copy"""
    nd = g.choose('ndim', [2, 3])
    ax = g.choose('xyz_axis', [-1] + list(range(nd)))
    copy = g.flag('copy')
    mask = g.choose('mask', [None, [True, False, True], [False, True, False], [True, True, False], [False, False, True], [False] * 3])
    a = ax if ax >= 0 else nd - 1
    dims = [g.dim('n%d' % k) for k in range(nd - 1)]
    shape = list(dims)
    shape.insert(a, 3)
    co = g.reals('coords', tuple(shape), samp=(-5, 5, 1000))
    c0 = g.snap(co)
    kw = {} if mask is None else {'mask': mask}
    r = g.call('crys.pbc_wrap_coords', co, copy=copy, xyz_axis=ax, **kw)
    g.shape('shape', r, tuple(shape))
    for k in range(3):
        at = lambda A: lambda ix: A[tuple(list(ix)[:a] + [k] + list(ix)[a:])]
        R, C = at(r), at(c0)
        if mask is None or mask[k]:
            g.forall('range %d' % k, tuple(dims), lambda *ix: g.land(R(ix) >= 0, R(ix) < 1))
            g.forall('integer shift %d' % k, tuple(dims), lambda *ix: g.isint(R(ix) - C(ix)))
        else:
            g.forall('untouched %d' % k, tuple(dims), lambda *ix: g.close(R(ix), C(ix)))
    if copy:
        g.unchanged('input unchanged', co, c0)
    else:
        g.eq('in place', co, r)


@unit('C03', ['crys.min_image_convention'])
def min_image(g):
    """each entry moved by an integer into [-0.5, 0.5)"""
    n, m = g.dim('n'), g.dim('m')
    copy = g.flag('copy')
    s = g.reals('sij', (n, m, 3), samp=(-4, 4, 1000))
    s0 = g.snap(s)
    r = g.call('crys.min_image_convention', s, copy=copy)
    g.shape('shape', r, (n, m, 3))
    g.forall('range', (n, m, 3), lambda i, j, k: g.land(r[i, j, k] >= -g.frac(1, 2), r[i, j, k] < g.frac(1, 2)))
    g.forall('integer shift', (n, m, 3), lambda i, j, k: g.isint(r[i, j, k] - s0[i, j, k]))
    if copy:
        g.unchanged('input unchanged', s, s0)
    else:
        g.eq('in place', s, r)


MASKS = [None, [True, False, True], [False, True, False], [True, True, False], [False, False, True], [False] * 3]


@unit('C03', ['crys.pbc_wrap', 'crys.pbc_wrap_coords'], fork={'traj': 2})
def pbc_wrap(g):
    """Structure / Trajectory: fractional part wrapped, Cartesian consistent with the cell, nothing else changes"""
    traj = g.choose('traj', [False, True])
    copy = g.flag('copy')
    mask = g.choose('mask', MASKS)
    n = g.dim('n')
    lead = (g.dim('nt'),) if traj else ()
    cf = g.reals('coords_frac', lead + (n, 3), samp=(-5, 5, 1000))
    cell = g.reals('cell', lead + (3, 3), samp=(-4, 4))
    c0, m0 = g.snap(cf), g.snap(cell)
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', coords_frac=cf, cell=cell)
    kw = {} if mask is None else {'mask': mask}
    if not (copy and g.flag('default copy')):
        kw['copy'] = copy
    x0 = g.snap(ob.coords)
    r = g.call('crys.pbc_wrap', ob, **kw)
    if not copy:
        g.ensure('in place', r is ob)
    g.shape('shape', r.coords_frac, lead + (n, 3))
    g.shape('cartesian shape', r.coords, lead + (n, 3))
    at = lambda A: (lambda ix, *k: A[tuple(ix) + k])
    R, C, X, M = at(r.coords_frac), at(c0), at(r.coords), at(m0)
    dims = lead + (n,)
    for k in range(3):
        if mask is None or mask[k]:
            g.forall('range %d' % k, dims, lambda *ix: g.land(R(ix, k) >= 0, R(ix, k) < 1))
            g.forall('integer shift %d' % k, dims, lambda *ix: g.isint(R(ix, k) - C(ix, k)))
        else:
            g.forall('untouched %d' % k, dims, lambda *ix: g.close(R(ix, k), C(ix, k)))
        g.forall('cartesian %d' % k, dims, lambda *ix: g.close(X(ix, k), g.sum(lambda a: R(ix, a) * M(ix[:-1], a, k), 3)))
    g.unchanged('cell kept', r.cell, m0)
    if copy:
        g.unchanged('source fractional kept', ob.coords_frac, c0)
        g.unchanged('source cartesian kept', ob.coords, x0)
        g.unchanged('input kept', cf, c0)


@unit('C03', ['crys.pbc_wrap'], mode='bounded', why='symbol lists and every other attribute', n=150)
def pbc_wrap_attrs(g):
    """all other attributes of the object survive the wrapping; objects given by Cartesian coordinates too"""
    traj = g.flag('traj')
    n, nt = g.int('n', 1, 5), g.int('nt', 3, 5)
    lead = (nt,) if traj else ()
    cell = g.reals('cell', (3, 3), samp=(-4, 4))
    invertible(g, cell)
    co = g.reals('coords', lead + (n, 3), samp=(-20, 20))
    sy = g.labels('symbols', n)
    kw = dict(forces=g.reals('forces', lead + (n, 3)), stress=g.reals('stress', lead + (3, 3)),
              etot=g.reals('etot', (nt,)) if traj else g.real('etot1'))
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', coords=co, cell=cell, symbols=sy, **kw)
    before = {k: (v.copy() if hasattr(v, 'copy') else v) for k, v in ((a, getattr(ob, a)) for a in ob.attr_lst)}
    r = g.call('crys.pbc_wrap', ob)
    for a in ob.attr_lst:
        v, w = before[a], getattr(r, a)
        g.ensure('source %s' % a, same(v, getattr(ob, a)))
        if a not in ('coords', 'coords_frac'):
            g.ensure('result %s' % a, same(v, w))
    d = r.coords_frac - before['coords_frac']
    g.ensure('wrapped', bool((r.coords_frac >= 0).all() and (r.coords_frac < 1).all()))
    g.ensure('integer', bool((abs(d - d.round()) < 1e-9).all()))
    import numpy as np
    g.ensure('cartesian', np.allclose(r.coords, r.coords_frac @ r.cell, atol=1e-9))


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True)
    return a == b
