from vc.harness import unit
from .spec import *
import numpy as np


@unit('C30', ['kpath.kpath', 'num.vlinspace'], n=200)
def kpath(g):
    """N points from each vertex (included) to the next (excluded), equally spaced, and the last vertex"""
    K = g.choose('K', [1, 2, 3, 4])
    M = g.choose('M', [3, 2])
    N = g.dim('N', 1, samp=(1, 7))
    v = g.reals('v', (K, M), samp=(-2, 2))
    v0 = g.snap(v)
    default = g.flag('default')
    if default:
        N = 10
    r = g.call('kpath.kpath', v) if default else g.call('kpath.kpath', v, N)
    g.shape('shape', r, (N * (K - 1) + 1, M))
    for s in range(K - 1):
        g.forall('segment %d' % s, (N, M), lambda j, m, s=s: g.close(r[s * N + j, m] * N, v0[s, m] * (N - j) + v0[s + 1, m] * j))
    for m in range(M):
        g.ensure('last vertex', g.same(r[N * (K - 1), m], v0[K - 1, m]))
    g.unchanged('vertices kept', v, v0)


@unit('C30', ['kpath.get_path_norm', 'kpath.SpecialPointsPath'], n=200)
def path_norm(g):
    """the first value is the norm of the first point, each step adds the distance of neighbouring points"""
    n = g.dim('n', 1)
    ks = g.reals('ks', (n, 3), samp=(-2, 2))
    k0 = g.snap(ks)
    if g.flag('special points'):
        fr = g.reals('fr', (n, 3))
        sp = g.call('kpath.SpecialPointsPath', ks=ks, ks_frac=fr, symbols=None)
        r = sp.path_norm
    else:
        r = g.call('kpath.get_path_norm', ks)
    g.shape('shape', r, (n,))
    E = lambda a, *i: a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]
    first = g.sqrt(sum(E(k0, 0, d) * E(k0, 0, d) for d in range(3)))
    D = lambda i: g.sqrt(sum((E(k0, i + 1, d) - E(k0, i, d)) * (E(k0, i + 1, d) - E(k0, i, d)) for d in range(3)))
    g.ensure('first', g.close(E(r, 0), first))
    g.forall('length so far', (n,), lambda i: g.close(E(r, i), first + g.sum(D, i)))
    g.unchanged('points kept', ks, k0)


@unit('C30', ['kpath.get_path_norm', 'kpath.SpecialPointsPath'], mode='bounded', n=200, why='chosen paths: straight, repeated points, through the origin')
def path_lines(g):
    """path length along straight paths which start at, cross or return to the origin, stand still or lie in a plane"""
    n = g.int('n', 1, samp=(1, 7))
    kind = g.choose('kind', ['line', 'from the origin', 'along an axis', 'plane', 'closed'])
    t = g.ints('t', (n,), -3, 3) * .25
    if kind in ['line', 'from the origin', 'closed']:
        d = g.reals('d', (3,), samp=(-2, 2))
        ks = np.array([[float(x) * y for y in d] for x in t])
        if kind == 'from the origin':
            ks[0] = 0
        if kind == 'closed':
            ks[-1] = ks[0]
    elif kind == 'along an axis':
        ks = np.zeros((n, 3))
        ks[:, g.int('axis', 0, 2)] = t
    else:
        ks = np.array(g.reals('ks', (n, 3), samp=(-2, 2)))
        ks[:, g.int('axis', 0, 2)] = 0
    k0 = ks.copy()
    r = g.call('kpath.SpecialPointsPath', ks=ks, ks_frac=ks.copy(), symbols=None).path_norm if g.flag('special points') else g.call('kpath.get_path_norm', ks)
    w = sum(x * x for x in k0[0]) ** .5
    g.shape('shape', r, (n,))
    for i in range(n):
        if i:
            w += sum((x - y) ** 2 for x, y in zip(k0[i], k0[i - 1])) ** .5
        g.ensure('length so far', abs(r[i] - w) < 1e-9)
    g.unchanged('points kept', ks, k0)


@unit('C30', ['crys.grid_in_cell'], n=400, fork={'fullout': 2, 'minpoints': 3}, assume=['the even counts (even=True): bounded'])
def grid_in_cell(g):
    """per axis the count nearest to length / spacing, made even on request, at least minpoints; spacings are length / count"""
    cell = g.reals('cell', (3, 3), samp=(-5, 5))
    for i in range(3):
        g.require(dot3(row(cell, i), row(cell, i)) > g.frac(1, 10))
    c0 = g.snap(cell)
    h = g.real('h', lo=g.frac(1, 100), samp=(.2, 6))
    even, full = (False if g.sym else g.flag('even')), g.flag('fullout')
    mp = g.choose('minpoints', [None, 0, 2])
    kw = {'h': h}
    if even:
        kw['even'] = True
    if full:
        kw['fullout'] = True
    if mp is not None:
        kw['minpoints'] = mp
    lo = 1 if mp is None else mp
    L = [length(g, row(c0, i)) for i in range(3)]
    if mp == 0:
        g.require(g.land(*[l > h * g.frac(51, 100) for l in L]))
    out = g.call('crys.grid_in_cell', cell, **kw)
    size = out[0] if full else out
    g.shape('three counts', size, (3,))
    for i in range(3):
        s = size[i]
        x = L[i] / h
        g.ensure('at least minpoints', s >= lo)
        near = lambda k: g.land(k - x <= g.frac(1, 2), x - k <= g.frac(1, 2))
        if even:
            q = s // 2
            g.ensure('nearest', g.lor(s == lo, g.land(s == 2 * q, g.lor(near(s), near(s - 1)))))
        else:
            g.ensure('nearest', g.lor(near(s), g.land(s == lo, x <= lo + g.frac(1, 2))))
        if full:
            g.ensure('spacing', g.close(out[1][i] * s, L[i]))
    g.unchanged('cell kept', cell, c0)


@unit('C30', ['crys.grid_in_cell', 'crys.kgrid', 'crys.recip_cell'], n=200)
def kgrid(g):
    """size given: the spacings; reciprocal grid = grid of the reciprocal cell"""
    cell = g.reals('cell', (3, 3), samp=(-5, 5))
    invertible(g, cell)
    sz = [g.int('s%d' % i, 1, samp=(1, 9)) for i in range(3)]
    L = [length(g, row(cell, i)) for i in range(3)]
    r = g.call('crys.grid_in_cell', cell, size=sz)
    g.shape('three spacings', r, (3,))
    for i in range(3):
        g.ensure('spacing', g.close(r[i] * sz[i], L[i]))
    rec = g.call('crys.kgrid', cell, size=sz)
    via = g.call('crys.grid_in_cell', g.call('crys.recip_cell', cell), size=sz)
    for i in range(3):
        g.ensure('grid of the reciprocal cell', g.close(rec[i], via[i]))
    if not g.sym:
        V, v = det(cell), [row(cell, i) for i in range(3)]
        cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        for i in range(3):
            g.ensure('reciprocal spacing', g.close(rec[i] * sz[i] * g.abs(V), 2 * g.pi * length(g, cr(v[(i + 1) % 3], v[(i + 2) % 3]))))
    g.raises('both given', AssertionError, lambda: g.call('crys.grid_in_cell', cell, h=1, size=sz))


@unit('C30', ['crys.kgrid', 'crys.grid_in_cell'], mode='bounded', n=300, why='rounding at half points')
def kgrid_bounded(g):
    """counts of the reciprocal grid, also with the old keyword"""
    import numpy as np
    import warnings
    cell = g.reals('cell', (3, 3), samp=(-5, 5))
    g.require(abs(np.linalg.det(cell)) > 2)
    h = g.real('h', samp=(.05, 1))
    x = 2 * np.pi * np.linalg.norm(np.linalg.inv(cell).T, axis=1) / h
    g.require((abs(x - np.floor(x) - .5) > 1e-6).all())
    even = g.flag('even')
    want = np.floor(x + .5).astype(int)
    if even:
        want += want % 2
    mp = g.choose('minpoints', [None, 2, 4])
    want = np.maximum(want, 1 if mp is None else mp)
    kw = {} if mp is None else {'minpoints': mp}
    if even:
        kw['even'] = True
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = g.call('crys.kgrid', cell, **{'dk' if g.flag('old name') else 'h': h}, **kw)
    g.ensure('counts', r.dtype.kind == 'i' and list(r) == list(want))
