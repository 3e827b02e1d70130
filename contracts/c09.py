from vc.harness import unit
from .spec import *


def zxz(g, phi, theta, psi):
    """B(psi) C(theta) D(phi): rotations about z, x', z'"""
    sa, sb, sc, ca, cb, cc = g.sin(phi), g.sin(theta), g.sin(psi), g.cos(phi), g.cos(theta), g.cos(psi)
    return [[cc * ca - cb * sa * sc, cc * sa + cb * ca * sc, sc * sb],
            [-sc * ca - cb * sa * cc, -sc * sa + cb * ca * cc, cc * sb],
            [sb * sa, -sb * ca, cb]]


def angles(g, deg):
    m = 180 if deg else g.pi
    r = []
    for nm, k in (('phi', 2), ('theta', 1), ('psi', 2)):
        x = g.real(nm, samp=(-360 * k // 2, 360 * k // 2) if deg else (-3 * k, 3 * k))
        g.require(g.land(x <= k * m, x >= -(k * m)))
        r.append(x)
    return r


@unit('C09', ['num.euler_matrix'])
def euler_matrix(g):
    """the zxz matrix, orthogonal, determinant one; radians and degrees"""
    deg = g.flag('deg')
    a = angles(g, deg)
    kw = {'deg': True} if deg else ({} if g.flag('default') else {'deg': False})
    R = g.call('num.euler_matrix', *a, **kw)
    g.shape('shape', R, (3, 3))
    W = zxz(g, *[rad(g, x) if deg else x for x in a])
    for i in range(3):
        for j in range(3):
            g.ensure('entry %d%d' % (i, j), g.close(R[i, j], W[i][j]))
            g.ensure('orthogonal %d%d' % (i, j), g.close(g.sum(lambda k: R[i, k] * R[j, k], 3), 1 if i == j else 0))
    g.ensure('determinant', g.close(det(R), 1))


@unit('C09', ['num.euler_matrix'])
def euler_rejects(g):
    """angles outside the documented range are rejected"""
    deg = g.flag('deg')
    m = 180 if deg else g.pi
    bad = g.choose('which', [0, 1, 2])
    a = [g.real(n, samp=(-1000, 1000) if deg else (-20, 20)) for n in ('phi', 'theta', 'psi')]
    lim = (1 if bad == 1 else 2) * m * (1 + g.frac(1, 1000000))
    g.require(g.lor(a[bad] > lim, a[bad] < -lim))
    g.raises('rejected', AssertionError, lambda: g.call('num.euler_matrix', *a, deg=deg))


def gram(c):
    return lambda i, j: c[i][0] * c[j][0] + c[i][1] * c[j][1] + c[i][2] * c[j][2]


@unit('C09', ['crys.align_cart'], fork={'case': 8}, assume=['proof run with eps=0 (no numerical orthogonality check); the check itself bounded'])
def align_cart(g):
    """fractional coordinates kept, cell rotated rigidly, chosen vectors on the axes"""
    how, traj = g.choose('case', [('cart', False), ('cart', True), ('xy', False), ('xy', True), ('vecs', False), ('vecs', True),
                                  ('indices', False), ('indices4', True)])
    n = g.dim('n', lo=3)
    lead = (g.dim('nt'),) if traj else ()
    cf = g.reals('coords_frac', lead + (n, 3), samp=(-2, 2))
    cell = g.reals('cell', lead + (3, 3), samp=(-4, 4))
    if not g.sym and not traj:
        invertible(g, cell)
    ix = [g.int('i%d' % k, 0, None, samp=(k, k)) for k in range(3)]
    t = g.int('t', 0, None, samp=(0, 0))
    if not g.sym and how.startswith('indices'):
        import numpy
        cf = cf.copy()
        f, c = (cf[t], cell[t]) if traj else (cf, cell)
        g.require(abs(numpy.linalg.det(c)) > .1)
        x = (f[ix[1]] - f[ix[0]]) @ c
        y = numpy.cross(x, [g.real('w%d' % k, samp=(-3, 3)) for k in range(3)])
        f[ix[2]] = f[ix[0]] + y @ numpy.linalg.inv(c)
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', coords_frac=cf, cell=cell)
    kw = {'eps': 0} if g.sym else {}
    np = g.np
    if how == 'cart':
        Q = zxz(g, *[g.real(nm, samp=(-3, 3)) for nm in ('phi', 'theta', 'psi')])
        kw['cart'] = np.array(Q)
        x = y = None
    else:
        x = [g.real('x%d' % k, samp=(-3, 3)) for k in range(3)]
        w = [g.real('w%d' % k, samp=(-3, 3)) for k in range(3)]
        y = cross(x, w)
        if not g.sym:
            g.require(dot3(x, x) > .01 and dot3(y, y) > .01)
        if how == 'xy':
            kw['x'], kw['y'] = np.array(x), np.array(y)
        elif how == 'vecs':
            o = [g.real('o%d' % k, samp=(-3, 3)) for k in range(3)]
            kw['vecs'] = np.array([o, [o[k] + x[k] for k in range(3)], [o[k] + y[k] for k in range(3)]])
        else:
            for i in ix:
                g.require(i < n)
            if how == 'indices4':
                g.require(t < lead[0])
                kw['indices'] = [t] + ix
                pos = [ob.coords[t, i] for i in ix]
            else:
                kw['indices'] = ix
                pos = [ob.coords[i] for i in ix]
            x = [pos[1][k] - pos[0][k] for k in range(3)]
            y = [pos[2][k] - pos[0][k] for k in range(3)]
            if not g.sym:
                g.require(dot3(x, x) > .01 and dot3(y, y) > .01)
    f0, m0 = g.snap(ob.coords_frac), g.snap(ob.cell)
    r = g.call('crys.align_cart', ob, **kw)
    g.ensure('type', bool(r.is_traj) == traj)
    g.unchanged('fractional kept', r.coords_frac, f0)
    g.unchanged('source kept', ob.coords_frac, f0)
    g.unchanged('source cell kept', ob.cell, m0)
    g.ensure('new arrays', r.coords_frac is not ob.coords_frac)
    if how == 'cart':
        C = kw['cart']
        C = [[Q[i][j] for j in range(3)] for i in range(3)]
    else:
        lx, ly = g.sqrt(dot3(x, x)), g.sqrt(dot3(y, y))
        xx, yy = [v / lx for v in x], [v / ly for v in y]
        C = [xx, yy, cross(xx, yy)]
    R, M = r.cell, m0
    at = lambda A, ix: (lambda i, j: A[tuple(ix) + (i, j)])
    dims = lead or (1,)
    st = (lambda t: (t,)) if traj else (lambda t: ())
    for i in range(3):
        for k in range(3):
            g.forall('cell %d%d' % (i, k), dims,
                     lambda t: g.close(at(R, st(t))(i, k), g.sum(lambda a: at(M, st(t))(i, a) * C[k][a], 3)))
    for k in range(3):
        g.forall('cartesian %d' % k, dims + (n,),
                 lambda t, j: g.close(r.coords[st(t) + (j, k)], g.sum(lambda a: r.coords_frac[st(t) + (j, a)] * at(R, st(t))(a, k), 3)))


@unit('C09', ['crys.align_cart'])
def rigid(g):
    """the rotation used keeps all scalar products of cell vectors and puts the chosen vectors on the axes"""
    x = [g.real('x%d' % k, samp=(-3, 3)) for k in range(3)]
    w = [g.real('w%d' % k, samp=(-3, 3)) for k in range(3)]
    y = cross(x, w)
    g.require(dot3(x, x) > g.frac(1, 100))
    g.require(dot3(y, y) > g.frac(1, 100))
    lx, ly = g.sqrt(dot3(x, x)), g.sqrt(dot3(y, y))
    xx, yy = [v / lx for v in x], [v / ly for v in y]
    C = [xx, yy, cross(xx, yy)]
    for i in range(3):
        for j in range(3):
            g.ensure('orthogonal %d%d' % (i, j), g.close(dot3(C[i], C[j]), 1 if i == j else 0))
    for k, v in enumerate((lx, 0, 0)):
        g.ensure('x axis %d' % k, g.close(dot3(C[k], x), v))
    for k, v in enumerate((0, ly, 0)):
        g.ensure('y axis %d' % k, g.close(dot3(C[k], y), v))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@unit('C09', ['crys.align_cart'], mode='bounded', why='numerical orthogonality check (np.linalg.inv, allclose), symbols, distances', n=200)
def align_checked(g):
    """default eps: rotations accepted, distances and cell constants kept; non-orthogonal axes rejected"""
    import numpy as np
    traj = g.flag('traj')
    n, nt = g.int('n', 3, 6), g.int('nt', 3, 4)
    lead = (nt,) if traj else ()
    cell = g.reals('cell', (3, 3), samp=(-4, 4))
    invertible(g, cell)
    sy = g.labels('symbols', n)
    if traj:
        cell = cell * (1 + 0.1 * np.arange(nt))[:, None, None]
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', coords_frac=g.reals('cf', lead + (n, 3)), cell=cell, symbols=sy)
    x, w = g.reals('x', (3,)), g.reals('w', (3,))
    y = np.cross(x, w)
    g.require(np.linalg.norm(x) > .1 and np.linalg.norm(y) > .1)
    x0, y0 = x.copy(), y.copy()
    r = g.call('crys.align_cart', ob, x=x, y=y)
    g.eq('x kept', x, x0)
    g.eq('y kept', y, y0)
    g.ensure('constants', np.allclose(r.cryst_const, ob.cryst_const))
    g.ensure('volume', np.allclose(r.volume, ob.volume))
    g.ensure('symbols', r.symbols == sy and ob.symbols == sy)
    d = lambda c: np.linalg.norm(c[..., :, None, :] - c[..., None, :, :], axis=-1)
    g.ensure('distances', np.allclose(d(r.coords), d(ob.coords)))
    co = ob.coords
    Q = np.array([x / np.linalg.norm(x), y / np.linalg.norm(y), np.cross(x, y) / np.linalg.norm(x) / np.linalg.norm(y)])
    g.ensure('rotated', np.allclose(r.coords, co @ Q.T))
    bad = y + g.choose('tilt', [.3, -.5, 1]) * x
    g.raises('non-orthogonal rejected', AssertionError, lambda: g.call('crys.align_cart', ob, x=x, y=bad))


@unit('C09', ['crys.center_on_atom'], fork={'traj': 2})
def center_on_atom(g):
    """atom idx at 0.5, everything moved by the same vector (per step)"""
    traj = g.choose('traj', [False, True])
    copy = g.flag('copy')
    n = g.dim('n')
    lead = (g.dim('nt'),) if traj else ()
    cf = g.reals('coords_frac', lead + (n, 3), samp=(-2, 2))
    cell = g.reals('cell', lead + (3, 3), samp=(-4, 4))
    idx = g.int('idx', 0, None, samp=(0, 0))
    g.require(idx < n)
    neg = g.flag('from the end')
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', coords_frac=cf, cell=cell)
    f0, m0, x0 = g.snap(cf), g.snap(cell), g.snap(ob.coords)
    kw = {} if copy and g.flag('default') else {'copy': copy}
    r = g.call('crys.center_on_atom', ob, idx=idx - n if neg else idx, **kw)
    dims = lead + (n,)
    for k in range(3):
        g.forall('fractional %d' % k, dims, lambda *ix: g.close(r.coords_frac[tuple(ix) + (k,)],
                 f0[tuple(ix) + (k,)] - f0[tuple(ix[:-1]) + (idx, k)] + g.frac(1, 2)))
        g.forall('cartesian %d' % k, dims, lambda *ix: g.close(r.coords[tuple(ix) + (k,)],
                 g.sum(lambda a: r.coords_frac[tuple(ix) + (a,)] * m0[tuple(ix[:-1]) + (a, k)], 3)))
    g.unchanged('cell kept', r.cell, m0)
    g.unchanged('input array kept', cf, f0)
    if copy:
        g.unchanged('source kept', ob.coords_frac, f0)
        g.unchanged('source cartesian kept', ob.coords, x0)
    else:
        g.ensure('in place', r is ob)


@unit('C09', ['crys.center_on_atom'])
def center_needs_index(g):
    """no index: rejected"""
    ob = g.call('crys.Structure', coords_frac=g.reals('cf', (2, 3)), cell=g.reals('cell', (3, 3)))
    g.raises('rejected', AssertionError, lambda: g.call('crys.center_on_atom', ob))
