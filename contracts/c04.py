from vc.harness import unit
from .spec import *
import numpy as np
import itertools

B = (-2, 2)


def structure(g, n, name=''):
    """a Structure given by fractional coordinates and cell """
    cf = g.reals(name + 'coords_frac', (n, 3), samp=(-3, 3, 100))
    cell = g.reals(name + 'cell', (3, 3), samp=B)
    invertible(g, cell)
    st = g.call('crys.Structure', coords_frac=cf, cell=cell)
    return st, cf, cell


def check_dist(g, dv, df, at, cf, cell, n, pbc, ix=lambda i, j: (i, j)):
    """fractional difference up to the integer of the minimum image; Cartesian vector through the cell"""
    for k in range(3):
        if pbc:
            g.forall('minimum image range %d' % k, (n, n), lambda i, j: g.land(df(i, j, k) >= -g.frac(1, 2), df(i, j, k) < g.frac(1, 2)))
            g.forall('whole lattice vectors %d' % k, (n, n), lambda i, j: g.isint(df(i, j, k) - (cf(i, k) - cf(j, k))))
        else:
            g.forall('fractional vector %d' % k, (n, n), lambda i, j: g.close(df(i, j, k), cf(i, k) - cf(j, k)))
        g.forall('distance vector %d' % k, (n, n), lambda i, j: g.close(dv(i, j, k), g.sum(lambda a: df(i, j, a) * cell(a, k), 3)))


@unit('C04', ['crys.distances', 'flib.f90: distsq_frac (translated)'], n=80, fork={'pbc': 2, 'squared': 2, 'fullout': 2})
def distances(g):
    n = g.dim('n')
    pbc, squared, full = g.flag('pbc'), g.flag('squared'), g.flag('fullout')
    st, cf, cell = structure(g, n)
    c0, m0 = g.snap(cf), g.snap(cell)
    r = g.call('crys.distances', st, pbc=pbc, squared=squared, fullout=full)
    d = r[0] if full else r
    g.shape('shape', d, (n, n))
    if full:
        dv, df = r[1], r[2]
        g.shape('distvecs shape', dv, (n, n, 3))
        g.shape('distvecs_frac shape', df, (n, n, 3))
        check_dist(g, lambda i, j, k: dv[i, j, k], lambda i, j, k: df[i, j, k], None, lambda i, k: cf[i, k], lambda a, k: cell[a, k], n, pbc)
        nrm = lambda i, j: g.sum(lambda k: dv[i, j, k] * dv[i, j, k], 3)
        if squared:
            g.forall('squared distance', (n, n), lambda i, j: g.close(d[i, j], nrm(i, j)))
        else:
            g.forall('distance', (n, n), lambda i, j: g.land(d[i, j] >= 0, g.close(d[i, j] * d[i, j], nrm(i, j))))
    else:
        r2 = g.call('crys.distances', st, pbc=pbc, squared=squared, fullout=True)
        g.eq('same as with fullout', d, r2[0])
    g.unchanged('coords_frac unchanged', st.coords_frac, c0)
    g.unchanged('cell unchanged', st.cell, m0)


def fold(g, x, pbc):
    """x moved by an integer into [-1/2, 1/2) (pbc)"""
    return x - g.toreal(g.floor(x + g.frac(1, 2))) if pbc else x


@unit('C04', ['flib.f90: distsq_frac (translated)'], n=60, fork={'pbc': 2})
def distsq_frac(g):
    """contract of the kernel used by distances_traj"""
    n = g.dim('n')
    pbc = g.flag('pbc')
    cf = g.reals('coords_frac', (n, 3), samp=(-2, 2, 100))
    cell = g.reals('cell', (3, 3), samp=B)
    c0, m0 = g.snap(cf), g.snap(cell)
    F = lambda *s: g.np.zeros(s, order='F')
    d, dv, df = g.call('_flib.distsq_frac', coords_frac=cf, cell=cell, pbc=int(pbc), distsq=F(n, n), distvecs=F(n, n, 3), distvecs_frac=F(n, n, 3))
    for k in range(3):
        g.forall('fractional vector %d' % k, (n, n), lambda i, j: g.close(df[i, j, k], fold(g, c0[i, k] - c0[j, k], pbc)))
        g.forall('vector %d' % k, (n, n), lambda i, j: g.close(dv[i, j, k], g.sum(lambda a: df[i, j, a] * m0[a, k], 3)))
    g.forall('squared distance', (n, n), lambda i, j: g.close(d[i, j], g.sum(lambda k: dv[i, j, k] * dv[i, j, k], 3)))
    g.unchanged('coords_frac', cf, c0)
    g.unchanged('cell', cell, m0)


@unit('C04', ['crys.distances_traj', 'flib.f90: distances_traj (translated)'], n=60, fork={'pbc': 2})
def distances_traj(g):
    """every step: distances of the fractional differences (pbc: moved by an integer into [-0.5, 0.5))"""
    nt, n = g.dim('nt'), g.dim('n')
    pbc = g.flag('pbc')
    cf = g.reals('coords_frac', (nt, n, 3), samp=(-2, 2, 100))
    cell = g.reals('cell', (nt, 3, 3), samp=B)
    g.require_all((nt,), lambda t: g.abs(det3(lambda i, j: cell[t, i, j])) > g.frac(1, 10))
    tr = g.call('crys.Trajectory', coords_frac=cf, cell=cell)
    c0, m0 = g.snap(cf), g.snap(cell)
    if g.sym:
        def kernel(coords_frac, cell, pbc_, distsq, distvecs, distvecs_frac, natoms):
            """contract proved by unit distsq_frac"""
            xf = coords_frac.vfn()
            mf = cell.vfn()
            DF = lambda i, j, k: fold(g, xf((i, k)) - xf((j, k)), pbc)
            DV = lambda i, j, k: g.sum(lambda a: DF(i, j, a) * mf((a, k)), 3)
            distvecs_frac[...] = g.array((n, n, 3), DF)
            distvecs[...] = g.array((n, n, 3), DV)
            distsq[...] = g.array((n, n), lambda i, j: g.sum(lambda k: DV(i, j, k) * DV(i, j, k), 3))
        g.override('_flib.f_distsq_frac', kernel)
    d = g.call('crys.distances_traj', tr, pbc=pbc)
    g.shape('shape', d, (nt, n, n))
    vec = lambda t, i, j: [g.sum(lambda a: fold(g, c0[t, i, a] - c0[t, j, a], pbc) * m0[t, a, k], 3) for k in range(3)]
    g.forall('distance', (nt, n, n), lambda t, i, j: g.land(d[t, i, j] >= 0, g.close(d[t, i, j] * d[t, i, j], dot3(vec(t, i, j), vec(t, i, j)))))
    g.unchanged('coords_frac unchanged', tr.coords_frac, c0)
    g.unchanged('cell unchanged', tr.cell, m0)


@unit('C04', ['crys.angles', 'flib.f90: angles (translated)'], n=80, fork={'pbc': 2, 'deg': 2})
def angles(g):
    """angle at i between j and k for distinct i, j, k; mask_val elsewhere"""
    n = g.dim('n', samp=(1, 6))
    pbc, deg_ = g.flag('pbc'), g.flag('deg')
    cf = g.reals('coords_frac', (n, 3), samp=(-1, 2))
    cell = g.reals('cell', (3, 3), samp=B)
    invertible(g, cell)
    st = g.call('crys.Structure', coords_frac=cf, cell=cell)
    mask = g.choose('mask_val', [999.0, -1.5, 200.0])
    if g.sym:
        # callee by contract (unit distances): arrays of these shapes; what follows holds for arbitrary values
        d, dv, df = g.reals('d', (n, n)), g.reals('dv', (n, n, 3)), g.reals('df', (n, n, 3))
        g.override('crys.distances', lambda s_, pbc=False, squared=False, fullout=False: (d, dv, df) if fullout and not squared else None)
    a = g.call('crys.angles', st, pbc=pbc, mask_val=mask, deg=deg_)
    if not g.sym:
        d, dv, _ = g.call('crys.distances', st, pbc=pbc, fullout=True)
    g.shape('shape', a, (n, n, n))
    distinct = lambda i, j, k: g.land(g.lnot(i == j), g.lnot(i == k), g.lnot(j == k))
    g.forall('mask', (n, n, n), lambda i, j, k: g.implies(g.lnot(distinct(i, j, k)), a[i, j, k] == mask))
    e = g.frac(1, 10 ** 15)

    def val(i, j, k):
        c = g.sum(lambda q: dv[i, j, q] * dv[i, k, q], 3) / d[i, j] / d[i, k]
        if not deg_:
            return g.close(a[i, j, k], c)
        if not g.sym:
            c = min(1.0, max(-1.0, c))
            return g.close(a[i, j, k], np.arccos(c) * 180 / np.pi, rtol=1e-7, atol=1e-4)
        A = lambda x: g.close(a[i, j, k], g.acos(x) * 180 / g.pi)
        return g.land(g.implies(g.land(c <= 1 - e, c >= e - 1), A(c)), g.implies(c > 1 - e, g.lor(A(c), A(g.frac(1, 1)))),
                      g.implies(c < e - 1, g.lor(A(c), A(g.frac(-1, 1)))))
    g.forall('angle', (n, n, n), lambda i, j, k: g.implies(g.land(distinct(i, j, k), d[i, j] > 0, d[i, k] > 0), val(i, j, k)) if g.sym or (i != j and i != k and j != k and d[i, j] > 0 and d[i, k] > 0) else True)


@unit('C04', ['crys.angles'])
def angles_mask(g):
    """a mask value that could be an angle is refused"""
    st = g.call('crys.Structure', coords_frac=g.reals('cf', (3, 3)), cell=g.array((3, 3), lambda i, j: g.ite(i == j, 1.0, 0.0)))
    deg_ = g.flag('deg')
    m = g.real('mask_val', samp=(-2, 181))
    g.require(g.land(m >= (0 if deg_ else -1), m <= (180 if deg_ else 1)))
    g.raises('refused', AssertionError, lambda: g.call('crys.angles', st, mask_val=m, deg=deg_))


def collinear(g):
    """integer grid positions (many collinear and right-angled triples)"""
    n = g.int('n', 3, 6)
    pts = [(i, j, k) for i in range(4) for j in range(3) for k in range(2)]
    np.random.RandomState(g.int("perm", 0, 10**6)).shuffle(pts)
    return np.array(pts[:n], dtype=float)


@unit('C04', ['crys.angles', 'flib.f90: angles'], mode='bounded', why='collinear positions: rounding of the cosine (floating point), mask values near the cosines', n=150)
def angles_grid(g):
    X = collinear(g)
    if g.flag('on a line'):
        v = g.reals('dir', (3,), samp=(-1, 1))
        g.require(float(np.abs(v).max()) > .2)
        X = v * np.array([0.0, g.real('s', lo=.2, hi=1, samp=(.2, 1)), 1.1, 2.3])[:, None] + g.reals('off', (3,), samp=(0, 1))
    st = g.call('crys.Structure', coords=X, cell=np.diag([8.0, 8.0, 8.0]), symbols=['H'] * len(X))
    mask = g.choose('mask_val', [999.0, -1.0, -0.5, -0.25, 180.5])
    a = g.call('crys.angles', st, mask_val=mask)
    n = len(X)
    for i, j, k in itertools.product(range(n), repeat=3):
        if len({i, j, k}) < 3:
            g.ensure('mask', a[i, j, k] == mask)
        else:
            u, v = X[i] - X[j], X[i] - X[k]
            c = np.dot(u, v) / np.sqrt(np.dot(u, u) * np.dot(v, v))
            g.ensure('angle', abs(a[i, j, k] - np.degrees(np.arccos(np.clip(c, -1, 1)))) < 1e-4)


@unit('C04', ['crys.nearest_neighbors', 'crys.nearest_neighbors_from_dists', 'crys.nearest_neighbors_struct'], mode='bounded',
      why='selection by numpy.argsort with boolean masks', n=400)
def neighbors(g):
    """exactly the non-skipped atoms other than the centre within the cutoff / the num closest, ascending; consistent across the three interfaces"""
    n = g.int('n', 1, 8)
    cf = g.reals('cf', (n, 3), samp=(-1.5, 1.5))
    cell = g.reals('cell', (3, 3), samp=(-3, 3))
    if abs(np.linalg.det(cell)) < 1:
        cell = cell + 4 * np.eye(3)
    sy = g.labels('symbols', n, ('H', 'O', 'Ca', 'Si'))
    st = g.call('crys.Structure', coords_frac=cf, cell=cell, symbols=sy)
    idx = g.int('idx', 0, 10) % n
    pbc, sort = g.flag('pbc'), g.flag('sort')
    D = g.call('crys.distances', st, pbc=pbc)
    d = D[:, idx]
    if len(set(np.round(d, 9))) < n:
        g.require(False)
    skip = g.choose('skip', [None, 'H', ['H'], ['O', 'Si'], ('Ca', 'H', 'O'), ['X']])
    sk = () if skip is None else (skip,) if isinstance(skip, str) else skip
    kw = {}
    if g.flag('use_num'):
        kw['num'] = g.int('num', 1, 9)
    else:
        kw['cutoff'] = g.real('cutoff', 0.01, 12, samp=(0.01, 12))
    cand = sorted([i for i in range(n) if i != idx and sy[i] not in sk], key=lambda i: d[i])
    want = cand[:kw['num']] if 'num' in kw else [i for i in cand if d[i] < kw['cutoff']]
    if not sort:
        want = sorted(want)
    r, rd = g.call('crys.nearest_neighbors', st, idx=idx, skip=skip, pbc=pbc, sort=sort, fullout=True, **kw)
    g.ensure('neighbours', list(r) == want)
    g.eq('distances', np.asarray(rd, dtype=float), np.array([d[i] for i in want], dtype=float))
    g.ensure('without fullout', list(g.call('crys.nearest_neighbors', st, idx=idx, skip=skip, pbc=pbc, sort=sort, **kw)) == want)
    g.ensure('from distances', list(g.call('crys.nearest_neighbors_from_dists', D, sy, idx=idx, skip=skip, sort=sort, **kw)) == want)
    s2 = g.call('crys.nearest_neighbors_struct', st, idx=idx, skip=skip, pbc=pbc, **kw)
    keep = sorted(want + [idx])
    g.ensure('struct symbols', list(s2.symbols) == [sy[i] for i in keep])
    g.eq('struct coords', s2.coords_frac, cf[keep])
    g.eq('struct cell', s2.cell, cell)
