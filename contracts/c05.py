from vc.harness import unit
from .spec import *
import numpy as np
import itertools

DIMS = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 3), (2, 1, 3), (2, 2, 2), (1, 3, 2), (3, 2, 1)]


def offsets(dims, direc):
    o = list(itertools.product(*[range(d) for d in dims]))
    return o if direc == 1 else o[::-1]


def check(g, sc, cf, cell, sy, dims, direc, nt, n):
    """cf(t, i, k), cell(t, i, k): the source; atom i occupies rows i*N .. i*N+N-1 in mask order"""
    off = offsets(dims, direc)
    N = len(off)
    lead = () if nt is None else (nt,)
    g.shape('coords_frac shape', sc.coords_frac, lead + (n * N, 3))
    g.shape('coords shape', sc.coords, lead + (n * N, 3))
    g.shape('cell shape', sc.cell, lead + (3, 3))
    at = lambda A, t: A if nt is None else A[t]
    for a in range(3):
        for k in range(3):
            g.forall('cell %d%d' % (a, k), lead or (1,), lambda t: g.close(at(sc.cell, t)[a, k], dims[a] * cell(t, a, k)))
    for j, o in enumerate(off):
        for k in range(3):
            def cart(t, i):
                return g.sum(lambda a: (cf(t, i, a) + o[a]) * cell(t, a, k), 3)
            g.forall('position %d %d' % (j, k), (lead or (1,)) + (n,), lambda t, i: g.close(at(sc.coords, t)[i * N + j, k], cart(t, i)))
            g.forall('fractional %d %d' % (j, k), (lead or (1,)) + (n,), lambda t, i: g.close(at(sc.coords_frac, t)[i * N + j, k] * dims[k], cf(t, i, k) + o[k]))
    if sy is None:
        g.ensure('no symbols', sc.symbols is None or len(sc.symbols) == 0)
    else:
        g.ensure('number of symbols', len(sc.symbols) == n * N)
        for j in range(N):
            g.forall('symbol %d' % j, (n,), lambda i: g.same(item(g, sc.symbols, i * N + j), item(g, sy, i)))


def item(g, s, i):
    if g.sym:
        from vc import seq
        return seq.item(s, i)
    return s[i]


@unit('C05', ['crys.scell', 'crys.scell_mask'], fork={'dims': len(DIMS), 'method': 2}, n=120,
      assume=['grid sizes: the eight listed dims are proved for all structures; larger dims bounded'])
def scell_struct(g):
    """every atom once per offset, shifted by whole cell vectors; both methods the same order"""
    dims = g.choose('dims', DIMS)
    method = g.choose('method', [1, 2])
    direc = g.choose('direc', [1, -1])
    n = g.dim('n')
    cf = g.reals('coords_frac', (n, 3), samp=(-2, 2))
    cell = g.reals('cell', (3, 3), samp=(-4, 4))
    c0, m0 = g.snap(cf), g.snap(cell)
    st = g.call('crys.Structure', coords_frac=cf, cell=cell)
    kw = {} if direc == 1 else {'direc': direc}
    sc = g.call('crys.scell', st, dims, method=method, **kw)
    check(g, sc, lambda t, i, k: c0[i, k], lambda t, a, k: m0[a, k], None, dims, direc, None, n)
    g.unchanged('coords_frac unchanged', st.coords_frac, c0)
    g.unchanged('cell unchanged', st.cell, m0)


@unit('C05', ['crys.scell'], fork={'dims': len(DIMS)}, n=60, assume=['dims as above'])
def scell_traj(g):
    """the same at every time step with the cell of that step"""
    dims = g.choose('dims', DIMS)
    nt, n = g.dim('nt'), g.dim('n')
    cf = g.reals('coords_frac', (nt, n, 3), samp=(-2, 2))
    cell = g.reals('cell', (nt, 3, 3), samp=(-4, 4))
    c0, m0 = g.snap(cf), g.snap(cell)
    tr = g.call('crys.Trajectory', coords_frac=cf, cell=cell)
    sc = g.call('crys.scell', tr, dims)
    check(g, sc, lambda t, i, k: c0[t, i, k], lambda t, a, k: m0[t, a, k], None, dims, 1, nt, n)
    g.unchanged('coords_frac unchanged', tr.coords_frac, c0)
    g.unchanged('cell unchanged', tr.cell, m0)


@unit('C05', ['crys.scell', 'crys.scell_mask', 'crys.scell3d'], mode='bounded', why='products of symbolic extents in itertools.product; symbol lists', n=200)
def scell_general(g):
    """all dims up to 4, symbols, both methods and the trajectory version agree, cells and positions as specified"""
    import warnings
    dims = tuple(g.int('d%d' % k, 1, 4) for k in range(3))
    n = g.int('n', 1, 5)
    direc = g.choose('direc', [1, -1])
    sy = g.labels('symbols', n)
    cf = g.reals('coords_frac', (n, 3), samp=(-2, 2))
    cell = g.reals('cell', (3, 3), samp=(-4, 4))
    invertible(g, cell)
    how = g.choose('input', ['frac', 'cart', 'cc'])
    if how == 'frac':
        st = g.call('crys.Structure', coords_frac=cf, cell=cell, symbols=sy)
    elif how == 'cart':
        st = g.call('crys.Structure', coords=cf.dot(cell), cell=cell, symbols=sy)
    else:
        st = g.call('crys.Structure', coords_frac=cf, cryst_const=g.call('crys.cell2cc', cell), symbols=sy)
    m0, c0 = st.cell.copy(), st.coords_frac.copy()
    kw = {} if direc == 1 and g.flag('defdirec') else {'direc': direc}
    dd = g.choose('dimtype', [tuple, list, np.array])(dims)
    for method in (1, 2):
        sc = g.call('crys.scell', st, dd, method=method, **kw)
        check(g, sc, lambda t, i, k: c0[i, k], lambda t, a, k: m0[a, k], sy, dims, direc, None, n)
        g.ensure('natoms', sc.natoms == n * dims[0] * dims[1] * dims[2])
        g.ensure('volume', g.close(abs(sc.volume), abs(st.volume) * dims[0] * dims[1] * dims[2]))
    g.eq('mask', g.call('crys.scell_mask', *dims, **kw), np.array(offsets(dims, direc), dtype=float))
    nt = g.int('nt', 1, 4)
    cft = g.reals('cft', (nt, n, 3), samp=(-2, 2))
    cellt = cell[None] * (1 + 0.1 * np.arange(nt))[:, None, None]
    tr = g.call('crys.Trajectory', coords_frac=cft, cell=cellt, symbols=sy)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sct = g.call(g.choose('api', ['crys.scell', 'crys.scell3d']), tr, dd, **kw)
    check(g, sct, lambda t, i, k: cft[t, i, k], lambda t, a, k: cellt[t, a, k], sy, dims, direc, nt, n)
    g.eq('source kept', st.coords_frac, c0)
    g.eq('source cell kept', st.cell, m0)
    g.ensure('source symbols kept', st.symbols == sy and tr.symbols == sy)
