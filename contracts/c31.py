import itertools
from vc.harness import unit
from vc.core import Unsupported
from .spec import *

SY = ['O', 'H', 'H']


def el(g, a, *i):
    return a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]


@unit('C31', ['crys.rmsd', 'num.rms3d'], n=150, assume=['three atoms in the proof; any number bounded'])
def rmsd(g):
    """root mean square displacement per atom against one step, trajectory kept"""
    nt, n = g.dim('nt', 1), 3
    X = g.reals('coords', (nt, n, 3), samp=(-4, 4))
    tr = g.call('crys.Trajectory', coords=X, symbols=list(SY))
    ref = g.int('ref', 0, samp=(0, 5))
    g.require(ref < nt)
    how = g.choose('ref', ['default', 'given', 'negative'])
    r = g.call('crys.rmsd', tr) if how == 'default' else g.call('crys.rmsd', tr, ref_idx=ref if how == 'given' else ref - nt)
    k = 0 if how == 'default' else ref
    X0 = g.snap(X)
    g.shape('shape', r, (nt,))
    g.forall('rmsd', (nt,), lambda t: g.close(el(g, r, t) * el(g, r, t) * n, sum((el(g, X0, t, i, d) - el(g, X0, k, i, d)) * (el(g, X0, t, i, d) - el(g, X0, k, i, d)) for i in range(n) for d in range(3)), 1e-7, 1e-9))
    g.forall('not negative', (nt,), lambda t: el(g, r, t) >= 0)
    g.unchanged('trajectory kept', tr.coords, X0)


@unit('C31', ['crys.rmsd'], mode='bounded', n=150, why='arbitrary symbol lists')
def rmsd_atoms(g):
    """any number of atoms"""
    import numpy as np
    nt, n = g.int('nt', 1, samp=(1, 6)), g.int('n', 1, samp=(1, 9))
    X = g.reals('coords', (nt, n, 3), samp=(-4, 4))
    tr = g.call('crys.Trajectory', coords=X.copy(), symbols=['H'] * n)
    k = g.int('ref', 0, nt - 1)
    r = g.call('crys.rmsd', tr, k)
    g.ensure('rmsd', np.allclose(r, [np.sqrt(sum(((X[t, i] - X[k, i]) ** 2).sum() for i in range(n)) / n) for t in range(nt)], rtol=1e-9, atol=1e-12))
    g.ensure('kept', np.array_equal(tr.coords, X))


@unit('C31', ['crys.mix'], n=150, assume=['three atoms in the proof', 'crys.Trajectory keeps the arrays it is given (C02, and bounded here)'])
def mix(g):
    """step a: a * second + (1 - a) * first for coordinates, cell and forces (if both have them)"""
    n, nt = 3, g.dim('nt', 1)
    ob, S = [], []
    forces = [g.flag('forces 1'), g.flag('forces 2')]
    for q in (0, 1):
        kw = {'coords': g.reals('x%d' % q, (n, 3), samp=(-4, 4)), 'cell': g.reals('c%d' % q, (3, 3), samp=(-5, 5)), 'symbols': list(SY)}
        if forces[q]:
            kw['forces'] = g.reals('f%d' % q, (n, 3))
        S.append({k: g.snap(v) for k, v in kw.items() if k != 'symbols'})
        ob.append(g.call('crys.Structure', set_all_auto=False, **kw))
    al = g.reals('alpha', (nt,), samp=(0, 1))
    a0 = g.snap(al)
    if g.sym:
        from types import SimpleNamespace
        g.override('crys.Trajectory', lambda coords=None, cell=None, symbols=None, forces=None: SimpleNamespace(
            coords=coords, cell=cell, symbols=symbols, forces=forces))
    tr = g.call('crys.mix', ob[0], ob[1], al)
    for nm in ('coords', 'cell') + (('forces',) if all(forces) else ()):
        A, B, r = S[0][nm], S[1][nm], getattr(tr, nm)
        g.shape('%s shape' % nm, r, (nt, 3, 3))
        for i in range(3):
            for d in range(3):
                g.forall('%s %d%d' % (nm, i, d), (nt,), lambda t, r=r, A=A, B=B, i=i, d=d: g.close(el(g, r, t, i, d), el(g, a0, t) * el(g, B, i, d) + (1 - el(g, a0, t)) * el(g, A, i, d)))
    if not all(forces):
        g.ensure('no forces', tr.forces is None)
    g.ensure('symbols', list(tr.symbols) == SY)
    for q in (0, 1):
        for nm, v in S[q].items():
            g.unchanged('%s %d kept' % (nm, q), getattr(ob[q], nm), v)
    g.unchanged('alpha kept', al, a0)


def smoothed(y, kern):
    """sliding weighted average with mirrored edges, by hand (kernel normalised)"""
    import numpy as np
    N, M = len(y), len(kern)
    p = (M - 1) // 2
    ext = np.concatenate([y[1:p + 1][::-1], y, y[-p - 1:-1][::-1]]) if p else y
    k = kern / kern.sum()
    return np.array([(ext[i:i + M] * k[::-1]).sum() for i in range(N)])


@unit('C31', ['crys.smooth', 'signal.smooth'], mode='bounded', n=200, why='scipy.signal.fftconvolve, arbitrary attribute sets')
def smooth(g):
    """every time dependent array smoothed along the step axis, component by component; everything else unchanged; both
    methods agree"""
    import numpy as np
    nt, n = g.int('nt', 6, samp=(6, 20)), g.int('n', 1, samp=(1, 5))
    X = g.reals('coords', (nt, n, 3), samp=(-4, 4))
    cell = g.reals('cell', (3, 3), samp=(-.5, .5)) + 5 * np.eye(3)
    if g.flag('variable cell'):
        cell = cell + .1 * g.reals('dc', (nt, 3, 3))
    kw = {'coords': X, 'cell': cell, 'symbols': ['H'] * n, 'timestep': 1.5}
    if g.flag('etot'):
        kw['etot'] = g.reals('e', (nt,))
    if g.flag('stress'):
        kw['stress'] = g.reals('s', (nt, 3, 3))
    if g.flag('forces'):
        kw['forces'] = g.reals('f', (nt, n, 3))
    if g.flag('integer typed'):
        kw['coords'] = np.rint(X).astype(int)
    tr = g.call('crys.Trajectory', **kw)
    M = g.choose('M', [1, 3, 5])
    kern = np.abs(g.reals('k', (M,), samp=(.1, 1)))
    if g.flag('symmetric'):
        kern = kern + kern[::-1]
    before = {k: np.copy(getattr(tr, k)) for k in tr.attrs_nstep if getattr(tr, k) is not None}
    k0 = kern.copy()
    meth = g.choose('method', [None, 1, 2])
    r = g.call('crys.smooth', tr, kern, **({} if meth is None else {'method': meth}))
    g.ensure('a trajectory', r.is_traj)
    for k in tr.attrs_nstep:
        v = getattr(r, k)
        if k not in before:
            g.ensure('%s absent' % k, v is None)
            continue
        b = before[k]
        w = np.empty_like(b, dtype=float)
        for ix in np.ndindex(*b.shape[1:]):
            w[(slice(None),) + ix] = smoothed(b[(slice(None),) + ix].astype(float), k0)
        g.ensure('%s smoothed' % k, v.shape == b.shape and np.allclose(v, w, rtol=1e-8, atol=1e-7))
        g.ensure('%s kept' % k, np.array_equal(getattr(tr, k), b))
    for k in set(tr.attr_lst) - set(tr.attrs_nstep):
        x, y = getattr(tr, k), getattr(r, k)
        g.ensure('%s taken over' % k, x is y or (np.array_equal(x, y) if isinstance(x, np.ndarray) else x == y))
    g.ensure('kernel kept', np.array_equal(kern, k0))


@unit('C31', ['crys.smooth'], n=100, fork={'method': 3, 'forces': 2, 'stress': 2}, assume=['signal.smooth: contract proved in C12 (kernel shorter than the data, mirrored edges, normalised kernel)', 'two atoms in the proof'])
def smooth_any(g):
    """any number of steps, odd kernels: every component of every time dependent array is smoothed with the contract of signal.smooth"""
    n = 2
    h = g.int('h', 0, samp=(0, 3))
    M = 2 * h + 1
    nt = g.dim('nt', 1, samp=(1, 12))
    g.require(M < nt)
    k = g.reals('kern', (M,), samp=(0.05, 2))
    ks = g.sum(lambda m: k[m], M)
    g.require(ks > g.frac(1, 100))
    kw = {'coords': g.reals('coords', (nt, n, 3), samp=(-4, 4)), 'etot': g.reals('etot', (nt,))}
    if g.flag('forces'):
        kw['forces'] = g.reals('forces', (nt, n, 3))
    if g.flag('stress'):
        kw['stress'] = g.reals('stress', (nt, 3, 3))
    if g.flag('volume'):
        kw['volume'] = g.reals('volume', (nt,))
    old = {a: g.snap(v) for a, v in kw.items()}
    k0 = g.snap(k)
    tr = g.call('crys.Trajectory', set_all_auto=False, symbols=['O', 'H'], **kw)
    meth = g.choose('method', [None, 1, 2])
    mirrored = lambda p: g.ite(p < 0, -p, g.ite(p >= nt, 2 * nt - 2 - p, p))

    def conv(X, t):
        return g.sum(lambda m: X(mirrored(t + h - m)) * el(g, k0, m), M)
    if g.sym:
        def contract(data, kern, axis=0, edge='m', norm=True):
            if not (axis == 0 and edge == 'm' and norm is True):
                raise Unsupported('arguments outside the contract of signal.smooth used here')
            g.ensure('kernel passed on', g.land(kern.shape[0] == M, *[s == 1 for s in kern.shape[1:]], kern.ndim == data.ndim))
            rest = (0,) * (kern.ndim - 1)
            g.forall('kernel passed on', (M,), lambda m: g.close(el(g, kern, m, *rest), el(g, k0, m)))
            src = g.snap(data)
            return g.array(data.shape, lambda t, *ix: conv(lambda p: el(g, src, p, *ix), t) / ks)
        g.override('signal.smooth', contract)
    r = g.call('crys.smooth', tr, k, **({} if meth is None else {'method': meth}))
    g.ensure('a trajectory', r.is_traj)
    for a in tr.attrs_nstep:
        v = getattr(r, a)
        if a not in kw:
            g.ensure('%s absent' % a, v is None)
            continue
        g.shape('%s shape' % a, v, old[a].shape)
        sh = [int(s) for s in old[a].shape[1:]]
        for ix in itertools.product(*[range(s) for s in sh]):
            g.forall('%s smoothed' % a, (nt,), lambda t, v=v, ix=ix, a=a: g.close(el(g, v, t, *ix) * ks, conv(lambda p: el(g, old[a], p, *ix), t)))
        g.unchanged('%s kept' % a, getattr(tr, a), old[a])
    g.ensure('symbols', list(r.symbols) == ['O', 'H'])
    g.unchanged('kernel kept', k, k0)
