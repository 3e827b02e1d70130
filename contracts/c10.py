from vc.harness import unit
from .spec import *


def corr(g, v, t, n, m=None, nat=None):
    if nat is None:
        return g.sum(lambda j: v[j] * v[j + t], n - t) if not g.sym else g.sum(lambda j: v.elem(j) * v.elem(j + t), n - t)
    e = v.elem if g.sym else (lambda *k: v[k])
    w = (lambda i: 1) if m is None else (lambda i: m[i])
    return g.sum(lambda j: g.sum(lambda i: (e(j, i, 0) * e(j + t, i, 0) + e(j, i, 1) * e(j + t, i, 1) + e(j, i, 2) * e(j + t, i, 2)) * w(i), nat), n - t)


@unit('C10', ['signal.acorr', 'flib.f90: acorr (translated)'], fork={'method': 7, 'norm': 2}, n=300,
      assume=['ifft(|fft(x)|^2) is the circular autocorrelation of x (scipy.fftpack)', 'np.correlate(mode="full") is the full cross-correlation'])
def acorr(g):
    """every method: c(t) = sum_j v(j) v(j+t), over c(0) if normalized"""
    method = g.choose('method', [1, 2, 3, 4, 5, 6, 7])
    norm = g.choose('norm', [True, False])
    n = g.dim('n')
    v = g.reals('v', (n,), samp=(-3, 3))
    v0 = g.snap(v)
    if not g.sym:
        g.require((v ** 2).sum() > .01)
    kw = {'method': method, 'norm': norm}
    if norm and g.flag('default norm'):
        kw.pop('norm')
    if method == 7 and g.flag('default method'):
        kw.pop('method')
    c = g.call('signal.acorr', v, **kw)
    g.shape('shape', c, (n,))
    c0 = corr(g, v0, 0, n)
    g.forall('correlation', (n,), lambda t: g.close(c[t] * (c0 if norm else 1), corr(g, v0, t, n)) if not g.sym else
             g.close(c[t], corr(g, v0, t, n) / c0 if norm else corr(g, v0, t, n)))
    g.unchanged('input kept', v, v0)


@unit('C10', ['signal.acorr'])
def acorr_rejects(g):
    """unknown methods are rejected"""
    v = g.reals('v', (g.dim('n'),))
    g.raises('method', Exception, lambda: g.call('signal.acorr', v, method=g.choose('method', [0, 8, -1])))


def data(g):
    n, nat = g.dim('n'), g.dim('natoms')
    v = g.reals('v', (n, nat, 3), samp=(-3, 3))
    m = None
    if g.flag('masses'):
        m = g.reals('m', (nat,), lo=0, samp=(g.frac(1, 2), 20))
    if not g.sym:
        g.require((v ** 2).sum() > .01)
    return n, nat, v, m


def check(g, c, n, nat, v, m, v0, m0):
    g.shape('shape', c, (n,))
    c0 = corr(g, v0, 0, n, m0, nat)
    g.forall('correlation', (n,), lambda t: g.close(c[t], corr(g, v0, t, n, m0, nat) / c0))
    g.unchanged('velocities kept', v, v0)
    if m is not None:
        g.unchanged('masses kept', m, m0)


@unit('C10', ['pydos.pyvacf'], fork={'method': 3, 'masses': 2}, n=150)
def pyvacf(g):
    """Python implementations: mass weighted sum over atoms and directions over its value at lag zero"""
    method = g.choose('method', [1, 2, 3])
    n, nat, v, m = data(g)
    v0, m0 = g.snap(v), g.snap(m)
    kw = {} if m is None else {'m': m}
    if not (method == 3 and g.flag('default method')):
        kw['method'] = method
    c = g.call('pydos.pyvacf', v, **kw)
    check(g, c, n, nat, v, m, v0, m0)


@unit('C10', ['pydos.fvacf', 'flib.f90: vacf, vect_loops (translated)'], fork={'method': 2, 'masses': 2}, n=150,
      assume=['OpenMP threads: the parallel loops write disjoint elements; compiled library with 1-8 threads bounded'])
def fvacf(g):
    """Fortran implementations: the same"""
    import os
    method = g.choose('method', [1, 2])
    n, nat, v, m = data(g)
    v0, m0 = g.snap(v), g.snap(m)
    kw = {} if m is None else {'m': m}
    if not (method == 2 and g.flag('default method')):
        kw['method'] = method
    nthr = g.choose('nthreads', [None, 1, 3, 8])
    if nthr is not None:
        kw['nthreads'] = nthr
    env = g.choose('env', [None, '2'])
    old = os.environ.get('OMP_NUM_THREADS')
    os.environ.pop('OMP_NUM_THREADS', None)
    if env:
        os.environ['OMP_NUM_THREADS'] = env
    try:
        c = g.call('pydos.fvacf', v, **kw)
    finally:
        os.environ.pop('OMP_NUM_THREADS', None)
        if old is not None:
            os.environ['OMP_NUM_THREADS'] = old
    check(g, c, n, nat, v, m, v0, m0)
