from vc.harness import unit
from vc.core import Unsupported
from .spec import *


def el(g, a, *i):
    return a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]


@unit('C11', ['signal.fftsample'])
def fftsample(g):
    """frequency mode: dt = 1/(2 fmax), N = 1/(df dt); time mode: fmax = 1/(2 dt), df = 1/(N dt); mirrored signals have
    twice the points; the two modes are inverse"""
    mirr = g.flag('mirr')
    kw = {'mirr': True} if mirr else ({'mirr': False} if g.flag('explicit') else {})
    fmax, df = g.real('fmax', lo=g.frac(1, 100), samp=(.1, 100)), g.real('df', lo=g.frac(1, 1000), samp=(.01, 5))
    k = 2 if mirr else 1
    fk = {} if g.flag('default mode') else {'mode': 'f'}
    r = g.call('signal.fftsample', fmax, df, **fk, **kw)
    g.shape('shape', r, (2,))
    g.ensure('time step', g.close(r[0] * 2 * fmax, 1))
    g.ensure('points', g.close(r[1] * df * k * r[0], 1))
    t = g.call('signal.fftsample', r[0], r[1], mode='t', **kw)
    g.shape('shape', t, (2,))
    g.ensure('fmax', g.close(t[0], fmax))
    g.ensure('df', g.close(t[1], df))
    dt, N = g.real('dt', lo=g.frac(1, 1000), samp=(.01, 5)), g.real('N', lo=1, samp=(10, 1000))
    u = g.call('signal.fftsample', dt, N, mode='t', **kw)
    g.ensure('fmax of dt', g.close(u[0] * 2 * dt, 1))
    g.ensure('df of N', g.close(u[1] * N * k * dt, 1))
    w = g.call('signal.fftsample', u[0], u[1], mode='f', **kw)
    g.ensure('dt', g.close(w[0], dt))
    g.ensure('N', g.close(w[1], N))
    g.raises('mode', ValueError, lambda: g.call('signal.fftsample', dt, N, mode='x'))


def dft_ref(a):
    import numpy as np
    n = len(a)
    return np.array([sum(a[t] * np.exp(-2j * np.pi * ((k * t) % n) / n) for t in range(n)) for k in range(n)])


def ft(g, re, im, k, n, N=None):
    """real and imaginary part of sum_t (re + i im)_t exp(-2 pi i k t / N), t < n"""
    N = n if N is None else N
    ang = lambda t: 2 * g.pi * k * t / N
    if im is None:
        return (g.sum(lambda t: el(g, re, t) * g.cos(ang(t)), n), g.sum(lambda t: -el(g, re, t) * g.sin(ang(t)), n))
    return (g.sum(lambda t: el(g, re, t) * g.cos(ang(t)) + el(g, im, t) * g.sin(ang(t)), n),
            g.sum(lambda t: el(g, im, t) * g.cos(ang(t)) - el(g, re, t) * g.sin(ang(t)), n))


@unit('C11', ['signal.dft'], n=150, fork={'method': 3})
def dft(g):
    """both methods, any length, real and complex series: sum_t a_t exp(-2 pi i k t / N) for k = 0 .. N-1"""
    n = g.dim('n', 1)
    re = g.reals('a', (n,), samp=(-3, 3))
    im = g.reals('b', (n,), samp=(-3, 3)) if g.flag('complex') else None
    re0, im0 = g.snap(re), None if im is None else g.snap(im)
    a = re if im is None else re + 1j * im
    meth = g.choose('method', ['default', 'loop', 'matmul'])
    r = g.call('signal.dft', a) if meth == 'default' else g.call('signal.dft', a, method=meth)
    g.shape('shape', r, (n,))
    g.forall('real part', (n,), lambda k: g.close(el(g, r.real, k), ft(g, re0, im0, k, n)[0], 1e-7, 1e-7))
    g.forall('imaginary part', (n,), lambda k: g.close(el(g, r.imag, k), ft(g, re0, im0, k, n)[1], 1e-7, 1e-7))
    if im is None:
        g.unchanged('input kept', a, re0)
    g.raises('method', ValueError, lambda: g.call('signal.dft', a, method='fft'))


@unit('C11', ['signal.ezfft'], n=100, assume=['scipy.fftpack.fft: the defining sum'])
def ezfft(g):
    """floor(N/2) non-negative frequencies k/(N dt) and the transform at these"""
    n = g.dim('n', 2)
    a = g.reals('a', (n,), samp=(-3, 3))
    a0 = g.snap(a)
    dt = g.real('dt', lo=g.frac(1, 100), samp=(.01, 5))
    how = g.choose('dt given', ['no', 'keyword', 'positional'])
    f, y = g.call('signal.ezfft', a) if how == 'no' else (g.call('signal.ezfft', a, dt=dt) if how == 'keyword' else g.call('signal.ezfft', a, dt))
    d = 1 if how == 'no' else dt
    m = n // 2
    g.shape('frequencies', f, (m,))
    g.shape('values', y, (m,))
    g.forall('frequency', (m,), lambda k: g.close(el(g, f, k) * n * d, k))
    g.forall('real part', (m,), lambda k: g.close(el(g, y.real, k), ft(g, a0, None, k, n)[0], 1e-7, 1e-7))
    g.forall('imaginary part', (m,), lambda k: g.close(el(g, y.imag, k), ft(g, a0, None, k, n)[1], 1e-7, 1e-7))
    g.unchanged('input kept', a, a0)


@unit('C11', ['signal.dft'], mode='bounded', n=300, why='floating point of long series')
def dft_bounded(g):
    """both methods: sum_t a_t exp(-2 pi i k t / N), real and complex series"""
    import numpy as np
    n = g.int('n', 1, samp=(1, 24))
    a = g.reals('a', (n,), samp=(-3, 3))
    if g.flag('complex'):
        a = a + 1j * g.reals('b', (n,), samp=(-3, 3))
    a0 = a.copy()
    meth = g.choose('method', ['default', 'loop', 'matmul'])
    r = g.call('signal.dft', a) if meth == 'default' else g.call('signal.dft', a, method=meth)
    g.ensure('shape', r.shape == (n,))
    g.ensure('transform', np.allclose(r, dft_ref(a0), atol=1e-8))
    g.ensure('input kept', np.array_equal(a, a0))
    g.raises('method', ValueError, lambda: g.call('signal.dft', a, method='fft'))


@unit('C11', ['signal.ezfft'], mode='bounded', n=300, why='floating point of long series')
def ezfft_bounded(g):
    """non-negative frequencies k/(N dt) and the transform at these"""
    import numpy as np
    n = g.int('n', 2, samp=(2, 30))
    a = g.reals('a', (n,), samp=(-3, 3))
    dt = g.real('dt', samp=(.01, 5))
    a0 = a.copy()
    f, y = g.call('signal.ezfft', a, dt=dt) if g.flag('dt given') else g.call('signal.ezfft', a)
    if g.flag('positional'):
        f, y = g.call('signal.ezfft', a, dt)
        d = dt
    else:
        f, y = g.call('signal.ezfft', a, dt=dt)
        d = dt
    m = n // 2
    g.ensure('frequencies', f.shape == (m,) and np.allclose(f, np.arange(m) / (n * d), rtol=1e-10, atol=0))
    g.ensure('transform', y.shape == (m,) and np.allclose(y, dft_ref(a0)[:m], atol=1e-8))
    f1, y1 = g.call('signal.ezfft', a)
    g.ensure('default dt', np.allclose(f1, np.arange(m) / n) and np.allclose(y1, y, atol=1e-12))
    g.ensure('input kept', np.array_equal(a, a0))


def trapz(g, y, x, n):
    return g.sum(lambda k: (el(g, x, k + 1) - el(g, x, k)) * (el(g, y, k + 1) + el(g, y, k)) / 2, n - 1)


@unit('C11', ['num.norm_int'], assume=['scipy.integrate.trapezoid: composite trapezoidal rule'], n=200)
def norm_int_trapz(g):
    """with any area: y times one factor, so that the integral is the area (trapezoidal rule given)"""
    n = g.dim('n', 2)
    y, x = g.reals('y', (n,), samp=(0, 2)), g.reals('x', (n,), samp=(0, 10))
    if not g.sym:
        x.sort()
        y += .01
    A = g.real('area', lo=g.frac(1, 100), samp=(.1, 200))
    y0, x0 = g.snap(y), g.snap(x)
    I0 = trapz(g, y0, x0, n)
    g.require(I0 > g.frac(1, 100))
    kw = {}
    how = g.choose('scale', ['default', False, True])
    if how != 'default':
        kw['scale'] = how
    default = g.flag('default area')
    if not default:
        kw['area'] = A
    f = lambda yy, x: trapz(g, yy, x, n)
    r = g.call('num.norm_int', y, x, func=f, **kw)
    g.shape('shape', r, (n,))
    g.forall('one factor', (n,), lambda i: g.close(el(g, r, i) * I0, el(g, y0, i) * (1 if default else A)))
    g.unchanged('x kept', x, x0)
    g.unchanged('y kept', y, y0)


def simpson_rule(g, y, x, n):
    """composite Simpson rule for irregular spacing (n odd), Cartwright's correction for the last interval (n even), as in scipy"""
    Y, X = lambda k: el(g, y, k), lambda k: el(g, x, k)
    h = lambda k: X(k + 1) - X(k)

    def seg(j):
        a, b = h(2 * j), h(2 * j + 1)
        return (a + b) / 6 * (Y(2 * j) * (2 - b / a) + Y(2 * j + 1) * (a + b) * (a + b) / (a * b) + Y(2 * j + 2) * (2 - a / b))
    if n is None:
        return h(0) * (Y(0) + Y(1)) / 2
    even = isinstance(n, tuple)
    n = n[0] if even else n
    r = g.sum(seg, (n - 2) // 2 if even else (n - 1) // 2)
    if even:
        a, b = h(n - 3), h(n - 2)
        r = r + (2 * b * b + 3 * a * b) / (6 * (a + b)) * Y(n - 1) + (b * b + 3 * a * b) / (6 * a) * Y(n - 2) - b * b * b / (6 * a * (a + b)) * Y(n - 3)
    return r


@unit('C11', ['num.norm_int'], assume=['scipy.integrate.simpson: composite Simpson rule with Cartwright correction (compared with scipy by tools/selftest.py)'], n=200, fork={'points': 3, 'default area': 2})
def norm_int_simpson(g):
    """with the default integrator: y times one factor, so that the integral (Simpson) is the area"""
    par = g.choose('points', ['odd', 'even', 'two'])
    if par == 'two':
        n = 2
    else:
        K = g.int('K', 1, samp=(1, 8))
        n = 2 * K + (1 if par == 'odd' else 2)
    y, x = g.reals('y', (n,), samp=(0, 2)), g.reals('x', (n,), samp=(0, 10))
    if g.sym:
        g.require_all((n - 1,), lambda k: x[k + 1] > x[k])
        g.require(x[0] >= 0)
    else:
        x = x.cumsum() + 1 + .3 * g.np.arange(n)
        y += .01
    A = g.real('area', lo=g.frac(1, 100), samp=(.1, 200))
    y0, x0 = g.snap(y), g.snap(x)
    I0 = simpson_rule(g, y0, x0, None if par == 'two' else (n,) if par == 'even' else n)
    g.require(I0 > g.frac(1, 100))
    kw = {}
    how = g.choose('scale', ['default', False, True])
    if how != 'default':
        kw['scale'] = how
    default = g.flag('default area')
    if not default:
        kw['area'] = A
    r = g.call('num.norm_int', y, x, **kw)
    g.shape('shape', r, (n,))
    g.forall('one factor', (n,), lambda i: g.close(el(g, r, i) * I0, el(g, y0, i) * (1 if default else A)))
    g.unchanged('x kept', x, x0)
    g.unchanged('y kept', y, y0)


@unit('C11', ['num.norm_int'], mode='bounded', n=300, why='floating point: units far from 1')
def norm_int(g):
    """the same with the default integrator"""
    import numpy as np
    from scipy.integrate import simpson
    n = g.int('n', 2, samp=(2, 30))
    x = np.cumsum(g.reals('dx', (n,), samp=(.5, 1.5))) - g.real('x0', samp=(0, 3))
    x *= g.choose('unit', [1, 1e-3, 1e13])
    y = g.reals('y', (n,), samp=(.05, 2)) * g.choose('yunit', [1, 1e-8, 1e9])
    g.require(abs(x).max() > 0)
    A = g.real('area', samp=(.1, 200))
    kw = {'scale': g.flag('scale')} if g.flag('scale given') else {}
    y0, x0 = y.copy(), x.copy()
    r = g.call('num.norm_int', y, x, area=A, **kw)
    I0 = simpson(y0, x=x0)
    g.require(I0 > 0)
    g.ensure('area', abs(simpson(r, x=x0) - A) < 1e-8 * A)
    g.ensure('one factor', np.allclose(r, y0 * A / I0, rtol=1e-8))
    g.ensure('default area', np.allclose(g.call('num.norm_int', y, x, **kw), y0 / I0, rtol=1e-8))
    g.ensure('inputs kept', np.array_equal(y, y0) and np.array_equal(x, x0))


def nextpow(n):
    k = 1
    while k < n:
        k *= 2
    return k


def power(g, v, N, m):
    """sum over atoms (mass weighted) and directions of |DFT|^2 of the series padded to N points"""
    import numpy as np
    n, nat, _ = v.shape
    k = np.arange(N)
    F = np.exp(-2j * np.pi * (np.outer(k, np.arange(n)) % N) / N)
    P = np.zeros(N)
    for i in range(nat):
        for d in range(3):
            P += np.abs(F @ v[:, i, d]) ** 2 * (1 if m is None else m[i])
    return P


def welch_ref(n):
    import numpy as np
    h = (n - 1) / 2.
    return np.array([1 - ((t - (n - 1) / 2.) / h) ** 2 for t in range(n)])


def pdos_data(g):
    import numpy as np
    n, nat = g.int('n', 5, samp=(5, 24)), g.int('natoms', 1, samp=(1, 4))
    v = g.reals('v', (n, nat, 3), samp=(-2, 2))
    g.require((v ** 2).sum() > .1)
    m = g.reals('m', (nat,), samp=(1, 50)) if g.flag('masses') else None
    dt = g.choose('dt', [1.0, .5, 2.5, 1e-15])
    area = g.choose('area', [1.0, 3.0, 12.5])
    return n, nat, v, m, dt, area


def dos_ok(g, out, P, N, dt, area):
    import numpy as np
    from scipy.integrate import simpson
    f, d = out
    k = N // 2
    g.ensure('frequencies are k/(N dt)', f.shape == (k,) and np.allclose(f, np.arange(k) / (N * dt), rtol=1e-10, atol=0))
    g.ensure('one value per frequency', d.shape == (k,))
    g.ensure('non-negative', bool((d >= 0).all()))
    fx = f.max()
    I = simpson(P[:k], x=f / fx) * fx
    g.require(I > 1e-6 * P[:k].max() * fx)
    g.ensure('density', np.allclose(d, P[:k] * area / I, rtol=1e-6, atol=1e-8 * d.max()))
    g.ensure('area', abs(simpson(d, x=f / fx) * fx - area) < 1e-7 * area)


def norm_contract(g, rec):
    """num.norm_int by its contract (units norm_int_trapz, norm_int): y * area / integral(y over x)"""
    if not g.sym:
        return
    def f(y, x, area=1.0, scale=True, func=None):
        I = g.real('I%d' % len(rec), lo=g.frac(1, 1000))
        rec.append((g.snap(y), g.snap(x), area, I))
        return y * area / I
    g.override('num.norm_int', f)


def normalised(g, rec, out, P, N, dt, area):
    """out = (frequencies k/(N dt), P * area / integral of P over these), k < N // 2"""
    k = N // 2
    g.shape('frequencies', out[0], (k,))
    g.shape('one value per frequency', out[1], (k,))
    g.forall('frequencies are k/(N dt)', (k,), lambda i: g.close(el(g, out[0], i) * N * dt, i))
    if g.sym:
        g.ensure('normalised once', len(rec) == 1)
        y, x, a, I = rec[0]
        g.shape('integrated over the frequencies', x, (k,))
        g.shape('integrated spectrum', y, (k,))
        g.forall('integrated over the frequencies', (k,), lambda i: g.close(el(g, x, i), el(g, out[0], i)))
        g.forall('integrated spectrum', (k,), lambda i: g.close(el(g, y, i), P(i)))
        g.ensure('area', g.close(a, area))
        g.forall('density', (k,), lambda i: g.close(el(g, out[1], i) * I, P(i) * area))
    else:
        import numpy as np
        from scipy.integrate import simpson
        y, f = np.array([P(i) for i in range(k)]), np.asarray(out[0])
        I = simpson(y, x=f / f.max()) * f.max()
        g.require(I > 1e-6 * y.max() * f.max())
        g.forall('density', (k,), lambda i: abs(out[1][i] - y[i] * area / I) <= 1e-6 * abs(out[1]).max())


def windowed(g, v0, n, win):
    if not win:
        return lambda t, i, d: el(g, v0, t, i, d)
    h = (n - 1) * g.frac(1, 2)
    return lambda t, i, d: el(g, v0, t, i, d) * (1 - ((t - h) / h) * ((t - h) / h))


def fullfreq(g, name, f, N, dt):
    g.shape(name, f, (N,))
    g.forall(name, (N,), lambda i: g.close(el(g, f, i) * N * dt, g.ite(i < (N + 1) // 2, i, i - N)))


@unit('C11', ['pydos.pdos', 'pydos.direct_pdos', 'signal.pad_zeros', 'signal.welch'], n=60, budget=300, fork={'how': 3, 'full_out': 2, 'window': 2},
      assume=['scipy.fftpack.fft: the defining sum', 'num.norm_int: contract of units norm_int_trapz, norm_int_simpson'])
def pdos_direct(g):
    """any number of steps and atoms, padding factors up to 2: density = mass weighted power spectrum of the windowed, padded
    velocities over the frequencies k/(N dt), times area / integral"""
    n, nat = g.dim('n', 3), g.dim('natoms', 1)
    v = g.reals('v', (n, nat, 3), samp=(-2, 2))
    v0 = g.snap(v)
    how = g.choose('how', ['pdos', 'direct_pdos', 'direct_pdos default'])
    m = g.reals('m', (nat,), samp=(1, 50)) if how != 'pdos' or g.flag('masses') else None
    m0 = None if m is None else g.snap(m)
    dt, area = g.real('dt', lo=g.frac(1, 100), samp=(.1, 5)), g.real('area', lo=g.frac(1, 100), samp=(.1, 20))
    win, full = g.flag('window'), g.flag('full_out')
    kw = {'dt': dt, 'm': m, 'area': area, 'window': win, 'full_out': full}
    npad = g.choose('npad', [None, 0, 1, 2]) if how != 'direct_pdos default' else 1
    if how != 'direct_pdos default':
        kw['npad'] = npad
    N = n if npad is None else n + npad * (n - 1)
    rec = []
    norm_contract(g, rec)
    out = g.call('pydos.' + how.split()[0], v, **kw)
    w = windowed(g, v0, n, win)
    ang = lambda k, t: 2 * g.pi * k * t / N

    def P(k):
        def one(i, d):
            re = g.sum(lambda t: w(t, i, d) * g.cos(ang(k, t)), n)
            im = g.sum(lambda t: -(w(t, i, d) * g.sin(ang(k, t))), n)
            return (re * re + im * im) * (1 if m is None else el(g, m0, i))
        return g.sum(lambda i: one(i, 0) + one(i, 1) + one(i, 2), nat)
    g.ensure('outputs', len(out) == (5 if full else 2))
    normalised(g, rec, out[:2], P, N, dt, area)
    if full:
        fullfreq(g, 'full frequencies', out[2], N, dt)
        g.shape('full spectrum', out[3], (N,))
        g.forall('full spectrum', (N,), lambda k: g.close(el(g, out[3], k), P(k), 1e-6, 1e-8))
        g.ensure('split index', out[4] == N // 2)
    g.unchanged('velocities kept', v, v0)
    if m is not None:
        g.unchanged('masses kept', m, m0)


@unit('C11', ['pydos.pdos', 'pydos.direct_pdos', 'signal.welch'], n=60, budget=300, fork={'how': 2, 'full_out': 2, 'window': 2},
      assume=['scipy.fftpack.fft: the defining sum', 'num.norm_int: contract of units norm_int_trapz, norm_int_simpson',
              'signal.pad_zeros with tonext: contract proved in C12.tonext (zeros at the end, length a power of two in [tonext_min, 2 tonext_min))'])
def pdos_tonext(g):
    """the same, padded to a power of two not below the padded length"""
    n, nat = g.dim('n', 3), g.dim('natoms', 1)
    v = g.reals('v', (n, nat, 3), samp=(-2, 2))
    v0 = g.snap(v)
    how = g.choose('how', ['pdos', 'direct_pdos'])
    m = g.reals('m', (nat,), samp=(1, 50)) if how != 'pdos' or g.flag('masses') else None
    m0 = None if m is None else g.snap(m)
    dt, area = g.real('dt', lo=g.frac(1, 100), samp=(.1, 5)), g.real('area', lo=g.frac(1, 100), samp=(.1, 20))
    win, full = g.flag('window'), g.flag('full_out')
    npad = g.choose('npad', [0, 1, 2])
    M = n + npad * (n - 1)
    pads = []
    if g.sym:
        def pad(arr, axis=0, where='end', nadd=None, upto=None, tonext=None, tonext_min=None):
            if not (axis == 0 and where == 'end' and nadd is None and upto is None and tonext is True and tonext_min is not None):
                raise Unsupported('arguments outside the contract of pad_zeros used here')
            g.ensure('padded to at least', g.land(tonext_min == M, arr.shape[0] == n))
            N = g.int('N%d' % len(pads), 1)
            g.require(g.land(N >= M, N < 2 * M))
            pads.append(N)
            src = g.snap(arr)
            return g.array((N,) + tuple(arr.shape[1:]), lambda t, *ix: g.ite(t < n, el(g, src, t, *ix), 0))
        g.override('pydos.pad_zeros', pad)
    rec = []
    norm_contract(g, rec)
    out = g.call('pydos.' + how, v, dt=dt, m=m, area=area, window=win, full_out=full, npad=npad, tonext=True)
    if g.sym:
        g.ensure('padded once', len(pads) == 1)
        N = pads[0]
    else:
        N = nextpow(M)
    w = windowed(g, v0, n, win)
    ang = lambda k, t: 2 * g.pi * k * t / N

    def P(k):
        def one(i, d):
            re = g.sum(lambda t: w(t, i, d) * g.cos(ang(k, t)), n)
            im = g.sum(lambda t: -(w(t, i, d) * g.sin(ang(k, t))), n)
            return (re * re + im * im) * (1 if m is None else el(g, m0, i))
        return g.sum(lambda i: one(i, 0) + one(i, 1) + one(i, 2), nat)
    g.ensure('outputs', len(out) == (5 if full else 2))
    normalised(g, rec, out[:2], P, N, dt, area)
    if full:
        fullfreq(g, 'full frequencies', out[2], N, dt)
        g.shape('full spectrum', out[3], (N,))
        g.forall('full spectrum', (N,), lambda k: g.close(el(g, out[3], k), P(k), 1e-6, 1e-8))
        g.ensure('split index', out[4] == N // 2)
    g.unchanged('velocities kept', v, v0)
    if m is not None:
        g.unchanged('masses kept', m, m0)


@unit('C11', ['pydos.pdos', 'pydos.vacf_pdos', 'signal.mirror', 'signal.welch'], n=60, budget=300, fork={'how': 3, 'full_out': 2, 'window': 2},
      assume=['scipy.fftpack.fft: the defining sum', 'num.norm_int: contract of units norm_int_trapz, norm_int_simpson',
              'pydos.fvacf: contract proved in C10.fvacf'])
def pdos_vacf(g):
    """any number of steps and atoms: density = |transform| of the (mirrored) autocorrelation of the windowed velocities"""
    n, nat = g.dim('n', 3), g.dim('natoms', 1)
    v = g.reals('v', (n, nat, 3), samp=(-2, 2))
    v0 = g.snap(v)
    how = g.choose('how', ['pdos', 'vacf_pdos', 'vacf_pdos default'])
    m = g.reals('m', (nat,), samp=(1, 50)) if how != 'pdos' or g.flag('masses') else None
    m0 = None if m is None else g.snap(m)
    dt, area = g.real('dt', lo=g.frac(1, 100), samp=(.1, 5)), g.real('area', lo=g.frac(1, 100), samp=(.1, 20))
    win, full = g.flag('window'), g.flag('full_out')
    mirr = True if how == 'vacf_pdos default' else g.flag('mirr')
    kw = {'dt': dt, 'm': m, 'area': area, 'window': win, 'full_out': full}
    if how != 'vacf_pdos default':
        kw['mirr'] = mirr
    if how == 'pdos':
        kw['method'] = 'vacf'
        if g.flag('npad 0'):
            kw['npad'] = 0
    rec, calls = [], []
    norm_contract(g, rec)
    w = windowed(g, v0, n, win)
    if g.sym:
        c = g.reals('vacf', (n,))

        def fvacf(vel, m=None, method=2, nthreads=None):
            calls.append((g.snap(vel), m if m is None else g.snap(m)))
            return c.copy()
        g.override('pydos.fvacf', fvacf)
    else:
        mm = [1.0] * nat if m is None else list(m)
        c = [sum(w(j, i, d) * w(j + t, i, d) * mm[i] for j in range(n - t) for i in range(nat) for d in range(3)) for t in range(n)]
        g.require(c[0] > .1)
        c = [x / c[0] for x in c]
    out = g.call('pydos.' + how.split()[0], v, **kw)
    C = lambda t: el(g, c, t) if g.sym else c[t]
    if g.sym:
        g.ensure('one autocorrelation', len(calls) == 1)
        a, mw = calls[0]
        g.shape('windowed velocities', a, (n, nat, 3))
        g.forall('windowed velocities', (n, nat, 3), lambda t, i, d: g.close(el(g, a, t, i, d), w(t, i, d)))
        g.ensure('masses passed', (mw is None) == (m is None))
        if m is not None:
            g.shape('masses passed', mw, (nat,))
            g.forall('masses passed', (nat,), lambda i: g.close(el(g, mw, i), el(g, m0, i)))
    N = 2 * n - 1 if mirr else n
    ang = lambda k, t: 2 * g.pi * k * t / N

    def tr(k):
        if not mirr:
            return (g.sum(lambda t: C(t) * g.cos(ang(k, t)), n), g.sum(lambda t: -(C(t) * g.sin(ang(k, t))), n))
        return (g.sum(lambda t: C(n - 1 - t) * g.cos(ang(k, t)), n) + g.sum(lambda t: C(t - n + 1) * g.cos(ang(k, t)), N, n),
                g.sum(lambda t: -(C(n - 1 - t) * g.sin(ang(k, t))), n) + g.sum(lambda t: -(C(t - n + 1) * g.sin(ang(k, t))), N, n))

    def P(k):
        re, im = tr(k)
        return g.sqrt(re * re + im * im)
    g.ensure('outputs', len(out) == (7 if full else 2))
    normalised(g, rec, out[:2], P, N, dt, area)
    if full:
        fullfreq(g, 'full frequencies', out[2], N, dt)
        g.shape('full spectrum', out[3], (N,))
        g.forall('full spectrum', (N,), lambda k: g.close(el(g, out[3], k), P(k), 1e-6, 1e-8))
        g.ensure('split index', out[4] == N // 2)
        g.shape('vacf', out[5], (n,))
        g.forall('vacf', (n,), lambda t: g.close(el(g, out[5], t), C(t), 1e-6, 1e-8))
        g.shape('transform', out[6], (N,))
        g.forall('transform', (N,), lambda k: g.land(g.close(el(g, out[6].real, k), tr(k)[0], 1e-6, 1e-7), g.close(el(g, out[6].imag, k), tr(k)[1], 1e-6, 1e-7)))
    g.unchanged('velocities kept', v, v0)
    if m is not None:
        g.unchanged('masses kept', m, m0)
    if how == 'pdos':
        g.raises('padding with vacf', AssertionError, lambda: g.call('pydos.pdos', v, method='vacf', npad=1))
        g.raises('masses', AssertionError, lambda: g.call('pydos.pdos', v, m=g.reals('m2', (nat + 1,), samp=(1, 50))))
        g.raises('directions', AssertionError, lambda: g.call('pydos.pdos', g.reals('v2', (n, nat, 2), samp=(-1, 1))))


@unit('C11', ['pydos.pdos', 'pydos.direct_pdos', 'signal.pad_zeros', 'signal.welch', 'num.norm_int'], mode='bounded', n=400, why='scipy.fftpack.fft, simpson')
def direct(g):
    """power spectrum of the windowed and padded velocities, mass weighted, normalised; frequencies k/(N dt)"""
    import numpy as np
    n, nat, v, m, dt, area = pdos_data(g)
    win = g.flag('window')
    v0 = v.copy()
    m0 = None if m is None else m.copy()
    w = v * (welch_ref(n)[:, None, None] if win else 1)
    how = g.choose('how', ['pdos', 'direct_pdos', 'direct_pdos default'])
    kw = {'dt': dt, 'm': m, 'area': area, 'window': win}
    if win and g.flag('default window'):
        kw.pop('window')
    tonext = g.flag('tonext')
    npad = g.choose('npad', [None, 0, 1, 2, 3]) if how != 'direct_pdos default' else 1
    if how != 'direct_pdos default':
        kw['npad'] = npad
    if how == 'pdos' and g.flag('method given'):
        kw['method'] = 'direct'
    kw['tonext'] = tonext
    if how == 'direct_pdos' and tonext and g.flag('old name'):
        kw['pad_tonext'] = kw.pop('tonext')
    N = n if npad is None else n + npad * (n - 1)
    if tonext and npad is not None:
        N = nextpow(N)
    full = g.flag('full_out')
    if full:
        kw['full_out'] = True
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = g.call('pydos.pdos' if how == 'pdos' else 'pydos.direct_pdos', v, **kw)
    P = power(g, w, N, m0)
    g.ensure('outputs', len(out) == (5 if full else 2))
    dos_ok(g, out[:2], P, N, dt, area)
    if full:
        f = np.arange(N)
        f = np.where(f < (N + 1) // 2, f, f - N) / (N * dt)
        g.ensure('full frequencies', np.allclose(out[2], f, rtol=1e-10, atol=0))
        g.ensure('full spectrum', np.shape(out[3]) == (N,) and np.allclose(out[3], P, rtol=1e-7, atol=1e-8 * P.max()))
        g.ensure('split index', out[4] == N // 2)
    g.ensure('velocities kept', np.array_equal(v, v0))
    if m is not None:
        g.ensure('masses kept', np.array_equal(m, m0))


@unit('C11', ['pydos.pdos', 'pydos.vacf_pdos', 'pydos.fvacf', 'signal.mirror'], mode='bounded', n=300, why='scipy.fftpack.fft, simpson')
def vacf(g):
    """|transform| of the (mirrored) velocity autocorrelation, normalised; the mirrored one equals the direct method with
    one-fold padding"""
    import numpy as np
    n, nat, v, m, dt, area = pdos_data(g)
    win = g.flag('window')
    v0 = v.copy()
    w = v * (welch_ref(n)[:, None, None] if win else 1)
    how = g.choose('how', ['pdos', 'vacf_pdos', 'vacf_pdos default'])
    mirr = True if how == 'vacf_pdos default' else g.flag('mirr')
    kw = {'dt': dt, 'm': m, 'area': area, 'window': win}
    if how != 'vacf_pdos default':
        kw['mirr'] = mirr
    if how == 'pdos':
        kw['method'] = 'vacf'
        if g.flag('npad 0'):
            kw['npad'] = 0
    full = g.flag('full_out')
    if full:
        kw['full_out'] = True
    out = g.call('pydos.pdos' if how == 'pdos' else 'pydos.vacf_pdos', v, **kw)
    mm = np.ones(nat) if m is None else m
    c = np.array([sum((w[j] * w[j + t] * mm[:, None]).sum() for j in range(n - t)) for t in range(n)])
    c /= c[0]
    s = np.concatenate([c[::-1], c[1:]]) if mirr else c
    N = len(s)
    P = np.abs(dft_ref(s))
    g.ensure('outputs', len(out) == (7 if full else 2))
    dos_ok(g, out[:2], P, N, dt, area)
    if mirr:
        ref = g.call('pydos.direct_pdos', v, dt=dt, m=m, area=area, window=win, npad=1, tonext=False)
        g.ensure('same as direct: frequencies', np.allclose(out[0], ref[0], rtol=1e-10, atol=0))
        g.ensure('same as direct: density', np.allclose(out[1], ref[1], rtol=1e-5, atol=1e-7 * ref[1].max()))
    if full:
        f = np.arange(N)
        f = np.where(f < (N + 1) // 2, f, f - N) / (N * dt)
        g.ensure('full frequencies', np.allclose(out[2], f, rtol=1e-10, atol=0))
        g.ensure('full spectrum', np.allclose(out[3], P, atol=1e-7 * P.max()))
        g.ensure('split index', out[4] == N // 2)
        g.ensure('vacf', np.allclose(out[5], c, atol=1e-8))
        g.ensure('transform', np.allclose(out[6], dft_ref(s), atol=1e-7 * P.max()))
    if how == 'pdos':
        g.raises('padding with vacf', AssertionError, lambda: g.call('pydos.pdos', v, method='vacf', npad=1))
    g.raises('masses', AssertionError, lambda: g.call('pydos.pdos', v, m=np.ones(nat + 1)))
    g.ensure('velocities kept', np.array_equal(v, v0))
