from vc.harness import unit
from .spec import *


def el(g, a, *i):
    return a.elem(*i) if g.sym and hasattr(a, 'elem') else a[i]


QUANT = {'evib': 'vibrational_internal_energy', 'cv': 'isochoric_heat_capacity', 'fvib': 'vibrational_free_energy', 'svib': 'vibrational_entropy'}


def units(g):
    """hc [J cm] , kB [J/K], eV [J]"""
    c = g.mod('constants')
    if not g.sym:
        return c.hplanck * c.c0 * 100, c.kb, c.eV
    if not hasattr(g, 'cst'):
        # the proofs hold for arbitrary positive values of the constants
        g.cst = [g.real(n, lo=g.frac(1, 10 ** 40)) for n in ('c_h', 'c_c0', 'c_kb', 'c_eV')]
        for n, v in zip(('hplanck', 'c0', 'kb', 'eV'), g.cst):
            g.override('thermo.' + n, v)
    return g.cst[0] * g.cst[1] * 100, g.cst[2], g.cst[3]


def mode(g, q, f, T):
    """one harmonic oscillator of wave number f at T: U, F in eV; C, S in kB"""
    h, kb, eV = units(g)
    x = h * f / (kb * T)
    if not g.sym and x > 500:
        # beyond the range of exp and sinh
        return {'evib': h * f / 2 / eV, 'fvib': h * f / 2 / eV, 'cv': 0.0, 'svib': 0.0}[q]
    if q == 'evib':
        return h * f * (g.frac(1, 2) + 1 / (g.exp(x) - 1)) / eV
    if q == 'fvib':
        return kb * T * g.log(2 * g.sinh(x / 2)) / eV
    if q == 'cv':
        s = g.sinh(x / 2)
        return x * x / (4 * s * s)
    return x / 2 * g.cosh(x / 2) / g.sinh(x / 2) - g.log(2 * g.sinh(x / 2))


def dosdata(g, n=None):
    n = g.dim('n') if n is None else n
    f = g.reals('f', (n,), lo=g.frac(1, 1000), samp=(1, 2000))
    if not g.sym:
        f.sort()
    d = g.reals('dos', (n,), samp=(0, 2))
    return n, f, d


def integral(g, fn, f, n):
    F = f if callable(f) else lambda k: el(g, f, k)
    return g.sum(lambda k: (F(k + 1) - F(k)) * (fn(k + 1) + fn(k)) / 2, n - 1)


@unit('C17', ['thermo.HarmonicThermo'] + ['thermo.HarmonicThermo.' + q for q in list(QUANT) + list(QUANT.values())] + ['thermo.HarmonicThermo._integrate', 'thermo.HarmonicThermo._get_temp', 'thermo.coth'],
      fork={'quantity': 4}, n=200, assume=['scipy.integrate.trapezoid: composite trapezoidal rule', 'np.isnan: no NaN in real arithmetic'])
def dos_integrals(g):
    """energy, heat capacity, free energy, entropy at every temperature: trapezoidal DOS-weighted integral of the exact
    oscillator function; temperatures from the constructor or the call"""
    q = g.choose('quantity', list(QUANT))
    units(g)
    n, f, d = dosdata(g)
    nT = g.dim('nT')
    T = g.reals('T', (nT,), lo=g.frac(1, 100), samp=(5, 3000) if g.sym or g.flag('warm') else (.02, 10))
    f0, d0, T0 = g.snap(f), g.snap(d), g.snap(T)
    where = g.choose('where', ['init', 'call', 'temp=', 'override'])
    kw = {'verbose': False}
    if where == 'init':
        kw['T'] = T
    if where == 'override':
        kw['T'] = g.reals('Tx', (g.dim('nX'),), lo=1, samp=(5, 3000))
    ha = g.call('thermo.HarmonicThermo', f, d, **kw) if where != 'temp=' else g.attr('thermo.HarmonicThermo')(freq=f, dos=d, **kw)
    name = q if g.flag('short name') else QUANT[q]
    r = getattr(ha, name)() if where == 'init' else getattr(ha, name)(T) if where != 'temp=' else getattr(ha, name)(temp=T)
    g.shape('one value per temperature', r, (nT,))
    g.forall('integral', (nT,), lambda t: g.close(el(g, r, t), integral(g, lambda k: el(g, d0, k) * mode(g, q, el(g, f0, k), el(g, T0, t)), f0, n),
                                                  **({} if g.sym else {'rtol': 1e-7, 'atol': 1e-9})))
    g.unchanged('frequencies kept', f, f0)
    g.unchanged('dos kept', d, d0)
    g.unchanged('temperatures kept', T, T0)


@unit('C17', ['thermo.HarmonicThermo (mode functions)'], fork={'relation': 3})
def consistency(g):
    """mode by mode: F = U - T S, C = dU/dT, S = -dF/dT (with the unit factor kB/eV)"""
    f, T = g.real('f', lo=g.frac(1, 1000), samp=(20, 2000)), g.real('T', lo=1, samp=(30, 3000))
    h, kb, eV = units(g)
    rel = g.choose('relation', ['F=U-TS', 'C=dU/dT', 'S=-dF/dT'])
    kt = {} if g.sym else {'rtol': 1e-5, 'atol': 1e-8}
    if rel == 'F=U-TS':
        g.ensure(rel, g.close(mode(g, 'fvib', f, T), mode(g, 'evib', f, T) - T * mode(g, 'svib', f, T) * (kb / eV), **kt))
    elif rel == 'C=dU/dT':
        g.ensure(rel, g.close(mode(g, 'cv', f, T) * (kb / eV), g.deriv(lambda t: mode(g, 'evib', f, t), T), **kt))
    else:
        g.ensure(rel, g.close(mode(g, 'svib', f, T) * (kb / eV), -g.deriv(lambda t: mode(g, 'fvib', f, t), T), **kt))


@unit('C17', ['constants'])
def units_documented(g):
    c = g.mod('constants')
    h, kb, eV = c.hplanck * c.c0 * 100, c.kb, c.eV
    t = g.mod('thermo')
    g.ensure('used by thermo', (t.hplanck, t.c0, t.kb, t.eV) == (c.hplanck, c.c0, c.kb, c.eV))
    g.ensure('h c in J cm', abs(float(h) / (6.62607015e-34 * 299792458 * 100) - 1) < 1e-5)
    g.ensure('kb', abs(float(kb) / 1.380649e-23 - 1) < 1e-5)
    g.ensure('eV', abs(float(eV) / 1.602176634e-19 - 1) < 1e-5)


@unit('C17', ['thermo.HarmonicThermo._norm_int', 'thermo.HarmonicThermo.__init__'], n=150)
def dos_area(g):
    """dosarea: the DOS is scaled by one factor so that its integral is the requested area"""
    n, f, d = dosdata(g)
    A = g.real('area', lo=g.frac(1, 10), samp=(.1, 300))
    f0, d0 = g.snap(f), g.snap(d)
    I0 = integral(g, lambda k: el(g, d0, k), f0, n)
    g.require(I0 > (0 if g.sym else 1e-3))
    ha = g.call('thermo.HarmonicThermo', f, d, verbose=False, dosarea=A)
    g.shape('shape', ha.dos, (n,))
    g.forall('scaled', (n,), lambda k: g.close(el(g, ha.dos, k) * I0, el(g, d0, k) * A))
    g.unchanged('dos kept', d, d0)
    g.unchanged('f kept', f, f0)
    g.ensure('frequencies', ha.f is f)


@unit('C17', ['thermo.HarmonicThermo.__init__', 'thermo.HarmonicThermo._integrate'], mode='bounded', n=150, why='selection by a boolean mask and NaN handling')
def skipfreq_fixnan(g):
    """skipfreq drops exactly the points with f <= eps; temperature limits; temp/T errors"""
    import numpy as np
    n, f, d = dosdata(g)
    T = np.sort(g.reals('T', (g.dim('nT'),), lo=1, samp=(5, 3000)))
    k = g.int('bad', 0, samp=(0, 3))
    f2 = np.concatenate((np.linspace(-5, 0, k) if k else [], f))
    d2 = np.concatenate((np.abs(g.reals('d2', (k,), samp=(0, 1))), d))
    f20, d20 = f2.copy(), d2.copy()
    kw = {'fixnan': True, 'nanfill': 0.0} if g.flag('fixnan') else {}
    a = g.call('thermo.HarmonicThermo', f2, d2, T, skipfreq=True, verbose=False, **kw)
    b = g.call('thermo.HarmonicThermo', f, d, T=T, verbose=False)
    for q in QUANT:
        g.eq(q, getattr(a, q)(), getattr(b, q)())
    g.ensure('inputs kept', (f2 == f20).all() and (d2 == d20).all())
    eps = g.real('eps', samp=(1, 1000))
    a = g.call('thermo.HarmonicThermo', f2, d2, T, skipfreq=True, eps=eps, verbose=False)
    g.eq('eps', a.f, f[f > eps])
    g.eq('eps dos', a.dos, d[f > eps])
    # NaNs in the integrand (f = 0) count as nanfill
    f3, d3 = np.concatenate(([0.], f)), np.concatenate(([.7], d))
    c = g.call('thermo.HarmonicThermo', f3, d3, T, verbose=False, fixnan=True)
    with np.errstate(all='ignore'):
        r = c.evib()
    w = [integral(g, lambda k: 0 if k == 0 else d3[k] * mode(g, 'evib', f3[k], t), f3, n + 1) for t in T]
    g.eq('fixnan', r, np.array(w), rtol=1e-7)
    # limits
    hot = g.call('thermo.HarmonicThermo', f, d, T=np.array([1e7]), verbose=False)
    area = integral(g, lambda k: d[k], f, n)
    g.ensure('Dulong-Petit', abs(hot.cv()[0] - area) <= 1e-4 * abs(area) + 1e-9)
    cold = g.call('thermo.HarmonicThermo', f, d, T=np.array([1e-1]), verbose=False)
    h, kb, eV = units(g)
    with np.errstate(all='ignore'):
        g.ensure('zero-point energy', f[0] < 20 or g.close(cold.evib()[0], integral(g, lambda k: d[k] * f[k] / 2, f, n) * h / eV, rtol=1e-6))
    nt = g.call('thermo.HarmonicThermo', f, d, verbose=False)
    g.raises('no temperature', ValueError, lambda: nt.evib())
    g.raises('lengths differ', AssertionError, lambda: g.call('thermo.HarmonicThermo', f3, d, T, verbose=False))


def gibbs_input(g, nax=1):
    N, nf, nT, nP = g.dim('N'), g.dim('nf'), g.dim('nT'), g.dim('nP')
    T, P = g.reals('T', (nT,), lo=1, samp=(5, 3000)), g.reals('P', (nP,), samp=(0, 50))
    ax = g.reals('ax', (N, nax), lo=g.frac(1, 10), samp=(1, 6))
    et = g.reals('et', (N,))
    ph = g.reals('ph', (N, nf, 2), lo=g.frac(1, 1000), samp=(1, 1000))
    if not g.sym:
        ph[:, :, 0].sort(axis=1)
    return N, nf, nT, nP, T, P, ax, et, ph


def fake_fit(g):
    """fit objects for the per-axis fits (not under test here)"""
    return lambda *a: None


@unit('C17', ['thermo.Gibbs.__init__', 'thermo.Gibbs.calc_F', 'thermo.Gibbs.calc_G', 'thermo.Gibbs.calc_H', 'thermo.Gibbs._set_fitax'], fork={'nax': 3, 'what': 3}, n=150,
      assume=['HarmonicThermo through its contract (dos_integrals)'])
def gibbs_grids(g):
    """F = E + Fvib, G = F + P V, H = E + P V at matching grid points, volume of each axes point; any grid sizes"""
    nax = g.choose('nax', [1, 2, 3])
    what = g.choose('what', ['F', 'G', 'H'])
    N, nf, nT, nP, T, P, ax, et, ph = gibbs_input(g, nax)
    units(g)
    pre = ['/ax0', '/ax0-ax1', '/ax0-ax1-ax2'][nax - 1]
    vf = g.func('vol', *['r'] * nax)
    flat1 = nax == 1 and g.flag('1d axes')
    axin = ax[:, 0] if flat1 else ax
    G = g.call('thermo.Gibbs', T=T, P=P, etot=et, phdos=ph, axes_flat=axin, volfunc_ax=lambda x: vf(*[x[k] for k in range(nax)]), skipfreq=False)
    G.set_fitfunc('1d-ax', fake_fit(g))
    fac = g.attr('constants.eV_by_Ang3_to_GPa')
    V = lambda i: vf(*[el(g, ax, i, k) for k in range(nax)])
    call_all = g.flag('all of F') if what == 'F' else False
    r = {'F': G.calc_F, 'G': G.calc_G, 'H': G.calc_H}[what](calc_all=call_all)
    g.shape('V', r[pre + '/V'], (N,))
    g.forall('volume', (N,), lambda i: g.close(el(g, r[pre + '/V'], i), V(i)))
    g.forall('axes', (N,), lambda i: g.land(*[g.same(el(g, r[pre + pre], i, k), el(g, ax, i, k)) for k in range(nax)]))
    g.eq('T', r['/T/T'], T)
    g.eq('P', r['/P/P'], P)
    g.eq('Etot', r[pre + '/Etot'], et)
    F = lambda q: (lambda i, t: integral(g, lambda k: el(g, ph, i, k, 1) * mode(g, q, el(g, ph, i, k, 0), el(g, T, t)), lambda k: el(g, ph, i, k, 0), nf))
    if what in 'FG':
        g.shape('F', r[pre + '/T/F'], (N, nT))
        g.forall('Fvib', (N, nT), lambda i, t: g.close(el(g, r[pre + '/T/Fvib'], i, t), F('fvib')(i, t)))
        g.forall('F', (N, nT), lambda i, t: g.close(el(g, r[pre + '/T/F'], i, t), el(g, et, i) + F('fvib')(i, t)))
    if call_all:
        g.forall('Svib', (N, nT), lambda i, t: g.close(el(g, r[pre + '/T/Svib'], i, t), F('svib')(i, t)))
        g.forall('Cv', (N, nT), lambda i, t: g.close(el(g, r[pre + '/T/Cv'], i, t), F('cv')(i, t)))
    if what == 'G':
        g.shape('G', r['/T/P' + pre + '/G'], (nT, nP, N))
        g.forall('G', (nT, nP, N), lambda t, p, i: g.close(el(g, r['/T/P' + pre + '/G'], t, p, i), el(g, et, i) + F('fvib')(i, t) + V(i) * el(g, P, p) / fac))
    if what == 'H':
        g.shape('H', r['/P' + pre + '/H'], (nP, N))
        g.forall('H', (nP, N), lambda p, i: g.close(el(g, r['/P' + pre + '/H'], p, i), el(g, et, i) + V(i) * el(g, P, p) / fac))


@unit('C17', ['thermo.Gibbs._fit_opt_store', 'thermo.Gibbs._set_not_calc_none', 'thermo.Gibbs.calc_G', 'thermo.Gibbs.calc_H', 'thermo.Gibbs.set_fitfunc', 'thermo.Gibbs._default_fit_1d_G', 'thermo.Gibbs._default_fit_2d_G'],
      mode='bounded', n=25, why='optimum of user supplied fit objects (scipy splines, fmin)')
def gibbs_optimum(g):
    """every optimum (T,P) is the minimum of the fit through the G values of that very (T,P); axes, B, alpha, Cp from matching data"""
    import numpy as np
    from pwtools import num
    fac = g.attr('constants.eV_by_Ang3_to_GPa')
    eV, kb = g.attr('constants.eV'), g.attr('constants.kb')
    two = g.flag('2d')
    nT, nP = g.int('nT', 7, samp=(7, 9)), g.int('nP', 1, samp=(1, 3))
    T, P = np.linspace(50, 900, nT), np.linspace(0, 4, nP)
    freq = np.linspace(1, 900, 60)
    gau = lambda fc: np.exp(-((freq - fc) / 90) ** 2)
    a0 = g.real('a0', samp=(-.2, .2))
    if two:
        a, c = np.linspace(2.5, 3.5, 6), np.linspace(3, 3.8, 6)
        ax = np.array([(x, y) for x in a for y in c])
        vf = lambda x: x[0] ** 2 * x[1]
        et = np.array([2 * (x - a.mean() - a0 / 4) ** 2 + 3 * (y - c.mean() + a0 / 4) ** 2 for x, y in ax])
        ph = [np.array([freq, gau(420 - 4 * vf(x)) * .01]).T for x in ax]
    else:
        V = np.linspace(10, 20, 7)
        ax = V ** (1 / 3.)
        vf = lambda x: x[0] ** 3.0
        et = (V - 15 - 3 * a0) ** 2 * .3
        ph = [np.array([freq, gau(500 - 6 * v) * .02]).T for v in V]
        if g.flag('2d axes'):
            ax = ax[:, None]
    seen = {'G': [], 'alpha': [], 'C': []}
    pre = '/ax0-ax1' if two else '/ax0'
    G = g.call('thermo.Gibbs', T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=vf, case=g.choose('case', [None, '2d' if two else '1d']))
    d1, d2, dA, dC = [G.fitfunc[k] for k in ('1d-G', '2d-G', 'alpha', 'C')]

    def rec(key, f):
        def w(x, y):
            o = f(x, y)
            seen[key].append((np.array(x), np.array(y), o))
            return o
        return w
    G.set_fitfunc('1d-G', rec('G', d1))
    G.set_fitfunc('2d-G', rec('G', d2))
    G.set_fitfunc('alpha', rec('alpha', dA))
    G.set_fitfunc('C', rec('C', dC))
    r = G.calc_G(calc_all=True)
    g.raises('unknown fit function', AssertionError, lambda: G.set_fitfunc('xx', d1))
    g.ensure('one fit per grid point', len(seen['G']) == nP + nT * nP)
    A = ax if ax.ndim == 2 else ax[:, None]
    Vv = np.array([vf(x) for x in A])
    g.eq('V', r[pre + '/V'], Vv)
    # independent spec of the grids
    for t in range(nT):
        for p in range(nP):
            gg = r['/T/P' + pre + '/G'][t, p]
            g.eq('G grid', gg, r[pre + '/T/F'][:, t] + Vv * P[p] / fac)
            if two:
                s = (gg - gg.min()) / (gg.max() - gg.min())
                fit = num.PolyFit(A, s, deg=5, scale=True)
                x = np.array([r['/#opt/T/P/ax0'][t, p], r['/#opt/T/P/ax1'][t, p]])
                g.ensure('optimum value', abs(r['/#opt/T/P/G'][t, p] - (fit(x) * (gg.max() - gg.min()) + gg.min())) < 1e-8)
                xs = np.array([(u, w) for u in np.linspace(a[0], a[-1], 15) for w in np.linspace(c[0], c[-1], 15)])
                g.ensure('minimum', fit(x) <= fit(xs).min() + 1e-6)
                g.ensure('V at optimum', abs(r['/#opt/T/P/V'][t, p] - vf(x)) < 1e-9)
            else:
                fit = num.PolyFit1D(Vv, gg, deg=5, scale=True)
                v = r['/#opt/T/P/V'][t, p]
                vs = np.linspace(Vv[0], Vv[-1], 200)
                g.ensure('minimum', fit(v) <= fit(vs).min() + 1e-9)
                g.eq('optimum value', r['/#opt/T/P/G'][t, p], float(np.ravel(fit(v))[0]))
                g.eq('bulk modulus', r['/#opt/T/P/B'][t, p], float(np.ravel(v * fit(v, der=2))[0]) * fac)
                g.ensure('axis at optimum', abs(r['/#opt/T/P/ax0'][t, p] ** 3 - v) < 1e-2)
    for p in range(nP):
        gh = et + Vv * P[p] / fac
        g.eq('H grid', r['/P' + pre + '/H'][p], gh)
        if not two:
            fit = num.PolyFit1D(Vv, gh, deg=5, scale=True)
            g.eq('optimum H', r['/#opt/P/H'][p], float(np.ravel(fit(r['/#opt/P/V'][p]))[0]))
            g.ensure('H minimum', fit(r['/#opt/P/V'][p]) <= fit(vs).min() + 1e-9)
    for nm in ['V', 'ax0'] + (['ax1'] if two else []):
        for p in range(nP):
            x = r['/#opt/T/P/' + nm][:, p]
            g.eq('alpha ' + nm, r['/#opt/T/P/alpha_' + nm][:, p], num.Spline(T, x, k=5, s=None)(T, der=1) / x, rtol=1e-6, atol=1e-12)
    for p in range(nP):
        g.eq('Cp', r['/#opt/T/P/Cp'][:, p], -T * num.Spline(T, r['/#opt/T/P/G'][:, p] * eV / kb, k=5, s=None)(T, der=2), rtol=1e-6, atol=1e-9)
    for nm in (['ax2', 'B'] if two else ['ax1', 'ax2']):
        g.ensure('not calculated', r['/#opt/T/P/' + nm] is None)
    g.ensure('Svib Cv kept', r[pre + '/T/Svib'].shape == (len(A), nT) and r[pre + '/T/Cv'].shape == (len(A), nT))


@unit('C17', ['thermo.Gibbs.calc_F'], mode='bounded', n=30, why='recorded finding: Evib is stored as Fvib [eV] + T*Svib [kB]')
def gibbs_evib(g):
    """Evib on the grid is Fvib + T Svib in eV"""
    import numpy as np
    N, nf, nT, nP, T, P, ax, et, ph = gibbs_input(g, 1)
    G = g.call('thermo.Gibbs', T=T, P=P, etot=et, phdos=ph, axes_flat=ax, volfunc_ax=lambda x: x[0] ** 3, skipfreq=False)
    G.set_fitfunc('1d-ax', lambda *a: None)
    r = G.calc_F()
    F, S, E = r['/ax0/T/Fvib'], r['/ax0/T/Svib'], r['/ax0/T/Evib']
    h, kb, eV = units(g)
    good = np.allclose(E, F + T * S * (kb / eV))
    g.ensure('Evib is Fvib + T*Svib in either unit', good or np.allclose(E, F + T * S))
    g.ensure('Evib = Fvib + T Svib kB/eV', good)


@unit('C17', ['thermo.debye_func', 'thermo.einstein_func', 'thermo.expansion'], n=100)
def einstein(g):
    """Einstein function 1/(e^x - 1), elementwise"""
    n = g.dim('n')
    x = g.reals('x', (n,), lo=g.frac(1, 100), samp=(.1, 20))
    r = g.call('thermo.einstein_func', x)
    g.shape('shape', r, (n,))
    g.forall('value', (n,), lambda i: g.close(el(g, r, i) * (g.exp(el(g, x, i)) - 1), 1))
