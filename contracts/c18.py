from vc.harness import unit
from .spec import *


def params(g):
    v0 = g.real('v0', lo=g.frac(1, 1000), samp=(1, 60))
    b1 = g.real('b1', samp=(2, 8))
    g.require((b1 > 1) if not g.sym else g.lnot(b1 == 1))
    return {'e0': g.real('e0', samp=(-50, 50)), 'b0': g.real('b0', samp=(.1, 5)), 'b1': b1, 'v0': v0}


def vinet(g, V, p):
    """Vinet et al. 1987: E = E0 + 2 B0 V0/(B1-1)^2 {2 - [5 + 3 B1 (x-1) - 3 x] exp(-3/2 (B1-1)(x-1))}, x = (V/V0)^(1/3)"""
    x = g.cbrt(V / p['v0'])
    b1 = p['b1']
    return p['e0'] + 2 * p['b0'] * p['v0'] / ((b1 - 1) * (b1 - 1)) * (2 - (5 + 3 * b1 * (x - 1) - 3 * x) * g.exp(-3 * (b1 - 1) * (x - 1) / 2))


def der(g, V, p, n):
    return g.deriv(lambda v: vinet(g, v, p), V, n)


@unit('C18', ['eos._vinet', 'eos._vinet_deriv1', 'eos._vinet_deriv2', 'eos.Vinet.evaluate', 'eos.Vinet.deriv', 'eos.EVFunction.__call__'], fork={'order': 3})
def vinet_derivatives(g):
    """energy is the published Vinet expression, der=1 and der=2 its exact derivatives"""
    p = params(g)
    p0 = dict(p)
    V = g.real('V', lo=g.frac(1, 1000), samp=(1, 90))
    n = g.choose('order', [0, 1, 2])
    f = g.attr('eos.Vinet')()
    kw = {} if n == 0 and g.flag('default') else {'der': n}
    r = f(V, p, **kw)
    if n == 0:
        g.eq('energy', r, vinet(g, V, p))
    else:
        g.ensure('derivative', g.close(r, der(g, V, p, n), rtol=1e-5, atol=1e-7) if not g.sym else g.close(r, der(g, V, p, n)))
    g.ensure('params kept', all(p[k] is p0[k] for k in p0) and len(p) == 4)


@unit('C18', ['eos._vinet', 'eos._vinet_deriv1', 'eos._vinet_deriv2'])
def vinet_at_minimum(g):
    """E(V0) = E0, E'(V0) = 0, V0 E''(V0) = B0"""
    p = params(g)
    f = g.attr('eos.Vinet')()
    V = p['v0']
    g.eq('energy', f(V, p), p['e0'])
    g.eq('first derivative', f(V, p, der=1), 0)
    g.eq('bulk modulus', V * f(V, p, der=2), p['b0'])


@unit('C18', ['eos.Vinet', 'eos.EVFunction'])
def vinet_array(g):
    """arrays of volumes elementwise; higher orders rejected"""
    p = params(g)
    n = g.dim('n')
    V = g.reals('V', (n,), lo=g.frac(1, 1000), samp=(1, 90))
    V0 = g.snap(V)
    f = g.attr('eos.Vinet')()
    o = g.choose('order', [0, 1, 2])
    r = f(V, p, der=o)
    g.shape('shape', r, (n,))
    g.forall('elementwise', (n,), lambda i: g.close(r[i], f(V[i], p, der=o)))
    g.unchanged('volumes kept', V, V0)
    g.raises('order 3', g.attr('eos.MaxDerivException'), lambda: f(V, p, der=3))


@unit('C18', ['eos.EVFunction.lst2dct', 'eos.EVFunction.dct2lst'])
def param_forms(g):
    """parameter list and dict convert losslessly in the order e0, b0, b1, v0"""
    f = g.attr('eos.Vinet')()
    lst = [g.real(k) for k in ('a', 'b', 'c', 'd')]
    d = f.lst2dct(lst)
    g.ensure('keys', sorted(d) == ['b0', 'b1', 'e0', 'v0'])
    for k, v in zip(['e0', 'b0', 'b1', 'v0'], lst):
        g.eq(k, d[k], v)
    l2 = f.dct2lst(d)
    g.ensure('length', len(l2) == 4)
    for a, b in zip(l2, lst):
        g.eq('list', a, b)
    d3 = f.lst2dct(f.dct2lst({'v0': lst[3], 'b1': lst[2], 'b0': lst[1], 'e0': lst[0]}))
    for k, v in zip(['e0', 'b0', 'b1', 'v0'], lst):
        g.eq('dict ' + k, d3[k], v)


def fitted(g):
    """an EosFit in the state the constructor leaves it in, with arbitrary fitted parameters"""
    E = g.attr('eos.EosFit')
    f = E.__new__(E)
    f.params = params(g)
    f.func = g.attr('eos.Vinet')()
    return f


@unit('C18', ['eos.EosFit.pressure', 'eos.EosFit.bulkmod', 'eos.EosFit.__call__', 'eos.EosFit.get_min'], assume=['constants.eV_by_Ang3_to_GPa: value checked to 1e-6'])
def fit_pressure_bulkmod(g):
    """for arbitrary fitted parameters: P(V) = -dE/dV, B(V) = V d2E/dV2 (GPa) at every volume, scalar or array"""
    f = fitted(g)
    p = f.params
    fac = g.attr('constants.eV_by_Ang3_to_GPa')
    g.ensure('conversion factor', abs(float(fac) / 160.2176634 - 1) < 1e-5)
    arr = g.flag('array')
    if arr:
        n = g.dim('n')
        V = g.reals('V', (n,), lo=g.frac(1, 1000), samp=(1, 90))
        P, B, E = f.pressure(V), f.bulkmod(V), f(V)
        at = lambda q: (lambda i: q[i])
        g.shape('shape P', P, (n,))
        g.shape('shape B', B, (n,))
    else:
        n = 1
        V = [g.real('V', lo=g.frac(1, 1000), samp=(1, 90))]
        P, B, E = [f.pressure(V[0])], [f.bulkmod(V[0])], [f(V[0])]
    tol = {} if g.sym else {'rtol': 1e-5, 'atol': 1e-5}
    el = (lambda q, i: q.elem(i)) if g.sym and arr else (lambda q, i: q[i if not g.sym or arr else 0])
    g.forall('energy', (n,), lambda i: g.close(el(E, i), vinet(g, el(V, i), p)))
    g.forall('pressure', (n,), lambda i: g.close(el(P, i), -der(g, el(V, i), p, 1) * fac, **tol))
    g.forall('bulk modulus', (n,), lambda i: g.close(el(B, i), el(V, i) * der(g, el(V, i), p, 2) * fac, **tol))
    g.eq('minimum', f.get_min(), p['v0'])


@unit('C18', ['eos.EosFit.fit', 'eos.EosFit.__init__', 'eos.EosFit.spl'], mode='bounded', n=60,
      why='scipy.optimize.leastsq (MINPACK) and np.polyfit have no contract stronger than local least-squares optimality')
def fit_recovers(g):
    """fitting exact Vinet data recovers its parameters, and the fit interpolates the data"""
    import numpy as np
    p = {'e0': g.real('e0', samp=(-50, 50)), 'b0': g.real('b0', samp=(.2, 3)), 'b1': g.real('b1', samp=(3, 6)), 'v0': g.real('v0', samp=(5, 60))}
    n = g.choose('n', [8, 12, 25])
    V = np.linspace(.85, 1.2, n) * p['v0']
    if g.flag('volumes in any order'):
        V = V[np.random.RandomState(g.int('order', 0, 999, samp=(0, 999))).permutation(n)]
    E = np.array([vinet(g, v, p) for v in V])
    V0, E0 = V.copy(), E.copy()
    f = g.call('eos.EosFit', V, E)
    for k in p:
        g.ensure(k, abs(f.params[k] - p[k]) <= 1e-4 * max(1, abs(p[k])))
    g.eq('energies', f(V), E, rtol=1e-6, atol=1e-6)
    g.ensure('inputs kept', (V == V0).all() and (E == E0).all())
    g.ensure('minimum', abs(f.get_min() - p['v0']) < 1e-3 * p['v0'])
    # order 3 (spline of the fitted curve) is the derivative of order 2
    v = p['v0'] * g.real('x', samp=(.95, 1.1))
    g.ensure('der 3', abs(f(v, der=3) - g.deriv(lambda u: f(u, der=2), v)) < 1e-2 * abs(p['b0'] / p['v0'] ** 2) * 20)


@unit('C18', ['eos.ExternEOS.calc_bv'])
def extern_bulkmod(g):
    """external fit: B = -V dP/dV or V d2E/dV2 of the splines through its data"""
    X = g.attr('eos.ExternEOS')
    f = X.__new__(X)
    n = g.dim('n')
    meth = g.choose('bv_method', ['pv', 'ev'])
    f.set_bv_method(meth)
    ev, pv = g.reals('ev', (n, 2)), g.reals('pv', (n, 2))
    f.ev, f.pv = ev, pv
    S1, S2 = g.func('dP', 'r'), g.func('d2E', 'r')
    calls = []
    el = (lambda q, *i: q.elem(*i)) if g.sym else (lambda q, *i: q[i])

    def spl(F, o):
        def s(v, der=0):
            calls.append((o, der))
            return g.array((n,), lambda i: F(el(v, i)))
        return s
    f.spl_pv, f.spl_ev = spl(S1, 'pv'), spl(S2, 'ev')
    f.try_set_attr = lambda *a: None
    bv = f.calc_bv()
    g.shape('shape', bv, (n, 2))
    fac = 1.602176634e-19 * 1e21
    g.ensure('order of derivative', calls == [('pv', 1)] if meth == 'pv' else calls == [('ev', 2)])
    g.forall('volume', (n,), lambda i: g.same(el(bv, i, 0), el(pv if meth == 'pv' else ev, i, 0)))
    if meth == 'pv':
        g.forall('B', (n,), lambda i: g.close(el(bv, i, 1), -el(pv, i, 0) * S1(el(pv, i, 0))))
    else:
        g.forall('B', (n,), lambda i: g.close(el(bv, i, 1), el(ev, i, 0) * S2(el(ev, i, 0)) * (g.attr('constants.eV') * g.frac(10 ** 21, 1)), rtol=1e-9))
