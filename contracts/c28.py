from vc.harness import unit
from .spec import *


def consts(g):
    """SI values: CODATA numbers in the documented units, independent of the code's own constants"""
    c = g.mod('constants')
    return c.kb, c.m0, c.a0


@unit('C28', ['mttk.particle_nhc_masses', 'mttk.barostat_nhc_masses'])
def nhc_masses(g):
    """chain masses: N kb T/w^2 (first) and kb T/w^2 (all others) in m_e a_0^2"""
    baro = g.flag('barostat')
    freq, temp = g.real('freq', lo=g.frac(1, 1000), samp=(1, 1e13)), g.real('temp', lo=0, samp=(0, 5000))
    nnos = 4 if g.flag('default nnos') else g.dim('nnos')
    n = g.int('n', 1, samp=(1, 3000)) if not baro else g.int('n', 1, samp=(1, 4))
    kw = {}
    if not isinstance(nnos, int) or nnos != 4 or g.flag('explicit'):
        kw['nnos'] = nnos
    if baro and g.flag('default ndim'):
        n = 3
    elif baro:
        kw['ndim'] = n
    else:
        kw['nf'] = n
    m = g.call('mttk.barostat_nhc_masses' if baro else 'mttk.particle_nhc_masses', freq, temp, **kw)
    g.ensure('one mass per thermostat', (m.n if hasattr(m, 'n') else len(m)) == nnos)
    kb, m0, a0 = consts(g)
    q = kb * temp / (freq * freq) / m0 / (a0 * a0)
    g.eq('first', m[0], q * n * n if baro else q * n)
    g.forall('chain element', (nnos - 1,), lambda k: g.close(m[k + 1], q))


@unit('C28', ['mttk.barostat_mass_w', 'mttk.barostat_mass_wg'])
def barostat_mass(g):
    """W = (Nf + d) kb T / w^2 and Wg = W / d in m_e a_0^2"""
    wg = g.flag('flexible cell')
    freq, temp = g.real('freq', lo=g.frac(1, 1000), samp=(1, 1e13)), g.real('temp', lo=0, samp=(0, 5000))
    nf, nd = g.int('nf', 1, samp=(1, 3000)), g.int('ndim', 1, samp=(1, 4))
    kw = {'nf': nf}
    if g.flag('default ndim'):
        nd = 3
    else:
        kw['ndim'] = nd
    w = g.call('mttk.barostat_mass_wg' if wg else 'mttk.barostat_mass_w', freq, temp, **kw)
    kb, m0, a0 = consts(g)
    q = (nf + nd) * kb * temp / (freq * freq) / m0 / (a0 * a0)
    g.eq('mass', w * nd if wg else w, q)


@unit('C28', ['constants'])
def units_documented(g):
    """kb in J/K, electron mass in kg, Bohr in m: CODATA to 1e-6"""
    kb, m0, a0 = consts(g)
    for nm, a, b in (('kb', kb, 1.380649e-23), ('m0', m0, 9.1093837015e-31), ('a0', a0, 5.29177210903e-11)):
        g.ensure(nm, abs(float(a) / b - 1) < 1e-5)


@unit('C28', ['mttk.particle_nhc_masses', 'mttk.barostat_nhc_masses'])
def nnos_rejected(g):
    f = g.choose('f', ['mttk.particle_nhc_masses', 'mttk.barostat_nhc_masses'])
    g.raises('nnos < 1', AssertionError, lambda: g.call(f, 1e12, 300, nnos=g.choose('n', [0, -1]), **({'nf': 3} if 'part' in f else {})))
