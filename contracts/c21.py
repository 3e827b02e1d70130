from vc.harness import unit
from .spec import *


@unit('C21', ['crys.cc2celldm', 'crys.celldm2cc'])
def celldm_roundtrip(g):
    """celldm = (a*fac, b/a, c/a, cos alpha, cos beta, cos gamma); back with 1/fac: the identity"""
    cc = g.reals('cc', (6,), samp=(1, 20))
    for k in range(3):
        g.require(cc[k] > g.frac(1, 10))
    if not g.sym:
        cc[3:] = 1 + (cc[3:] - 1) * 178 / 19
    for k in range(3):
        g.require(g.land(cc[3 + k] > 0, cc[3 + k] < 180))
    fac = g.real('fac', lo=g.frac(1, 100), samp=(0.1, 10))
    c0 = g.snap(cc)
    seq = g.flag('list')
    arg = [cc[k] for k in range(6)] if seq else cc
    default = g.flag('default fac')
    if default:
        cd, f = g.call('crys.cc2celldm', arg), 1
    else:
        cd, f = g.call('crys.cc2celldm', arg, fac=fac), fac
    g.shape('celldm shape', cd, (6,))
    ref = [c0[0] * f, c0[1] / c0[0], c0[2] / c0[0]] + [g.cos(rad(g, c0[3 + k])) for k in range(3)]
    for k in range(6):
        g.ensure('celldm %d' % k, g.close(cd[k], ref[k]))
    back = g.call('crys.celldm2cc', cd) if default else g.call('crys.celldm2cc', cd, fac=1 / fac)
    g.shape('cc shape', back, (6,))
    for k in range(6):
        g.ensure('round trip %d' % k, g.close(back[k], c0[k], **({} if g.sym else {'rtol': 1e-6})))
    g.unchanged('input kept', cc, c0)


@unit('C21', ['crys.celldm2cc', 'crys.cc2celldm'])
def celldm2cc(g):
    """the other direction: every celldm with cosines in (-1, 1)"""
    cd = g.reals('celldm', (6,), samp=(-0.99, 0.99))
    if not g.sym:
        cd[:3] = 0.2 + abs(cd[:3]) * 10
    for k in range(3):
        g.require(cd[k] > g.frac(1, 10))
        g.require(g.land(cd[3 + k] > -1, cd[3 + k] < 1))
    fac = g.real('fac', lo=g.frac(1, 100), samp=(0.1, 10))
    d0 = g.snap(cd)
    cc = g.call('crys.celldm2cc', cd, fac=fac)
    ref = [d0[0] * fac, d0[1] * d0[0] * fac, d0[2] * d0[0] * fac] + [deg(g, g.acos(d0[3 + k])) for k in range(3)]
    for k in range(6):
        g.ensure('cc %d' % k, g.close(cc[k], ref[k], **({} if g.sym else {'rtol': 1e-6})))
    back = g.call('crys.cc2celldm', cc, fac=1 / fac)
    for k in range(6):
        g.ensure('round trip %d' % k, g.close(back[k], d0[k], **({} if g.sym else {'atol': 1e-8})))
    g.unchanged('input kept', cd, d0)


NEED = {1: 'a', 2: 'a', 3: 'a', 4: 'ac', 5: 'ax', 6: 'ac', 7: 'ac', 8: 'abc', 9: 'abc', 10: 'abc', 11: 'abc', 12: 'abcz', 13: 'abcz', 14: 'abcxyz'}
POS = 'abcxyz'


def documented(g, ibrav, d):
    """rows, in units of celldm[0], as printed in PWscf's INPUT_PW (version the docstring refers to)"""
    h = g.frac(1, 2)
    if ibrav == 1:
        return [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    if ibrav == 2:
        return [[-h, 0, h], [0, h, h], [-h, h, 0]]
    if ibrav == 3:
        return [[h, h, h], [-h, h, h], [-h, -h, h]]
    if ibrav == 4:
        return [[1, 0, 0], [-h, g.sqrt(3) / 2, 0], [0, 0, d['c']]]
    if ibrav == 5:
        c = d['x']
        tx, ty, tz = g.sqrt((1 - c) / 2), g.sqrt((1 - c) / 6), g.sqrt((1 + 2 * c) / 3)
        return [[tx, -ty, tz], [0, 2 * ty, tz], [-tx, -ty, tz]]
    if ibrav == 6:
        return [[1, 0, 0], [0, 1, 0], [0, 0, d['c']]]
    if ibrav == 7:
        return [[h, -h, h * d['c']], [h, h, h * d['c']], [-h, -h, h * d['c']]]
    b, c = d['b'], d['c']
    if ibrav == 8:
        return [[1, 0, 0], [0, b, 0], [0, 0, c]]
    if ibrav == 9:
        return [[h, b * h, 0], [-h, b * h, 0], [0, 0, c]]
    if ibrav == 10:
        return [[h, 0, c * h], [h, b * h, 0], [0, b * h, c * h]]
    if ibrav == 11:
        return [[h, b * h, c * h], [-h, b * h, c * h], [-h, -b * h, c * h]]
    z = d['z']
    sz = g.sqrt(1 - z * z)
    if ibrav == 12:
        return [[1, 0, 0], [b * z, b * sz, 0], [0, 0, c]]
    if ibrav == 13:
        return [[h, 0, -c * h], [b * z, b * sz, 0], [h, 0, c * h]]
    x, y = d['x'], d['y']
    return [[1, 0, 0], [b * z, b * sz, 0],
            [c * y, c * (x - y * z) / sz, c * g.sqrt(1 + 2 * x * y * z - x * x - y * y - z * z) / sz]]


def gram(g, ibrav, d):
    """scalar products of the vectors in units of a^2: (aa, bb, cc, bc, ac, ab), written from the lattice type, not from
    the vectors, and the volume in units of a^3"""
    q, h = g.frac(1, 4), g.frac(1, 2)
    b, c, x, y, z = [d.get(k) for k in 'bcxyz']
    if ibrav == 1:
        return (1, 1, 1, 0, 0, 0), 1
    if ibrav == 2:                                          # fcc: three 60 degree angles, a/sqrt(2)
        return (h, h, h, q, q, q), q
    if ibrav == 3:                                          # bcc: a*sqrt(3)/2
        return (3 * q, 3 * q, 3 * q, q, -q, q), h
    if ibrav == 4:
        return (1, 1, c * c, 0, 0, -h), c * g.sqrt(3) / 2
    if ibrav == 5:
        return (1, 1, 1, x, x, x), g.sqrt(1 + 2 * x * x * x - 3 * x * x)
    if ibrav == 6:
        return (1, 1, c * c, 0, 0, 0), c
    if ibrav == 7:
        k = h + c * c * q
        return (k, k, k, c * c * q - h, c * c * q, c * c * q), c / 2
    if ibrav == 8:
        return (1, b * b, c * c, 0, 0, 0), b * c
    if ibrav == 9:
        k = (1 + b * b) * q
        return (k, k, c * c, 0, 0, (b * b - 1) * q), b * c / 2
    if ibrav == 10:
        return ((1 + c * c) * q, (1 + b * b) * q, (b * b + c * c) * q, b * b * q, c * c * q, q), b * c / 4
    if ibrav == 11:
        k = (1 + b * b + c * c) * q
        return (k, k, k, (1 - b * b + c * c) * q, (c * c - 1 - b * b) * q, (b * b + c * c - 1) * q), b * c / 2
    if ibrav == 12:
        return (1, b * b, c * c, 0, 0, b * z), b * c * g.sqrt(1 - z * z)
    if ibrav == 13:
        k = (1 + c * c) * q
        return (k, b * b, k, b * z * h, (1 - c * c) * q, b * z * h), b * c * g.sqrt(1 - z * z) / 2
    return (1, b * b, c * c, b * c * x, c * y, b * z), b * c * g.sqrt(1 + 2 * x * y * z - x * x - y * y - z * z)


def ibrav_input(g, ibrav):
    d = {'a': g.real('a', lo=g.frac(1, 100), samp=(0.5, 20))}
    for k in 'bc':
        d[k] = g.real(k, lo=g.frac(1, 100), samp=(0.2, 5))
    for k in 'xyz':
        d[k] = g.real('cos_' + k, samp=(-0.95, 0.95))
        g.require(g.land(d[k] > -1, d[k] < 1))
    if ibrav == 5:
        g.require(d['x'] > -g.frac(1, 2))
    if ibrav == 14:
        x, y, z = d['x'], d['y'], d['z']
        g.require(1 + 2 * x * y * z - x * x - y * y - z * z > g.frac(1, 1000))
    rest = g.flag('unneeded entries None')
    arg = [d[k] if (k in NEED[ibrav] or not rest) else None for k in POS]
    return d, arg


@unit('C21', ['pwscf.ibrav2cell'], fork={'ibrav': 14}, n=300)
def ibrav2cell(g):
    """every ibrav 1..14, every celldm: exactly the documented vectors; lengths, angles and volume those of the lattice"""
    ibrav = g.choose('ibrav', list(range(1, 15)))
    d, arg = ibrav_input(g, ibrav)
    cell = g.call('pwscf.ibrav2cell', ibrav, arg)
    g.shape('shape', cell, (3, 3))
    a = d['a']
    V = documented(g, ibrav, d)
    kt = {} if g.sym else {'rtol': 1e-7, 'atol': 1e-7}
    for i in range(3):
        for j in range(3):
            g.ensure('vector %d,%d' % (i, j), g.close(cell[i, j], a * V[i][j], **kt))
    G, vol = gram(g, ibrav, d)
    for val, (i, j) in zip(G, [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]):
        g.ensure('scalar product %d,%d' % (i, j), g.close(dot3(row(cell, i), row(cell, j)), a * a * val, **kt))
    g.ensure('volume', g.close(g.abs(det(cell)), a * a * a * vol, **kt))


@unit('C21', ['pwscf.ibrav2cell', 'crys.cc2cell', 'crys.celldm2cc'])
def triclinic(g):
    """ibrav 14 is cc2cell(celldm2cc(celldm))"""
    d, arg = ibrav_input(g, 14)
    cell = g.call('pwscf.ibrav2cell', 14, arg)
    ref = g.call('crys.cc2cell', g.call('crys.celldm2cc', arg))
    kt = {} if g.sym else {'rtol': 1e-6, 'atol': 1e-6}
    for i in range(3):
        for j in range(3):
            if (i, j) != (2, 2):
                g.ensure('equal %d,%d' % (i, j), g.close(cell[i, j], ref[i, j], **kt))
    p, q = cell[2, 2], ref[2, 2]
    x, y, z = d['x'], d['y'], d['z']
    g.lemma('c_z >= 0', p >= 0)
    g.lemma('c_z >= 0, cc2cell', q >= 0)
    g.lemma('c_z squared', g.close(p * p, q * q, **kt))
    g.lemma('equal 2,2', g.close(p, q, **kt), using=[p >= 0, q >= 0, g.close(p * p, q * q, **kt)], gen=(p, q))


@unit('C21', ['pwscf.ibrav2cell'])
def illegal(g):
    """anything but 1..14 is refused"""
    d, arg = ibrav_input(g, 14)
    bad = g.choose('bad', [0, 15, -4, 91])
    g.raises('illegal ibrav', Exception, lambda: g.call('pwscf.ibrav2cell', bad, arg))
