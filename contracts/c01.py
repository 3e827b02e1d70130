from vc.harness import unit
from .spec import *

CELL = (-4, 4)
CC = [(1, 10)] * 3 + [(40, 130)] * 3


def mkcell(g, name='cell', lo=None):
    c = g.reals(name, (3, 3), samp=CELL)
    invertible(g, c)
    return c


def mkcc(g, name='cc'):
    cc = [g.real('%s%d' % (name, k), samp=CC[k]) for k in range(6)]
    cc_valid(g, cc)
    return g.np.array(cc)


@unit('C01', ['crys.cell2cc', 'crys.angle', 'num.norm'])
def cell2cc(g):
    """cell2cc(cell) = lengths of the rows, angles (bc, ac, ab) in degrees; cell not modified"""
    cell = mkcell(g)
    old = g.snap(cell)
    r = g.call('crys.cell2cc', cell)
    g.shape('shape', r, (6,))
    e = cc_of_row(g, cell)
    for k in range(6):
        g.ensure('cc%d' % k, g.close(r[k], e[k]))
    g.unchanged('cell unchanged', cell, old)


@unit('C01', ['crys.cc2cell'])
def cc2cell_standard(g):
    """standard orientation and the constants are those of the rows"""
    cc = mkcc(g)
    r = g.call('crys.cc2cell', cc)
    g.shape('shape', r, (3, 3))
    a, b, c = [row(r, i) for i in range(3)]
    al, be, ga = [rad(g, cc[3 + k]) for k in range(3)]
    g.ensure('a along x', g.land(g.close(a[1], 0), g.close(a[2], 0)))
    g.ensure('a_x', g.close(a[0], cc[0]))
    g.ensure('b in xy', g.close(b[2], 0))
    g.ensure('b_y', g.close(b[1], cc[1] * g.sin(ga)))
    g.ensure('c_z nonneg', c[2] >= 0)
    g.ensure('|b|^2', g.close(dot3(b, b), cc[1] * cc[1]))
    g.ensure('|c|^2', g.close(dot3(c, c), cc[2] * cc[2]))
    g.ensure('b.c', g.close(dot3(b, c), cc[1] * cc[2] * g.cos(al)))
    g.ensure('a.c', g.close(dot3(a, c), cc[0] * cc[2] * g.cos(be)))
    g.ensure('a.b', g.close(dot3(a, b), cc[0] * cc[1] * g.cos(ga)))


def cc2cell_post(g, cc):
    """contract of cc2cell (proved by unit cc2cell_standard)"""
    al, be, ga = [rad(g, cc[3 + k]) for k in range(3)]

    def post(r):
        a, b, c = [row(r, i) for i in range(3)]
        return [g.close(dot3(a, a), cc[0] * cc[0]), g.close(dot3(b, b), cc[1] * cc[1]), g.close(dot3(c, c), cc[2] * cc[2]),
                g.close(dot3(b, c), cc[1] * cc[2] * g.cos(al)), g.close(dot3(a, c), cc[0] * cc[2] * g.cos(be)),
                g.close(dot3(a, b), cc[0] * cc[1] * g.cos(ga))]
    return post


@unit('C01', ['crys.cell2cc'])
def cc_roundtrip(g):
    """cell2cc(cc2cell(cc)) == cc, from the contract of cc2cell"""
    cc = mkcc(g)
    cell = g.callee('crys.cc2cell', [cc], (3, 3), cc2cell_post(g, cc))
    r = g.call('crys.cell2cc', cell)
    rows = [row(cell, i) for i in range(3)]
    hyp = cc2cell_post(g, cc)(cell)
    pos = [cc[k] > g.frac(1, 10) for k in range(3)]
    ln = []
    for k in range(3):
        d = dot3(rows[k], rows[k])
        ln.append(g.close(length(g, rows[k]), cc[k]))
        g.lemma('len%d' % k, ln[k], [hyp[k], pos[k]], [d])
    for k, (i, j) in enumerate([(1, 2), (0, 2), (0, 1)]):
        u, v, al = length(g, rows[i]), length(g, rows[j]), rad(g, cc[3 + k])
        t = dot3(rows[i], rows[j]) / (u * v)
        co = g.close(t, g.cos(al))
        g.lemma('cos%d' % k, co, [hyp[3 + k], ln[i], ln[j], pos[i], pos[j]], [dot3(rows[i], rows[j]), u, v, g.cos(al)])
        ac = g.close(g.acos(t), al)
        g.lemma('acos%d' % k, ac, [co, g.land(cc[3 + k] > 5, cc[3 + k] < 175)], [t])
        ra = g.close(r[3 + k], deg(g, g.acos(t)))
        g.lemma('r%d' % k, ra, [pos[k] for k in range(3)] + [ln[i], ln[j]])
        g.lemma('cc%d' % (3 + k), g.close(r[3 + k], cc[3 + k]), [ra, ac], [g.acos(t), r[3 + k]])
    for k in range(3):
        g.ensure('cc%d' % k, g.close(r[k], cc[k]))


@unit('C01', ['crys.volume_cell'])
def volume_cell(g):
    cell = mkcell(g)
    r = g.call('crys.volume_cell', cell)
    g.ensure('|det|', g.close(r, g.abs(det(cell))))


@unit('C01', ['crys.volume_cc', 'crys.volume_cell', 'crys.cell2cc'])
def volume_cc(g):
    """volume from the constants; equals |det| of the cell built from them"""
    cc = mkcc(g)
    r = g.call('crys.volume_cc', cc)
    ca, cb, cg = [g.cos(rad(g, cc[3 + k])) for k in range(3)]
    g.ensure('nonneg', r >= 0)
    g.ensure('formula', g.close(r * r, (cc[0] * cc[1] * cc[2]) * (cc[0] * cc[1] * cc[2]) * (1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg)))


def cross(x, y):
    return [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]


@unit('C01', ['crys.cell2cc'])
def cell2cc_gram(g):
    """cos of the returned angles reproduces the scalar products of the rows"""
    cell = mkcell(g)
    rows = [row(cell, i) for i in range(3)]
    r = g.call('crys.cell2cc', cell)
    for k in range(3):
        g.lemma('nonzero%d' % k, dot3(rows[k], rows[k]) > 0)
    for k, (i, j) in enumerate([(1, 2), (0, 2), (0, 1)]):
        u, v = rows[i], rows[j]
        w = cross(u, v)
        g.lemma('Lagrange%d' % k, g.close(dot3(u, v) * dot3(u, v) + dot3(w, w), dot3(u, u) * dot3(v, v)))
        lu, lv, uu, vv, uv, ww = length(g, u), length(g, v), dot3(u, u), dot3(v, v), dot3(u, v), dot3(w, w)
        t = uv / (lu * lv)
        lag = g.close(uv * uv + ww, uu * vv)
        g.lemma('w%d' % k, ww >= 0)
        pu, pv = g.land(lu > 0, g.close(lu * lu, uu)), g.land(lv > 0, g.close(lv * lv, vv))
        g.lemma('pu%d' % k, pu, [uu > 0], [uu])
        g.lemma('pv%d' % k, pv, [vv > 0], [vv])
        g.lemma('CS%d' % k, uv * uv <= lu * lu * (lv * lv) if g.sym else True, [lag, ww >= 0, pu, pv], [lu, lv, uv, ww, uu, vv])
        g.lemma('range%d' % k, g.land(t >= -1, t <= 1) if g.sym else True, [uv * uv <= lu * lu * (lv * lv), pu, pv], [lu, lv, uv, uu, vv])
        ct = g.close(g.cos(g.acos(t)), t)
        g.lemma('cosacos%d' % k, ct if g.sym else True, [g.land(t >= -1, t <= 1)], [t])
        rr = g.close(rad(g, r[3 + k]), g.acos(t))
        g.lemma('r%d' % k, rr, [pu, pv], [])
        cr = g.cos(rad(g, r[3 + k]))
        g.lemma('cos=%d' % k, g.close(cr, g.cos(g.acos(t))), [rr], [])
        g.lemma('cos%d' % k, g.close(cr * lu * lv, uv), [g.close(cr, g.cos(g.acos(t))), ct, pu, pv], [cr, g.cos(g.acos(t)), lu, lv, uv, uu, vv])


@unit('C01', ['crys.volume_cc'])
def volume_agree(g):
    """volume_cc(cell2cc(cell))^2 == det(cell)^2, from the contract of cell2cc"""
    cell = mkcell(g)
    rows = [row(cell, i) for i in range(3)]
    a, b, c = rows
    cs = lambda cc: [g.cos(rad(g, cc[3 + k])) for k in range(3)]

    def post(cc):
        x, y, z = cs(cc)
        return [cc[k] > 0 for k in range(3)] + [g.close(cc[k] * cc[k], dot3(rows[k], rows[k])) for k in range(3)] + \
            [g.close(x * cc[1] * cc[2], dot3(b, c)), g.close(y * cc[0] * cc[2], dot3(a, c)), g.close(z * cc[0] * cc[1], dot3(a, b))]
    cc = g.callee('crys.cell2cc', [cell], (6,), post)
    x, y, z = cs(cc)
    L = [cc[k] for k in range(3)]
    P = (L[0] * L[1] * L[2]) * (L[0] * L[1] * L[2])
    rad2 = 1 + 2 * x * y * z - x * x - y * y - z * z
    bc, ac, ab = x * L[1] * L[2], y * L[0] * L[2], z * L[0] * L[1]
    aa, bb, cc_ = L[0] * L[0], L[1] * L[1], L[2] * L[2]
    gram = lambda aa, bb, cc_, bc, ac, ab: aa * bb * cc_ + 2 * bc * ac * ab - aa * bc * bc - bb * ac * ac - cc_ * ab * ab
    g.lemma('expand', g.close(P * rad2, gram(aa, bb, cc_, bc, ac, ab)))
    dd = [dot3(a, a), dot3(b, b), dot3(c, c), dot3(b, c), dot3(a, c), dot3(a, b)]
    g.lemma('Gram det', g.close(gram(*dd), det(cell) * det(cell)))
    nn = [aa, bb, cc_, bc, ac, ab]
    eqs = post(cc)[3:]
    g.lemma('subst', g.close(gram(*nn), gram(*dd)), eqs, nn + dd)
    D = det(cell)
    g.lemma('det2', g.close(P * rad2, D * D), [g.close(P * rad2, gram(*nn)), g.close(gram(*nn), gram(*dd)), g.close(gram(*dd), D * D)],
            [P * rad2, gram(*nn), gram(*dd), D])
    g.lemma('Ppos', P > 0, [L[k] > 0 for k in range(3)], L)
    g.lemma('rad2 pos', rad2 >= 0, [g.close(P * rad2, D * D), P > 0], [P, rad2, D])
    r = g.call('crys.volume_cc', cc)
    S = L[0] * L[1] * L[2] * g.sqrt(rad2)
    g.lemma('r', g.close(r, S))
    g.lemma('nonneg', r >= 0, [g.close(r, S), rad2 >= 0] + [L[k] > 0 for k in range(3)], [rad2] + L)
    g.lemma('sq', g.close(r * r, P * rad2), [g.close(r, S), rad2 >= 0], [rad2])
    g.lemma('vol^2', g.close(r * r, D * D), [g.close(r * r, P * rad2), g.close(P * rad2, D * D)], [P * rad2, D, r])


@unit('C01', ['crys.volume_cc', 'crys.cc2cell', 'crys.volume_cell'])
def volume_agree2(g):
    cc = mkcc(g)
    r = g.call('crys.volume_cell', g.call('crys.cc2cell', cc))
    v = g.call('crys.volume_cc', cc)
    g.ensure('vol^2', g.close(r * r, v * v))


@unit('C01', ['crys.recip_cell'])
def recip_cell(g):
    """a_i . b_j = 2 pi delta_ij, for right- and left-handed cells"""
    cell = mkcell(g)
    old = g.snap(cell)
    r = g.call('crys.recip_cell', cell)
    g.shape('shape', r, (3, 3))
    for i in range(3):
        for j in range(3):
            p = dot3(row(cell, i), row(r, j))
            if i == j:
                g.ensure('right-handed %d%d' % (i, j), g.implies(det(cell) > 0, g.close(p, 2 * g.pi)))
                g.ensure('left-handed %d%d' % (i, j), g.implies(det(cell) < 0, g.close(p, 2 * g.pi)))
            else:
                g.ensure('offdiag %d%d' % (i, j), g.close(p, 0))
    g.unchanged('cell unchanged', cell, old)


@unit('C01', ['crys.angle', 'num.norm'])
def angle(g):
    x, y = g.reals('x', (3,)), g.reals('y', (3,))
    g.require(dot3(x, x) > g.frac(1, 10))
    g.require(dot3(y, y) > g.frac(1, 10))
    g.require(g.abs(dot3(x, y)) < g.frac(99, 100) * length(g, x) * length(g, y)) if not g.sym else None
    r = g.call('crys.angle', x, y)
    g.ensure('angle', g.close(r, deg(g, g.acos(dot3(x, y) / (length(g, x) * length(g, y))))))


def step3(arr, axis, t):
    return lambda i, j: arr[tuple([i, j][:axis] + [t] + [i, j][axis:])]


@unit('C01', ['crys.volume_cell3d'])
def volume_cell3d(g):
    """any number of steps, any time axis"""
    n = g.dim('n')
    axis = g.choose('axis', [0, 1, 2])
    shape = [3, 3]
    shape.insert(axis, n)
    cell = g.reals('cell', tuple(shape), samp=CELL)
    r = g.call('crys.volume_cell3d', cell, axis=axis)
    g.shape('shape', r, (n,))
    g.forall('step', (n,), lambda t: g.close(r[t], g.abs(det3(step3(cell, axis, t)))))


@unit('C01', ['crys.cell2cc3d'])
def cell2cc3d(g):
    n = g.dim('n')
    axis = g.choose('axis', [0, 1, 2])
    shape = [3, 3]
    shape.insert(axis, n)
    cell = g.reals('cell', tuple(shape), samp=CELL)
    if not g.sym:
        g.require(all(abs(det3(step3(cell, axis, t))) > .1 for t in range(n)))
    r = g.call('crys.cell2cc3d', cell, axis=axis)
    g.shape('shape', r, (n, 6))

    def spec(t, k):
        f = step3(cell, axis, t)
        return cc_of_row(g, {(i, j): f(i, j) for i in range(3) for j in range(3)})[k]
    for k in range(6):
        g.forall('cc%d' % k, (n,), lambda t: g.close(r[t, k], spec(t, k)))


@unit('C01', ['crys.cc2cell3d'])
def cc2cell3d(g):
    n = g.dim('n')
    axis = g.choose('axis', [0, 1])
    cc = g.reals('cc', (n, 6) if axis == 0 else (6, n), samp=(60, 110))
    r = g.call('crys.cc2cell3d', cc, axis=axis)
    g.shape('shape', r, (n, 3, 3))

    def spec(t, i, j):
        return cell_of_cc(g, [cc[t, k] if axis == 0 else cc[k, t] for k in range(6)])[i][j]
    for i in range(3):
        for j in range(3):
            g.forall('cell%d%d' % (i, j), (n,), lambda t: g.close(r[t, i, j], spec(t, i, j)))


@unit('C01', ['crys.volume_cc3d', 'crys.volume_cc'])
def volume_cc3d(g):
    n = g.dim('n')
    axis = g.choose('axis', [0, 1])
    cc = g.reals('cc', (n, 6) if axis == 0 else (6, n), samp=(60, 110))
    r = g.call('crys.volume_cc3d', cc, axis=axis)
    g.shape('shape', r, (n,))
    g.forall('vol', (n,), lambda t: g.close(r[t], g.call('crys.volume_cc', cc[t] if axis == 0 else cc[:, t])))


@unit('C01', ['crys.cell2cc'], mode='bounded', n=150, why='memory placement of numpy arrays is below the model')
def placement(g):
    """the constants do not depend on where in memory the cell lies (steps of a trajectory lie at odd multiples of 8 bytes):
    the same bits for the cell and for every copy of it inside a larger array"""
    import numpy as np
    cell = mkcell(g)
    cell = np.array(cell, dtype=float, order='C')
    want = g.call('crys.cell2cc', cell)
    big = np.empty(9 * 8)
    for k in range(8):
        v = big[9 * k:9 * k + 9].reshape(3, 3)
        v[...] = cell
        g.ensure('bits', bool((g.call('crys.cell2cc', v) == want).all()))
