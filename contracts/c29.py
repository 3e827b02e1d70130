from vc.harness import unit
from .spec import *
import numpy as np


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@unit('C29', ['crys.rmax_smith'])
def rmax_smith(g):
    """half the smallest distance of opposite faces of the cell"""
    cell = g.reals('cell', (3, 3), samp=(-5, 5))
    invertible(g, cell)
    c0 = g.snap(cell)
    r = g.call('crys.rmax_smith', cell)
    v = [row(c0, i) for i in range(3)]
    V = g.abs(det(c0))
    w = [V / length(g, cross(v[(i + 1) % 3], v[(i + 2) % 3])) for i in range(3)]
    g.ensure('not above the widths', g.land(*[2 * r <= x * (1 + (0 if g.sym else 1e-9)) for x in w]))
    g.ensure('one of the widths', g.lor(*[g.close(2 * r, x) for x in w]))
    g.unchanged('cell kept', cell, c0)


def cell_of(g):
    a = np.diag(g.reals('len', (3,), samp=(3, 6)))
    if not g.flag('orthorhombic'):
        a = a + g.reals('skew', (3, 3), samp=(-.8, .8))
    if g.flag('left-handed'):
        a = a[[1, 0, 2]]
    return a


def pairs(g, f0, f1, cell, pbc):
    """distances of one step by hand"""
    out = []
    for x in f0:
        for y in f1:
            s = x - y
            if pbc:
                g.require((abs(abs(s) - .5) > 1e-9).all())  # two images equally near
                s = np.array([q - 1 if q > .5 else q + 1 if q < -.5 else q for q in s])
            out.append(float(np.sqrt(((s[:, None] * cell).sum(axis=0) ** 2).sum())))
    return out


DM = [(None, lambda d: True), ('>=1.2', lambda d: d >= 1.2), ('{d} < 1.7', lambda d: d < 1.7), ('({d} > 0.8) & ({d} < 1.9)', lambda d: .8 < d < 1.9)]


@unit('C29', ['crys.rpdf', 'crys.rmax_smith', 'crys.min_image_convention', 'crys.struct2traj'], mode='bounded', n=500, why='np.histogram over bins of real spacing')
def rpdf(g):
    """number integral and pair distribution = pairs counted one by one; arguments kept"""
    n, nt = g.int('n', 2, samp=(2, 6)), g.int('nt', 1, samp=(1, 4))
    traj = g.flag('traj')
    nt = nt if traj else 1
    cell = cell_of(g)
    g.require(abs(np.linalg.det(cell)) > 8)
    sy = [['O', 'H', 'Ca'][g.int('s%d' % i, 0, 2)] for i in range(n)]
    f = g.reals('f', (nt, n, 3), samp=(0, 1))
    mk = lambda ff: g.call('crys.Trajectory', coords_frac=ff, cell=cell, symbols=sy) if traj else g.call('crys.Structure', coords_frac=ff[0], cell=cell, symbols=sy)
    ob = mk(f)
    how = g.choose('objects', ['one', 'list of one', 'same twice', 'two'])
    f2 = f
    if how == 'two':
        f2 = g.reals('f2', (nt, n, 3), samp=(0, 1))
        same = g.choose('coincide', ['nowhere', 'some atoms of some steps', 'the last step'])
        if same == 'the last step':
            f2[-1] = f[-1]
        elif same != 'nowhere':
            w = g.bools('which', (nt, n))
            f2[w] = f[w]
        ob2 = mk(f2)
        arg = [ob, ob2]
    else:
        arg = {'one': ob, 'list of one': [ob], 'same twice': [ob, ob]}[how]
    dr = g.choose('dr', [.5, .3, .25])
    W = abs(np.linalg.det(cell)) / np.array([np.linalg.norm(np.cross(cell[1], cell[2])), np.linalg.norm(np.cross(cell[2], cell[0])), np.linalg.norm(np.cross(cell[0], cell[1]))])
    rmax = g.choose('rmax', ['auto', 1.1, 2.3, 4.2])
    kw = {'dr': dr}
    if rmax != 'auto' or g.flag('rmax given'):
        kw['rmax'] = rmax
    R = W.min() / 2 if rmax == 'auto' else rmax
    masks = g.choose('amask', ['none', 'one name', 'two names', 'one bool', 'bool and name'])
    nm = np.array(sy)
    a, b = sy[0], sy[g.int('other', 0, n - 1)]
    bm = np.array([i % 2 == 0 for i in range(n)])
    am = {'none': None, 'one name': [a], 'two names': [a, b], 'one bool': [bm], 'bool and name': [bm.copy(), b]}[masks]
    if am is not None:
        kw['amask'] = am
    sel = lambda m: (nm == m) if isinstance(m, str) else m
    m0, m1 = (np.ones(n, bool),) * 2 if am is None else (sel(am[0]), sel(am[-1]))
    keep = None if am is None else list(am)
    ts = slice(None)
    if traj:
        ts = g.choose('tmask', [None, slice(None), slice(None, None, 2), slice(-1, None)])
        if ts is not None:
            kw['tmask'] = ts
        ts = ts or slice(None)
    pbc = g.flag('pbc')
    if not pbc or g.flag('pbc given'):
        kw['pbc'] = pbc
    dm, ok = DM[g.int('dmask', 0, len(DM) - 1)]
    if dm is not None:
        kw['dmask'] = dm
    vmd = g.flag('vmd')
    if vmd or g.flag('vmd given'):
        kw['norm_vmd'] = vmd
    before = [np.copy(ob.coords_frac), np.copy(ob.coords), np.copy(ob.cell)]
    narg = len(arg) if isinstance(arg, list) else None
    D = [pairs(g, f[t][m0], f2[t][m1], cell, pbc) for t in range(nt)[ts]]
    g.require(all(d == 0 or d > 1e-9 for q in D for d in q))
    npair = [len(q) - (sum(d == 0 for d in q) if vmd else 0) for q in D]
    g.require(min(npair) > 0)
    r = g.call('crys.rpdf', arg, **kw)
    nb = len(r)
    g.ensure('columns', r.shape == (nb, 3))
    g.ensure('bins', abs(nb - R / dr) <= 1 + 1e-9 and nb * dr >= R - 1e-9)
    g.ensure('radii', np.allclose(r[:, 0], (np.arange(nb) + .5) * dr, rtol=0, atol=1e-9))
    n0, n1 = int(m0.sum()), int(m1.sum())
    steps = range(nt)[ts]
    cnt, rel = np.zeros(nb), np.zeros(nb)
    for q, m in zip(D, npair):
        for d in q:
            g.require(abs(d / dr - round(d / dr)) > 1e-7 and abs(d - R) > 1e-7 or d < 1e-9)
            if dr <= d < R and ok(d):
                cnt[int(d / dr)] += 1
                rel[int(d / dr)] += 1.0 / m
    k = np.arange(nb)
    shell = 4 / 3. * np.pi * dr ** 3 * ((k + 1.0) ** 3 - k ** 3.0)
    V = abs(np.linalg.det(cell))
    g.ensure('pair distribution', np.allclose(r[:, 1], rel * V / shell / len(steps), rtol=1e-9, atol=1e-9))
    g.ensure('number integral', np.allclose(r[:, 2], np.cumsum(cnt) / n0 / len(steps), rtol=1e-9, atol=1e-9))
    g.ensure('object kept', all(np.array_equal(x, y) for x, y in zip(before, [ob.coords_frac, ob.coords, ob.cell])))
    g.ensure('list kept', narg is None or len(arg) == narg and arg[0] is ob)
    g.ensure('masks kept', am is None or len(am) == len(keep) and all(x is y for x, y in zip(am, keep)))
