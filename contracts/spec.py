"""Specification vocabulary shared by the contracts (pure functions over scalars and arrays)."""


def det3(a):
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0))
            + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))


def det(c):
    return det3(lambda i, j: c[i, j])


def dot3(x, y):
    return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]


def row(c, i):
    return [c[i, 0], c[i, 1], c[i, 2]]


def length(g, v):
    return g.sqrt(dot3(v, v))


def invertible(g, c, m=10):
    """non-degenerate cell (|det| bounded away from 0, so that the bounded runs are well conditioned)"""
    g.require(g.abs(det(c)) > g.frac(1, m))


def deg(g, x):
    return x * 180 / g.pi


def rad(g, x):
    return x * g.pi / 180


def cc_valid(g, cc):
    """a, b, c > 0, angles in (0, 180) degrees, positive volume"""
    for k in range(3):
        g.require(cc[k] > g.frac(1, 10))
        g.require(g.land(cc[3 + k] > 5, cc[3 + k] < 175))
    ca, cb, cg = [g.cos(rad(g, cc[3 + k])) for k in range(3)]
    g.require(1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > g.frac(1, 100))


def cc_of_row(g, cell):
    """crystallographic constants of a cell with rows a, b, c"""
    a, b, c = [row(cell, i) for i in range(3)]
    la, lb, lc = [length(g, v) for v in (a, b, c)]
    return [la, lb, lc, deg(g, g.acos(dot3(b, c) / (lb * lc))), deg(g, g.acos(dot3(a, c) / (la * lc))),
            deg(g, g.acos(dot3(a, b) / (la * lb)))]


def cell_of_cc(g, cc):
    a, b, c = cc[0], cc[1], cc[2]
    al, be, ga = [rad(g, cc[3 + k]) for k in range(3)]
    cx = c * g.cos(be)
    cy = c * (g.cos(al) - g.cos(be) * g.cos(ga)) / g.sin(ga)
    return [[a, 0, 0], [b * g.cos(ga), b * g.sin(ga), 0], [cx, cy, g.sqrt(c * c - cy * cy - cx * cx)]]


def text(g, name, alpha, lo=0, hi=6):
    """random string (bounded mode)"""
    n = g.int(name + '_len', lo, hi, samp=(lo, hi))
    return ''.join(alpha[g.int('%s_%d' % (name, k), 0, len(alpha) - 1)] for k in range(int(n)))


class Scratch:
    """a scratch directory that is current while the unit runs and is removed afterwards"""

    def __enter__(self):
        import tempfile, os
        self.dir = tempfile.mkdtemp(prefix='vc_')
        self.old = os.getcwd()
        os.chdir(self.dir)
        return self.dir

    def __exit__(self, *a):
        import os, shutil
        os.chdir(self.old)
        shutil.rmtree(self.dir, ignore_errors=True)
