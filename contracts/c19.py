from vc.harness import unit
from .spec import *

PERM = {0: (0, 1, 2), 1: (1, 0, 2), 2: (2, 0, 1)}


def shape3(g, lo=1):
    return tuple(g.dim('s%d' % k, lo=lo) for k in range(3))


@unit('C19', ['arrayio.arr2d_to_3d'], fork={'axis': 7})
def arr2d_to_3d(g):
    """inverse of stacking the 2d chunks taken along the axis: element (chunk ind, row i, column j) is row ind*rows+i"""
    axis = g.choose('axis', [None, 0, 1, 2, -1, -2, -3])
    shape = shape3(g)
    ax = 2 if axis is None else axis % 3
    rest = [k for k in range(3) if k != ax]
    r, c = shape[rest[0]], shape[rest[1]]
    A = g.reals('arr', (shape[ax] * r, c))
    S = g.snap(A)
    kw = {} if axis is None else {'axis': axis}
    X = g.call('arrayio.arr2d_to_3d', A, shape, **kw)
    g.shape('shape', X, shape)

    def el(*ix):
        return g.close(X[tuple(ix)], S[ix[ax] * r + ix[rest[0]], ix[rest[1]]])
    g.forall('elements', shape, el)
    g.unchanged('input kept', A, S)


@unit('C19', ['arrayio.arr2d_to_3d'])
def rejects(g):
    """arrays that do not have the rows of all chunks are rejected"""
    a, b, c, k = g.dim('a'), g.dim('b'), g.dim('c'), g.dim('rows')
    g.require(k != a * b)
    A = g.reals('arr', (k, c))
    g.raises('rows', Exception, lambda: g.call('arrayio.arr2d_to_3d', A, (a, b, c), axis=0))
    B = g.reals('arr2', (a * b, k))
    g.require(k != c)
    g.raises('columns', Exception, lambda: g.call('arrayio.arr2d_to_3d', B, (a, b, c), axis=0))
    g.raises('1d', AssertionError, lambda: g.call('arrayio.arr2d_to_3d', g.reals('v', (a,)), (a, b, c), axis=0))


def make(g, shape):
    """doubles of all magnitudes, special values, integers"""
    import numpy as np
    r = np.random.RandomState(g.int('seed', 0, 10 ** 6, samp=(0, 10 ** 6)))
    kind = g.choose('values', ['any', 'int', 'special', 'float32'])
    x = r.standard_normal(shape) * 10.0 ** r.randint(-300, 300, size=shape)
    if kind == 'int':
        return r.randint(-2 ** 52, 2 ** 52, size=shape)
    if kind == 'special':
        f = x.reshape(-1)
        for k in range(f.size):
            s = r.randint(0, 9)
            if s < 7:
                f[k] = [np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308, 0.1 + 0.2][s]
        return f.reshape(shape)
    if kind == 'float32':
        return r.standard_normal(shape).astype(np.float32)
    if g.flag('fortran order'):
        x = np.asfortranarray(x)
    return x


def identical(a, b):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


@unit('C19', ['arrayio.writetxt', 'arrayio.readtxt', 'arrayio._write_header_config', 'arrayio._read_header_config'], mode='bounded', n=600,
      why='text files: number formatting in C', tmax=60)
def round_trip(g):
    """written and read back: same shape, identical values; the file is the 2d chunks along the axis"""
    import numpy as np, gzip
    nd = g.int('ndim', 1, 3)
    shape = tuple(g.count('s%d' % k, 1, 5) for k in range(nd))
    if g.int('many', 0, 9) == 0:
        shape = shape[:-1] + (g.int('long', 20, 40),)
    x = make(g, shape)
    axis = g.int('axis', -nd, nd - 1)
    kw = {} if axis == -1 and g.flag('default axis') else {'axis': axis}
    with Scratch():
        keep = np.array(x, copy=True)
        g.call('arrayio.writetxt', 'a.txt', x, **kw)
        g.ensure('array kept', identical(x, keep))
        y = g.call('arrayio.readtxt', 'a.txt')
        g.ensure('shape', y.shape == shape)
        g.ensure('values', identical(y, x))
        raw = np.loadtxt('a.txt', ndmin=2)
        if nd == 3:
            flat = np.concatenate([np.moveaxis(x, axis, 0)[k] for k in range(shape[axis])], axis=0)
            g.ensure('stored chunks', identical(raw, flat))
            g.ensure('back to 3d', identical(g.call('arrayio.arr2d_to_3d', flat, shape, axis=axis), x))
        with open('a.txt') as fh:
            z = g.call('arrayio.readtxt', fh)
        g.ensure('open file', identical(z, x))
        with gzip.open('a.txt.gz', 'wt') as fh:
            fh.write(open('a.txt').read())
        g.ensure('compressed file', identical(g.call('arrayio.readtxt', 'a.txt.gz'), x))
        # without header: shape and axis given; overwriting a longer file
        g.call('arrayio.writetxt', 'a.txt', x, header=False, **kw)
        g.ensure('no header', '#' not in open('a.txt').read())
        g.ensure('given shape and axis', identical(g.call('arrayio.readtxt', 'a.txt', shape=shape, axis=axis), x))
        # the next array is independent of the first one
        x2 = make(g, shape[::-1])
        g.call('arrayio.writetxt', 'a.txt', x2, axis=axis)
        g.ensure('second array', identical(g.call('arrayio.readtxt', 'a.txt'), x2))
    g.raises('4d', Exception, lambda: g.call('arrayio.writetxt', '/dev/null', np.zeros((1, 1, 1, 1))))
