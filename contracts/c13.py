from vc.harness import unit
from .spec import *
import numpy as np


def nd_array(g, ndims=(1, 2, 3)):
    nd = g.choose('ndim', list(ndims))
    dims = tuple(g.dim('n%d' % k) for k in range(nd))
    return nd, dims, g.reals('a', dims, samp=(-3, 3))


def pick_axis(g, nd, name='axis', lo=None):
    return g.choose('%s%d' % (name, nd), list(range(-nd if lo is None else lo, nd)))


def pick_slice(g, n, tag=''):
    """-> (slice object or index, number of elements or None for an index, position of element i)"""
    kind = g.choose('slice' + tag, ['index', 'range', 'open', 'reversed', 'step2'])
    if kind == 'index':
        k = g.int('k' + tag, 0, samp=(0, 4))
        g.require(k < n)
        return k, None, k
    if kind == 'range':
        lo, hi = g.int('lo' + tag, 0, samp=(0, 4)), g.int('hi' + tag, 0, samp=(0, 5))
        g.require(lo <= hi)
        g.require(hi <= n)
        return slice(lo, hi), hi - lo, lambda i: lo + i
    if kind == 'open':
        lo = g.int('lo' + tag, 0, samp=(0, 4))
        g.require(lo <= n)
        return slice(lo, None), n - lo, lambda i: lo + i
    if kind == 'reversed':
        return slice(None, None, -1), n, lambda i: n - 1 - i
    return slice(None, None, 2), (n + 1) // 2, lambda i: 2 * i


def put(ix, a, k):
    ix = list(ix)
    return tuple(ix[:a] + [k] + ix[a:])


@unit('C13', ['num.slicetake'])
def slicetake(g):
    """slice along one axis: exactly the elements of the slice, in order, everything along the other axes"""
    nd, dims, a = nd_array(g)
    ax = pick_axis(g, nd)
    q = ax % nd
    sl, m, pos = pick_slice(g, dims[q])
    copy = g.flag('copy')
    a0 = g.snap(a)
    r = g.call('num.slicetake', a, sl, axis=ax, copy=copy)
    rest = dims[:q] + dims[q + 1:]
    if m is None:
        if nd == 1:
            g.ensure('element', g.same(r, a0[pos]))
        else:
            g.shape('shape', r, rest)
            g.forall('elements', rest, lambda *ix: g.same(r[tuple(ix)], a0[put(ix, q, pos)]))
    else:
        g.shape('shape', r, dims[:q] + (m,) + dims[q + 1:])
        g.forall('elements', rest + (m,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1])], a0[put(ix[:-1], q, pos(ix[-1]))]))
    g.unchanged('input unchanged', a, a0)
    if copy and m is not None:
        r[...] = 7.25
        g.unchanged('copy is independent', a, a0)


@unit('C13', ['num.slicetake'])
def slicetake_list(g):
    """list or tuple of one slice for every axis"""
    nd, dims, a = nd_array(g, (1, 2))
    S = [pick_slice(g, dims[k], '_%d' % k) for k in range(nd)]
    g.require(all(m is not None for _, m, _ in S))
    sl = [s for s, _, _ in S]
    if g.flag('tuple'):
        sl = tuple(sl)
    a0 = g.snap(a)
    r = g.call('num.slicetake', a, sl)
    ms = tuple(m for _, m, _ in S)
    g.shape('shape', r, ms)
    g.forall('elements', ms, lambda *ix: g.same(r[tuple(ix)], a0[tuple(p(i) for i, (_, _, p) in zip(ix, S))]))


@unit('C13', ['num.sliceput'])
def sliceput(g):
    """writes exactly the addressed positions, nothing else; returns the array"""
    nd, dims, a = nd_array(g, (1, 2, 3))
    ax = pick_axis(g, nd)
    q = ax % nd
    n = dims[q]
    kind = g.choose('slice', ['index', 'range'])
    lo = g.int('lo', 0, samp=(0, 4))
    g.require(lo < n)
    if kind == 'index':
        sl, hi = lo, lo + 1
    else:
        hi = g.int('hi', 0, samp=(0, 5))
        g.require(lo < hi)
        g.require(hi <= n)
        sl = slice(lo, hi)
    form = g.choose('form', ['axis', 'list', 'tuple'])
    b = g.real('b')
    arr = g.flag('array value')
    a0 = g.snap(a)
    rest = dims[:q] + dims[q + 1:]
    if arr:
        bd = rest if kind == 'index' else dims[:q] + (hi - lo,) + dims[q + 1:]
        g.require(len(bd) > 0)
        bv = g.reals('barr', bd)
    else:
        bv = b
    if form == 'axis':
        r = g.call('num.sliceput', a, bv, sl, axis=ax)
    else:
        lst = [slice(None)] * nd
        lst[q] = sl
        r = g.call('num.sliceput', a, bv, lst if form == 'list' else tuple(lst))
    g.shape('shape', r, dims)

    def want(ix):
        i = ix[q]
        if not arr:
            return b
        return bv[ix[:q] + ix[q + 1:]] if kind == 'index' else bv[ix[:q] + (i - lo,) + ix[q + 1:]]
    g.forall('written', rest + (hi - lo,), lambda *ix: g.same(r[put(ix[:-1], q, lo + ix[-1])], want(put(ix[:-1], q, lo + ix[-1]))))
    g.forall('nothing else', dims, lambda *ix: g.implies(g.lor(ix[q] < lo, ix[q] >= hi), g.same(r[tuple(ix)], a0[tuple(ix)])))
    g.eq('in place', a, r)


@unit('C13', ['num.extend_array'])
def extend_array(g):
    """every slice along the new axis is the array"""
    nd, dims, a = nd_array(g)
    ax = g.choose('axis%d' % nd, [-1] + list(range(nd + 1)))
    m = g.dim('nstep')
    q = ax if ax >= 0 else nd
    a0 = g.snap(a)
    r = g.call('num.extend_array', a, m, axis=ax)
    g.shape('shape', r, dims[:q] + (m,) + dims[q:])
    g.forall('elements', dims + (m,), lambda *ix: g.same(r[put(ix[:-1], q, ix[-1])], a0[tuple(ix[:-1])]))
    g.unchanged('input unchanged', a, a0)


AXES = {1: [None, 0, -1, (0,), [0]],
        2: [None, 0, 1, -1, -2, (0,), (1,), (0, 1), (1, 0), [0, 1], [1], (-1, 0), (0, -1), [-2, -1]],
        3: [None, 0, 1, 2, -1, (0,), (2,), (0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1), (0, 1, 2), (2, 0, 1), [2, 1, 0], [0, 2], (-1, 0), (0, -1), (1, -1), [-3, -1], (-2, -1), (-1, -3, -2)]}


@unit('C13', ['num.sum'], fork={'ndim': 3}, n=300)
def gsum(g):
    """sum over an axis, a tuple of axes in any order, or over all but those (keepdims)"""
    nd, dims, a = nd_array(g)
    ax = g.choose('axis%d' % nd, AXES[nd])
    keep = g.flag('keepdims')
    a0 = g.snap(a)
    if ax is None:
        g.require(not keep)
    r = g.call('num.sum', a, axis=ax, keepdims=keep)
    if ax is None:
        over = list(range(nd))
    else:
        over = sorted({x % nd for x in ([ax] if isinstance(ax, int) else ax)})
        if keep:
            over = [x for x in range(nd) if x not in over]
    left = [x for x in range(nd) if x not in over]

    def total(fixed, rem):
        if not rem:
            return a0[tuple(fixed[k] for k in range(nd))]
        # iterated in the order given, so that the nesting is that of repeated a.sum(axis)
        k = rem[-1]
        return g.sum(lambda i: total(dict(fixed, **{k: i}) if False else {**fixed, k: i}, rem[:-1]), dims[k])
    order = over if (ax is None or isinstance(ax, int) or keep) else [x % nd for x in ax]
    if not left:
        g.ensure('value', g.close(r, total({}, order)))
    else:
        g.shape('shape', r, tuple(dims[k] for k in left))
        g.forall('values', tuple(dims[k] for k in left), lambda *ix: g.close(r[tuple(ix)], total(dict(zip(left, ix)), order)))
    g.unchanged('input unchanged', a, a0)


@unit('C13', ['num.rms', 'num.norm'])
def rms(g):
    """sqrt of the mean (or given number of items) of squares"""
    nd, dims, a = nd_array(g)
    mode = g.choose('nitems', ['all', 'given'])
    a0 = g.snap(a)

    def sq(ix, k):
        return a0[tuple(ix)] * a0[tuple(ix)] if k == nd else g.sum(lambda i: sq(ix + [i], k + 1), dims[k])
    tot = sq([], 0)
    N = dims[0]
    for d in dims[1:]:
        N = N * d
    if mode == 'all':
        r = g.call('num.rms', a)
        n = g.toreal(N)
    else:
        n = g.int('items', 1)
        r = g.call('num.rms', a, nitems=n)
        n = g.toreal(n)
    g.ensure('non-negative', r >= 0)
    g.ensure('value', g.close(r * r * n, tot))
    if nd == 1:
        q = g.call('num.norm', a)
        g.ensure('norm', g.land(q >= 0, g.close(q * q, tot)))
    g.unchanged('input unchanged', a, a0)


@unit('C13', ['num.rms3d'])
def rms3d(g):
    """one value for each index along the axis: rms of the rest"""
    dims = tuple(g.dim('n%d' % k) for k in range(3))
    a = g.reals('a', dims, samp=(-3, 3))
    ax = g.choose('axis', [-1, 0, 1, 2])
    mode = g.choose('nitems', ['all', 'given'])
    q = ax % 3
    o = [k for k in range(3) if k != q]
    a0 = g.snap(a)
    if mode == 'all':
        r = g.call('num.rms3d', a, axis=ax)
        n = g.toreal(dims[o[0]] * dims[o[1]])
    else:
        n = g.int('items', 1)
        r = g.call('num.rms3d', a, axis=ax, nitems=n)
        n = g.toreal(n)
    g.shape('shape', r, (dims[q],))

    def v(k, i, j):
        ix = [i, j]
        ix.insert(q, k)
        return a0[tuple(ix)] * a0[tuple(ix)]
    g.forall('value', (dims[q],), lambda k: g.land(r[k] >= 0, g.close(r[k] * r[k] * n, g.sum(lambda j: g.sum(lambda i: v(k, i, j), dims[o[0]]), dims[o[1]]))))
    g.unchanged('input unchanged', a, a0)


@unit('C13', ['num.vlinspace'])
def vlinspace(g):
    """num points a + i (b-a)/(num-1) (or /num), the first is a, the last b with endpoint"""
    n, m = g.dim('num'), g.dim('len')
    end = g.flag('endpoint')
    a, b = g.reals('a', (m,)), g.reals('b', (m,))
    a0, b0 = g.snap(a), g.snap(b)
    r = g.call('num.vlinspace', a, b, n, endpoint=end)
    g.shape('shape', r, (n, m))
    g.forall('first', (m,), lambda k: g.close(r[0, k], a0[k]))
    if end:
        g.forall('last', (m,), lambda k: g.implies(n > 1, g.close(r[n - 1, k], b0[k])))
        g.forall('points', (n, m), lambda i, k: g.close((r[i, k] - a0[k]) * g.toreal(n - 1), g.toreal(i) * (b0[k] - a0[k])))
    else:
        g.forall('points', (n, m), lambda i, k: g.close((r[i, k] - a0[k]) * g.toreal(n), g.toreal(i) * (b0[k] - a0[k])))
    g.unchanged('a unchanged', a, a0)
    g.unchanged('b unchanged', b, b0)


@unit('C13', ['num.round_up_next_multiple'])
def round_up(g):
    """smallest multiple not below the argument"""
    x = g.int('x', samp=(-50, 400))
    m = g.choose('mult', [1, 2, 3, 7, 8, 10, 16, 100])
    r = g.call('num.round_up_next_multiple', x, m)
    g.ensure('multiple', g.same(r % m, 0))
    g.ensure('not below', r >= x)
    g.ensure('smallest', r - m < x)


@unit('C13', ['num.normalize', 'num.meshgridt'])
def meshgrid(g):
    """meshgridt: ij indexing"""
    n, m = g.dim('n'), g.dim('m')
    x, y = g.reals('x', (n,)), g.reals('y', (m,))
    X, Y = g.call('num.meshgridt', x, y)
    g.shape('X', X, (n, m))
    g.shape('Y', Y, (n, m))
    g.forall('grid', (n, m), lambda i, j: g.land(g.same(X[i, j], x[i]), g.same(Y[i, j], y[j])))
