from vc.harness import unit
from .spec import *
import itertools
import numpy as np


@unit('C14', ['num.match_mask'])
def match_mask(g):
    """marks exactly the entries equal to (closer than eps to) one of the values"""
    n, m = g.dim('n'), g.dim('m')
    a = g.reals('arr', (n,), samp=(-2, 2))
    v = g.reals('values', (m,), samp=(-2, 2))
    if not g.sym:
        # exact hits, near misses
        for i in range(m):
            c = g.rnd.random()
            if c < 0.6:
                v[i] = a[g.rnd.randrange(n)]
                if c < 0.25:
                    v[i] += g.rnd.choice([1e-12, -1e-12, 1e-3, -1e-3])
    a0, v0 = g.snap(a), g.snap(v)
    use = g.flag('eps')
    full = g.flag('fullout')
    kw = {'fullout': True} if full else {}
    if use:
        eps = g.real('epsval', 0, samp=(1e-6, 0.5))
        g.require(eps > 0)
        r = g.call('num.match_mask', a, v, eps=eps, **kw)
        hit = lambda i, j: g.abs(a0[j] - v0[i]) < eps
    else:
        r = g.call('num.match_mask', a, v, **kw)
        hit = lambda i, j: a0[j] == v0[i]
    if full:
        r, idx = r
        g.indexset('indices', idx, n, lambda j: g.exists_in(m, lambda i: hit(i, j)))
    g.shape('shape', r, (n,))
    g.forall('marked', (n,), lambda j: g.iff(r[j], g.exists_in(m, lambda i: hit(i, j))))
    g.unchanged('arr unchanged', a, a0)
    g.unchanged('values unchanged', v, v0)


@unit('C14', ['num.order_similar'], mode='bounded', why='the result array is built row by row from its own earlier rows (carried through an argmin)')
def order_similar(g):
    """every entry is the entry of that row closest to the extrapolation of the given order of its own column"""
    n, m = g.dim('n', samp=(1, 9)), g.dim('m', samp=(1, 4))
    order = g.choose('order', [0, 1, 2])
    rep = g.choose('repeat', [1, 1, 2, 3])
    a = g.reals('arr', (n, m), samp=(-3, 3))
    a0 = g.snap(a)
    r = g.call('num.order_similar', a, repeat=rep, order=order)
    src = a0
    for _ in range(rep):
        out = np.array(src)
        for i in range(n - 1):
            for j in range(m):
                o = min(order, i)
                ref = out[i, j] if o == 0 else 2 * out[i, j] - out[i - 1, j] if o == 1 else \
                    3 * out[i, j] - 3 * out[i - 1, j] + out[i - 2, j]
                d = np.abs(src[i + 1] - ref)
                k = int(np.argmin(d))
                s = np.sort(d)
                g.require(m == 1 or s[1] - s[0] > 1e-6)        # no ties
                out[i + 1, j] = src[i + 1, k]
        src = out
    g.eq('ordered', r, src)
    g.unchanged('input unchanged', a, a0)


@unit('C14', ['num.order_similar'], mode='bounded', why='see order_similar')
def order_similar_curves(g):
    """well separated smooth curves, shuffled at every point, are recovered as a permutation of the columns"""
    m = g.count('m', 2, 4, 8)
    n = g.int('n', 5, 20)
    sl = g.reals('slopes', (m,), samp=(-0.2, 0.2))
    order = g.choose('order', [0, 1, 2])
    x = np.arange(n) * 0.1
    c = np.array([3.0 * k + sl[k] * x for k in range(m)]).T
    sh = c.copy()
    perm = g.ints('perm', (n, m), 0, 1000)
    for i in range(n):
        sh[i] = c[i][np.argsort(perm[i], kind='stable')]
    r = g.call('num.order_similar', sh, order=order)
    p = np.argsort(np.argsort(sh[0]))
    g.eq('curves', r, c[:, p])


@unit('C14', ['comb.unique2d'], mode='bounded', why='list of arrays growing in nested loops with break')
def unique2d(g):
    """the distinct rows (columns), each once, in order of first appearance"""
    n, m = g.dim('n', samp=(1, 7)), g.dim('m', samp=(1, 4))
    what = g.choose('what', ['row', 'col'])
    kind = g.choose('kind', ['int', 'float'])
    a = g.ints('a', (n, m), -1, 1)
    if kind == 'float':
        a = a * 0.5
        if g.flag('tiny'):
            a[0, 0] += g.choose('by', [1e-9, 1e-15, 1e-300])
    a0 = g.snap(a)
    r = g.call('comb.unique2d', a if not g.flag('aslist') else a.tolist(), what=what)
    rows = [tuple(x) for x in (a0 if what == 'row' else a0.T)]
    u = list(dict.fromkeys(rows))
    w = np.array(u)
    g.shape('shape', r, w.shape if what == 'row' else w.T.shape)
    g.eq('distinct', r, w if what == 'row' else w.T, rtol=0, atol=0)
    g.unchanged('input unchanged', a, a0)


def _flat(x):
    out = []
    for v in x:
        if isinstance(v, (list, tuple, np.ndarray)):
            out += _flat(v)
        else:
            out.append(v)
    return out


def _lst(x):
    return [_lst(v) for v in x] if isinstance(x, (list, tuple, np.ndarray)) else x


@unit('C14', ['comb.nested_loops', 'common.flatten', 'common.is_seq'], mode='bounded', why='itertools.product over lists of arbitrary objects')
def nested_loops(g):
    """the full Cartesian product, rightmost fastest; groups kept or flattened"""
    k = g.count('k', 1, 4, 6)
    lists = []
    for i in range(k):
        n = g.int('n%d' % i, 1, 3)
        kind = g.choose('kind%d' % i, ['int', 'float', 'str', 'zip', 'array', 'range', 'mixed', 'deep', 'none'])
        b = g.int('b%d' % i, 0, 50)
        lists.append({'int': [b + j for j in range(n)], 'float': [b + 0.5 * j for j in range(n)], 'str': ['s%d_%d x' % (b, j) for j in range(n)],
                      'zip': [(b + j, 'lab%d' % j) for j in range(n)], 'array': np.arange(n) + b, 'range': range(b, b + n),
                      'mixed': [b, 'str', (1, 'two')][:n], 'deep': [(j, (b, 'ab')) for j in range(n)], 'none': [None, True, 'x'][:n]}[kind])
    flatten = g.flag('flatten')
    r = g.call('comb.nested_loops', lists, flatten=flatten)
    want = []
    for t in itertools.product(*[list(l) for l in lists]):
        want.append(_flat(t) if flatten else _lst(t))
    g.ensure('list', isinstance(r, list) and len(r) == len(want))
    for i, (x, y) in enumerate(zip(r, want)):
        g.ensure('entry %d' % i, x == y and isinstance(x, list))


@unit('C14', ['num.findmin', 'num.findroot', 'num.Fit1D', 'num.Spline'], mode='bounded', why='scipy splines and root finding')
def findmin_findroot(g):
    """minimum and zero of the interpolating spline of a smooth curve, with their values"""
    n = g.int('n', 8, 60)
    x0 = g.real('x0', samp=(-1, 1))
    a = g.real('a', 0.2, 3)
    c = g.real('c', samp=(-2, 2))
    q = g.real('q', samp=(-0.02, 0.02))
    x = np.linspace(x0 - g.real('left', 1, 2), x0 + g.real('right', 1, 2), n)
    f = lambda t: a * (t - x0) ** 2 + q * (t - x0) ** 3 + c
    y = f(x)
    r = g.call('num.findmin', x, y)
    g.ensure('argmin', g.close(r[0], x0, atol=1e-6))
    g.ensure('min', g.close(r[1], c, atol=1e-6))
    s = g.real('s', 0.5, 3) * g.choose('sign', [1, -1])
    z = g.real('z', samp=(-0.5, 0.5))
    yy = s * (x - x0 - z) * (1 + 0.1 * (x - x0 - z) ** 2)
    r = g.call('num.findroot', x, yy)
    g.ensure('root', g.close(r[0], x0 + z, atol=1e-6))
    g.ensure('value at root', abs(r[1]) < 1e-8)
    S = g.attr('num.Spline')(x, y)
    g.ensure('spline minimum', g.close(S.get_min(), x0, atol=1e-6))
    g.forall('spline interpolates', (n,), lambda i: g.close(S(x[i]), y[i]))
    t = g.real('t', samp=(0.05, 0.95))
    y1 = yy if s > 0 else -yy
    S2 = g.attr('num.Spline')(x, y1)
    v = y1[0] + t * (y1[-1] - y1[0])
    g.ensure('invsplev', g.close(S2(S2.invsplev(v)), v, atol=1e-7))
    for xq in (x[0] + 0.31 * (x[-1] - x[0]), x[0] + 0.77 * (x[-1] - x[0])):
        h = 1e-5
        g.ensure('derivative', abs((S(xq + h) - S(xq - h)) / (2 * h) - S(xq, der=1)) < 1e-5 * max(1, abs(y).max()))
