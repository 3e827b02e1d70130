from vc.harness import unit
from .spec import *


@unit('C27', ['common.fix_eps'], fork={'ndim': 3})
def fix_eps(g):
    """entries with |x| <= eps become 0, all others keep their value; input untouched with copy"""
    nd = g.choose('ndim', [1, 2, 3])
    dims = tuple(g.dim('n%d' % k) for k in range(nd))
    a = g.reals('a', dims, samp=(-2, 2))
    a0 = g.snap(a)
    kw = {}
    eps = g.real('eps', lo=g.frac(1, 10 ** 18), samp=(.01, 1.5))
    if g.flag('default eps'):
        eps = g.mod('common').EPS
    else:
        kw['eps'] = eps
    copy = g.flag('copy')
    if not (copy and g.flag('default copy')):
        kw['copy'] = copy
    r = g.call('common.fix_eps', a, **kw)
    g.shape('shape', r, dims)
    g.forall('entries', dims, lambda *i: g.ite(g.abs(a0[i]) <= eps, r[i] == 0, r[i] == a0[i]))
    if copy:
        g.unchanged('input kept', a, a0)
    else:
        g.eq('in place', a, r)


@unit('C27', ['common.fix_eps'])
def fix_eps_rejects(g):
    a = g.reals('a', (g.dim('n'),))
    e = g.real('eps', hi=0, samp=(-3, 0))
    g.raises('eps <= 0', AssertionError, lambda: g.call('common.fix_eps', a, eps=e))


def number(g, name):
    """doubles over the whole range of exponents"""
    import math
    k = g.choose(name + ' kind', ['exp', 'plain', 'int', 'zero'])
    m = g.real(name, samp=(-1, 1))
    if k == 'exp':
        return math.ldexp(m if m else .3, g.int(name + ' exp', -900, 900, samp=(-900, 900)))
    if k == 'plain':
        return m * 1000
    return float(round(m * 50)) if k == 'int' else 0.0


SEPS = [' ', ',', ';', ', ', '--', '|']


@unit('C27', ['common.seq2str', 'common.str2seq', 'common.str2tup'], mode='bounded', n=400, why='text')
def sequences(g):
    """sequence -> string -> sequence is the identity: ints, floats (repr), words; default and given separators"""
    n = g.int('n', 0, samp=(0, 8))
    kind = g.choose('kind', ['int', 'float', 'word'])
    seq = []
    for i in range(n):
        seq.append(g.int('i%d' % i, -10 ** 6, 10 ** 6, samp=(-10 ** 6, 10 ** 6)) if kind == 'int' else number(g, 'x%d' % i) if kind == 'float'
                   else text(g, 'w%d' % i, 'abcXYZ_.%', 1, 5))
    func = {'int': int, 'float': float, 'word': str}[kind]
    sep = g.choose('sep', [None] + SEPS)
    seq = {0: list, 1: tuple}[g.int('type', 0, 1)](seq)
    s0 = list(seq)
    kw = {} if sep is None else {'sep': sep}
    fw = {} if kind != 'float' else {'func': repr}
    st = g.call('common.seq2str', seq, **fw, **kw)
    g.ensure('text', isinstance(st, str) and st == (sep or ' ').join([repr(x) if kind == 'float' else str(x) for x in s0]))
    fk = {} if kind == 'int' and g.flag('default func') else {'func': func}
    if n == 0 and sep is not None:
        return
    back = g.call('common.str2seq', st, **fk, **kw)
    g.ensure('list', isinstance(back, list) and back == s0 and [type(x) for x in back] == [type(x) for x in s0])
    tup = g.call('common.str2tup', st, **fk, **kw)
    g.ensure('tuple', isinstance(tup, tuple) and tup == tuple(s0))
    g.ensure('input kept', list(seq) == s0)
    if sep is not None:
        ws = [text(g, 'e%d' % i, 'ab', 0, 1) for i in range(n)]
        g.ensure('empty words', n == 0 or g.call('common.str2seq', sep.join(ws), func=str, sep=sep) == ws)


@unit('C27', ['common.frepr'], mode='bounded', n=400, why='text')
def frepr(g):
    """floats: the format, 17 significant digits by default, reads back exactly; strings as they are; others: repr"""
    x = number(g, 'x')
    s = g.call('common.frepr', x)
    g.ensure('text', isinstance(s, str) and s == '%.16e' % x)
    g.ensure('exact', float(s) == x)
    g.ensure('format', g.call('common.frepr', x, ffmt='%.3f') == '%.3f' % x and g.call('common.frepr', x, '%g') == '%g' % x)
    t = text(g, 't', "ab'\" 1.e%\\", 0, 6)
    g.ensure('string', g.call('common.frepr', t) == t)
    for o in (g.int('i', -10 ** 9, 10 ** 9, samp=(-10 ** 9, 10 ** 9)), None, True, [x], (1, 'a'), {'k': x}):
        g.ensure('repr', g.call('common.frepr', o) == repr(o))


WORDS = {True: ['.true.', '1', 'true', 'on', 'yes'], False: ['.false.', '0', 'false', 'off', 'no']}


@unit('C27', ['common.tobool'], mode='bounded', n=300, why='text')
def tobool(g):
    """documented words in any case, integers and booleans; anything else is refused"""
    want = g.flag('want')
    w = g.choose('word', WORDS[want])
    st = ''.join(c.upper() if g.int('u%d' % i, 0, 1) else c for i, c in enumerate(w))
    g.ensure('word', g.call('common.tobool', st) is want)
    k = g.int('k', -9, 9, samp=(-9, 9))
    g.ensure('integer', g.call('common.tobool', k) is (k != 0))
    g.ensure('bool', g.call('common.tobool', want) is want)
    bad = text(g, 'bad', 'tfyn012.', 0, 3)
    g.require(bad.lower() not in WORDS[True] + WORDS[False])
    g.raises('other words', Exception, lambda: g.call('common.tobool', bad))
    g.raises('other types', Exception, lambda: g.call('common.tobool', g.choose('obj', [None, 1.0, 0.0, [], [1]])))


@unit('C27', ['common.ffloat'], mode='bounded', n=600, why='text')
def ffloat(g):
    """Python and Fortran notation (d or D exponent, optional kind) give the same double"""
    import math
    neg, ip, fp = g.choose('sign', ['', '-', '+']), text(g, 'ip', '0123456789', 0, 6), text(g, 'fp', '0123456789', 0, 6)
    g.require(ip or fp)
    man = neg + ip + ('.' + fp if fp or g.flag('dot') else '')
    es, ex = g.choose('exp sign', ['', '+', '-']), '%0*d' % (g.int('wid', 1, 3), g.int('ex', 0, 200, samp=(0, 200)))
    ws, we = g.choose('before', ['', ' ', '  ']), g.choose('after', ['', ' ', '\n'])
    want = float(man + 'e' + es + ex)
    for c in 'dDeE':
        g.ensure('exponent ' + c, g.call('common.ffloat', ws + man + c + es + ex + we) == want)
    g.ensure('no exponent', g.call('common.ffloat', ws + man + we) == float(man))
    g.ensure('kind ignored', g.call('common.ffloat', man + 'd' + es + ex + '_' + g.choose('kind', ['10', 'dp', 'd'])) == want)
    g.raises('no number', ValueError, lambda: g.call('common.ffloat', g.choose('bad', ['d', 'abd12', 'x', '', '--', 'da'])))


@unit('C27', ['common.toslice'], mode='bounded', n=500, why='text')
def toslice(g):
    """text of an index or slice -> the same index or slice"""
    part = [g.choose('p%d' % i, [None, 'n']) for i in range(3)]
    v = [None if p is None else g.int('v%d' % i, -9, 9, samp=(-9, 9)) for i, p in enumerate(part)]
    f = lambda x: '' if x is None else str(x)
    how = g.choose('how', [1, 2, 3])
    if how == 1:
        k = v[0] if v[0] is not None else 4
        g.ensure('index', g.call('common.toslice', str(k)) == k)
        return
    st = f(v[0]) + ':' + f(v[1]) + (':' + f(v[2]) if how == 3 else '')
    if g.flag('blanks'):
        st = ' ' + st.replace(':', ' : ') + ' '
    r = g.call('common.toslice', st)
    g.ensure('slice', isinstance(r, slice) and r == slice(v[0], v[1], v[2] if how == 3 else None))


def nested(g, depth, tag, leaves):
    import numpy as np
    n = g.count('len' + tag, 0, 4)
    out = []
    for i in range(n):
        k = g.int('kind%s_%d' % (tag, i), 0, 7)
        if k >= 5 and depth > 0:
            out.append(nested(g, depth - 1, '%s_%d' % (tag, i), leaves))
            continue
        if k == 4 and g.int('arr%s_%d' % (tag, i), 0, 1):
            a = np.arange(3) + 10 * len(leaves)
            leaves.extend(list(a))
            out.append(a)
            continue
        x = [len(leaves), 'ab%d' % len(leaves), '', None, 2.5, 'x', True, 'yz'][k]
        leaves.append(x)
        out.append(x)
    return tuple(out) if g.int('tuple' + tag, 0, 1) else out


@unit('C27', ['common.flatten', 'common.iflatten', 'common.is_seq', 'common.asseq'], mode='bounded', n=500, why='objects of arbitrary nesting')
def flatten(g):
    """every leaf once, in order; strings (also empty ones) are leaves"""
    leaves = []
    x = nested(g, 3, '', leaves)
    same = lambda a: len(a) == len(leaves) and all(type(p) == type(q) and p == q for p, q in zip(a, leaves))
    r = g.call('common.flatten', x)
    g.ensure('list', isinstance(r, list) and same(r))
    g.ensure('generator', same(list(g.call('common.iflatten', x))))
    g.ensure('iterator input', same(g.call('common.flatten', iter(x))))
    for o in leaves:
        g.ensure('leaf', g.call('common.is_seq', o) is False)
        a = g.call('common.asseq', o)
        g.ensure('asseq of a leaf', isinstance(a, list) and len(a) == 1 and a[0] is o)
    g.ensure('sequence', g.call('common.is_seq', x) is True and g.call('common.asseq', x) is x)


@unit('C27', ['common.pop_from_list', 'common.dict2str', 'common.dict2class'], mode='bounded', n=200, why='Python objects')
def small_helpers(g):
    n = g.int('n', 1, samp=(1, 8))
    lst = [g.int('x%d' % i, 0, 4) for i in range(n)]
    k = g.int('k', 0, n)
    items = lst[:]
    idx = sorted(range(n), key=lambda i: g.int('o%d' % i, 0, 99))[:k]
    items = [lst[i] for i in idx]
    want = lst[:]
    for it in items:
        want.remove(it)
    l0 = lst[:]
    g.ensure('popped', g.call('common.pop_from_list', lst, items) == want)
    g.ensure('list kept', lst == l0)
    d = {'k%d' % i: v for i, v in enumerate(lst)}
    d['t'] = text(g, 't', 'ab\n', 0, 3)
    g.ensure('dict2str', g.call('common.dict2str', d) == ''.join('%s: %r\n' % kv for kv in d.items()))
    o = g.call('common.dict2class', d, 'Foo')
    g.ensure('dict2class', o.__dict__ == d and type(o).__name__ == 'Foo')
