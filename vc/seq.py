"""List-like sequences of symbolic length."""
import z3
from . import core
from .core import Sym, Unsupported, ctx, mk, mkb, ite, I, intexpr
from .arr import SymArr, as_arr, conc, dim, norm_index, norm_slice, same_dim, Ax, Store
import numpy as _np


class SymSeq:
    """immutable sequence of length n with element function fn"""
    _is_symseq = True
    __array_ufunc__ = None
    probe = None

    def __init__(self, n, fn):
        self.n = dim(n)
        self.fn = fn

    def __iter__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('iteration over a sequence of symbolic length')
        return iter([self.fn(i) for i in range(c)])

    def __len__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported('len() of a symbolic sequence outside verified code')
        return c

    def __bool__(self):
        return ctx().decide(intexpr(self.n) > 0)

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, sp, ln = norm_slice(k, self.n)
            return SymSeq(ln, lambda i: self.fn(_at(st, sp, i)))
        return self.fn(norm_index(k, self.n))

    def __add__(self, o):
        if isinstance(o, (list, tuple, SymSeq)):
            return cat(self, o)
        if isinstance(o, (SymArr, _np.ndarray)):
            return to_array(self) + o
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (list, tuple)):
            return cat(o, self)
        return NotImplemented

    def __mul__(self, n):
        if isinstance(n, (SymArr, _np.ndarray)):
            return to_array(self) * n
        return repeat(self, n)
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (SymSeq, list, tuple)):
            return seq_eq(self, o)
        return False

    def __ne__(self, o):
        return core.lnot(self.__eq__(o))

    def __hash__(self):
        return id(self)

    def __contains__(self, x):
        raise Unsupported('membership in a sequence of symbolic length')

    def __copy__(self):
        return SymSeq(self.n, self.fn)

    def __deepcopy__(self, memo):
        return SymSeq(self.n, self.fn)

    def copy(self):
        return SymSeq(self.n, self.fn)

    def index(self, x):
        raise Unsupported('index() in a sequence of symbolic length')

    def append(self, x):
        raise Unsupported('append to a sequence of symbolic length')
    extend = count = append


def _at(st, sp, i):
    r = i if conc(sp) == 1 else i * sp
    return r if conc(st) == 0 else r + st


def seqlen(x):
    if isinstance(x, SymSeq):
        return x.n
    if isinstance(x, (SymArr,)):
        return x.shape_[0]
    if isinstance(x, SymRange):
        return x.length()
    return len(x)


def item(x, i):
    """element i (known in range) of a list/tuple/SymSeq/array/range"""
    if isinstance(x, SymSeq):
        return x.fn(i)
    if isinstance(x, SymRange):
        return x.at(i)
    if isinstance(x, (list, tuple, range)):
        c = conc(i)
        if c is not None:
            return x[c]
        from .arr import select
        return select(list(x), i)
    a = as_arr(x)
    return a._basic([i] + [slice(None)] * (a.ndim - 1)) if a.ndim > 1 else a.elem(i)


def cat(a, b):
    na, nb = seqlen(a), seqlen(b)
    if conc(na) == 0:
        return b
    if conc(nb) == 0:
        return a

    def fn(i):
        c = mkb(intexpr(i) < intexpr(na))
        if c is True:
            return item(a, i)
        if c is False:
            return item(b, i - na)
        return merge(c, item(a, i), item(b, i - na))
    return SymSeq(na + nb, fn)


def merge(c, x, y):
    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and len(x) == len(y):
        return type(x)(merge(c, p, q) for p, q in zip(x, y))
    if isinstance(x, (SymArr, _np.ndarray)) and isinstance(y, (SymArr, _np.ndarray)):
        x, y = as_arr(x), as_arr(y)
        if x.ndim == y.ndim and all(same_dim(p, q) for p, q in zip(x.shape_, y.shape_)):
            fx, fy = x.vfn(), y.vfn()
            return SymArr(x.shape_, lambda idx: ite(c, fx(idx), fy(idx)), max(x.kind, y.kind, key='bifO'.index))
        raise Unsupported('merge of arrays of different shape')
    return ite(c, x, y)


def repeat(seq, n):
    if isinstance(seq, str):
        from . import text
        return text.repeat(seq, n)
    if conc(n) is not None and not isinstance(seq, SymSeq):
        return seq * conc(n)
    m = seqlen(seq)
    n = core.ite(mkb(intexpr(n) > 0), n, 0) if conc(n) is None and not ctx().entails(intexpr(n) >= 0) else n
    cm = conc(m)
    if cm == 1:
        return SymSeq(n, lambda i: item(seq, 0))
    if cm == 0:
        return seq
    return SymSeq(m * n, lambda i: item(seq, i % m))


def seq_eq(a, b):
    na, nb = seqlen(a), seqlen(b)
    e = mkb(intexpr(na) == intexpr(nb))
    if e is False:
        return False
    c = ctx()
    q = z3.Const('q@%d' % next(c.counter), z3.IntSort())
    def eqs():
        x, y = item(a, Sym(I, q)), item(b, Sym(I, q))
        r = x == y
        if isinstance(r, (SymArr, _np.ndarray)):
            raise Unsupported('equality of sequences of arrays')
        return core.boolexpr(r)
    body = core.below_quantifier(eqs, [q >= 0, q < intexpr(na)])
    return core.land(e, mkb(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < intexpr(na)), body))))


def _probe(s):
    """element at an arbitrary valid position (for its type and shape)"""
    c = ctx()
    k = c.fresh('probe', I, plain=True)
    s.probe = k
    rng = [k.e >= 0, k.e < intexpr(s.n)]
    if c.feasible(intexpr(s.n) > 0):
        try:
            return core.under(rng, lambda: s.fn(k), 'probe')
        except Unsupported as e:
            if 'branch below' not in str(e):
                raise
    return s.fn(k)


def to_array(s):
    c = conc(s.n)
    if c is not None:
        return as_arr([s.fn(i) for i in range(c)])
    probe = _probe(s)
    if isinstance(probe, (list, tuple, _np.ndarray, SymArr, SymSeq)):
        p = as_arr(probe)
        return SymArr((s.n,) + tuple(p.shape_), lambda idx: as_arr(s.fn(idx[0])).elem(*idx[1:]), p.kind)
    from .arr import kind_of
    if isinstance(probe, Sym):
        # the element function is the term at the arbitrary position, unless the body made fresh symbols
        from . import prover
        k = s.probe.e
        n0 = int(str(k).rsplit('!', 1)[1])
        new = [x for x in prover.consts(probe.e) if '!' in x or '@' in x]
        num = [int(t) for x in new if x != str(k) for t in [x.replace('@', '!').split('!')[1]] if t.isdigit()]
        if all(t < n0 for t in num) and not any('@' in x for x in new):
            return SymArr((s.n,), lambda idx: mk(probe.k, z3.substitute(probe.e, (k, intexpr(idx[0])))), kind_of([probe]))
    return SymArr((s.n,), lambda idx: s.fn(idx[0]), kind_of([probe]))


def from_array(a):
    if a.ndim == 1:
        f = a.vfn()
        return SymSeq(a.shape_[0], lambda i: f((i,)))
    return SymSeq(a.shape_[0], lambda i: from_array(a._basic([i] + [slice(None)] * (a.ndim - 1))))


def concat_arrays(s, axis):
    """concatenation of a symbolic number of arrays of equal shape"""
    p = as_arr(_probe(s))
    axis %= p.ndim
    m = p.shape_[axis]
    shape = list(p.shape_)
    shape[axis] = m * s.n

    def fn(idx):
        i = idx[axis]
        if conc(m) == 1:
            j, r = i, 0
        else:
            j, r = i // m, i % m
        return as_arr(s.fn(j)).elem(*(tuple(idx[:axis]) + (r,) + tuple(idx[axis + 1:])))
    return SymArr(shape, fn, p.kind)


class SymRange:
    _is_symrange = True

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        sp = conc(self.step)
        if sp is None or sp == 0:
            raise Unsupported('range with symbolic step')
        d = self.hi - self.lo if sp > 0 else self.lo - self.hi
        s = abs(sp)
        n = d if s == 1 else (d + (s - 1)) // s
        c = conc(n)
        if c is not None:
            return max(c, 0)
        if ctx().entails(intexpr(n) >= 0):
            return n
        return ite(mkb(intexpr(n) > 0), n, 0)

    def at(self, i):
        return _at(self.lo, self.step, i)

    def __iter__(self):
        c = conc(self.length())
        if c is None:
            raise Unsupported('iteration over a symbolic range')
        return iter([self.at(i) for i in range(c)])

    def __len__(self):
        c = conc(self.length())
        if c is None:
            raise Unsupported('len of a symbolic range')
        return c

    def __getitem__(self, k):
        return self.at(norm_index(k, self.length()))


def is_symbolic_iter(x):
    if isinstance(x, (SymSeq, SymRange)):
        return conc(seqlen(x)) is None
    if isinstance(x, SymArr):
        return x.ndim > 0 and conc(x.shape_[0]) is None
    return False
