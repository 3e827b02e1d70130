"""Contracts as executable harnesses, run three ways over the same code of /repo:

  symbolic   every path of the real source, all inputs (SymG): each ensure() becomes an obligation
  replay     one concrete input (a verifier counterexample), the real package under CPython (RealG)
  bounded    seeded concrete inputs, the real package (RealG): stated bound, never counted as proved

A unit is  @unit(prop, functions=[...])  def name(g): ...  with g the generator/observer below.
"""
import re, sys, os, time, random, traceback, itertools, math, signal
import numpy as np
import z3
from . import core, arr, seq, npf, prover, text
from .core import Sym, Unsupported, PathEnd, R, I, B, U, Fraction
from .arr import SymArr, as_arr, conc
from .seq import SymSeq


class Reject(BaseException):
    """concrete input outside the precondition"""


class Violated(BaseException):
    def __init__(self, name, detail=''):
        self.name, self.detail = name, detail


UNITS = []


class Unit:
    def __init__(self, fn, prop, functions, kw):
        self.fn, self.prop, self.functions = fn, prop, list(functions)
        self.name = fn.__name__
        self.id = '%s.%s' % (prop, fn.__name__)
        self.stubs = kw.pop('stubs', None)          # callable(SymG) -> {'pwtools.x': obj}
        self.mode = kw.pop('mode', 'proof')         # 'proof' | 'bounded'
        self.n = kw.pop('n', 200)                   # bounded runs in quick
        self.budget = kw.pop('budget', 90)          # seconds for the proof
        self.timeout = kw.pop('timeout', 6000)      # ms per solver query
        self.trusted = kw.pop('trusted', [])        # contracts assumed on dependencies
        self.why = kw.pop('why', '')                # why bounded
        self.fresh = kw.pop('fresh', False)         # reload the modules on every path
        self.maxpaths = kw.pop('maxpaths', None)
        self.split = kw.pop('split', 8)             # case split depth
        self.fork = kw.pop('fork', None)            # {choice: number of options}: proved as separate tasks
        self.assume = kw.pop('assume', [])
        self.tmax = kw.pop('tmax', None)            # seconds for the bounded runs (quick)
        self.doc = (fn.__doc__ or '').strip()
        if kw:
            raise TypeError('unknown unit options %s' % list(kw))


def unit(prop, functions, **kw):
    def deco(fn):
        UNITS.append(Unit(fn, prop, functions, dict(kw)))
        return fn
    return deco


# ------------------------------------------------------------------ symbolic mode

def _nonneg(name, lo):
    if isinstance(lo, (int, float)) and lo >= 0:
        prover.NONNEG.add(name)


class SymG:
    sym = True

    def __init__(self, c, world, unit, fix=None):
        self.c, self.world, self.unit = c, world, unit
        self.fix = fix or {}
        prover.NONNEG.clear()
        self.np = npf.numpy
        self.used = set()
        self.tick = 0

    # --- inputs
    def real(self, name, lo=None, hi=None, samp=None):
        s = Sym(R, z3.Const(name, z3.RealSort()))
        self.c.inputs[name] = ('real', s.e)
        _nonneg(name, lo)
        if lo is not None:
            self.c.assume(core.boolexpr(s >= lo))
        if hi is not None:
            self.c.assume(core.boolexpr(s <= hi))
        return s

    def int(self, name, lo=None, hi=None, samp=None):
        s = Sym(I, z3.Const(name, z3.IntSort()))
        self.c.inputs[name] = ('int', s.e)
        _nonneg(name, lo)
        if lo is not None:
            self.c.assume(core.boolexpr(s >= lo))
        if hi is not None:
            self.c.assume(core.boolexpr(s <= hi))
        return s

    def dim(self, name, lo=1, samp=None):
        self.c.ghost.setdefault('dims', []).append(name)
        return self.int(name, lo)

    def bool(self, name):
        s = Sym(B, z3.Const(name, z3.BoolSort()))
        self.c.inputs[name] = ('bool', s.e)
        return s

    def choose(self, name, options):
        """an arbitrary one of finitely many options (a concrete choice on every path)"""
        n = len(options)
        if n == 1:
            return options[0]
        k = self.int('choice_' + name, 0, n - 1)
        if name in self.fix:
            self.c.assume(k.e == self.fix[name])
            return options[self.fix[name]]
        for i in range(n - 1):
            if self.c.decide(k.e == i):
                return options[i]
        return options[n - 1]

    def flag(self, name):
        return self.choose(name, [False, True])

    def _array(self, name, shape, kind, lo, hi):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        sort = core.SORT[kind]
        cs = [conc(s) for s in shape]
        akind = {R: 'f', I: 'i', B: 'b', U: 'O'}[kind]

        def bound(v):
            if lo is not None:
                self.c.assume(core.boolexpr(Sym(kind, v) >= lo))
            if hi is not None:
                self.c.assume(core.boolexpr(Sym(kind, v) <= hi))
        if all(x is not None for x in cs) and int(np.prod(cs)) <= 100:
            vals = {}
            for ix in np.ndindex(*cs):
                v = z3.Const('%s_%s' % (name, '_'.join(map(str, ix))), sort)
                _nonneg('%s_%s' % (name, '_'.join(map(str, ix))), lo)
                vals[ix] = Sym(kind, v)
                bound(v)
            self.c.inputs[name] = ('array', (kind, cs, {k: v.e for k, v in vals.items()}))
            return arr.from_cells(_objarr(vals, cs), akind)
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [sort]))
        _nonneg(name, lo)
        self.c.inputs[name] = ('array', (kind, shape, f))
        seen = set()

        def fn(idx):
            es = [core.intexpr(i) for i in idx]
            e = f(*es)
            if (lo is not None or hi is not None) and e.get_id() not in seen:
                seen.add(e.get_id())
                self._keep = getattr(self, '_keep', []) + [e]
                inr = z3.And(*[z3.And(q >= 0, q < core.intexpr(n)) for q, n in zip(es, shape)])
                if lo is not None:
                    self.c.assume(z3.Implies(inr, e >= core.lift(lo)[1] if kind == I else e >= core.real(lo)), soft=True)
                if hi is not None:
                    self.c.assume(z3.Implies(inr, e <= core.lift(hi)[1] if kind == I else e <= core.real(hi)), soft=True)
            return Sym(kind, e)
        return SymArr(shape, fn, akind)

    def reals(self, name, shape, lo=None, hi=None, samp=None):
        return self._array(name, shape, R, lo, hi)

    def ints(self, name, shape, lo=None, hi=None, samp=None):
        return self._array(name, shape, I, lo, hi)

    def bools(self, name, shape):
        return self._array(name, shape, B, None, None)

    def labels(self, name, n, alphabet=('H', 'O', 'Ca', 'Si')):
        """list of n opaque labels (only equality is observable)"""
        c = conc(n)
        if c is not None:
            es = [z3.Const('%s_%d' % (name, i), core.OBJ) for i in range(c)]
            self.c.inputs[name] = ('labels', (c, es, alphabet))
            return [Sym(U, e) for e in es]
        f = z3.Function(name, z3.IntSort(), core.OBJ)
        self.c.inputs[name] = ('labels', (n, f, alphabet))
        return SymSeq(n, lambda i: Sym(U, f(core.intexpr(i))))

    def func(self, name, *kinds, samp=None):
        """an arbitrary function reals -> real (uninterpreted)"""
        f = z3.Function(name, *([z3.RealSort()] * (len(kinds) or 1) + [z3.RealSort()]))
        self.c.inputs[name] = ('func', f)
        return lambda *a: Sym(R, f(*[core.real(x) for x in a]))

    def seqof(self, n, fn):
        c = conc(n)
        if c is not None:
            return [fn(i) for i in range(c)]
        return SymSeq(n, fn)

    def array(self, shape, fn, kind='f'):
        shape = tuple(shape)
        return SymArr(shape, lambda idx: fn(*idx), kind)

    # --- conditions
    def require(self, cond):
        e = core.boolexpr(cond)
        self.c.assume(e)
        for a in prover.axioms([e]):
            self.c.solver.add(a)
        if self.c.solver.check() == z3.unsat:
            raise PathEnd()

    def ensure(self, name, cond):
        self.c.obligations.append(core.Obligation(name, list(self.c.pc), core.boolexpr(cond)))

    def lemma(self, name, cond, using=None, gen=(), also=()):
        """obligation that may be used afterwards.  using: the only facts the proof may use (each has to be on
        the path already, or becomes an obligation itself); gen: terms generalised to arbitrary values"""
        e = core.boolexpr(cond)
        if using is None:
            self.c.obligations.append(core.Obligation(name, list(self.c.pc), e))
        else:
            us = []
            have = {x.get_id() for p in self.c.pc for x in prover.conjuncts(p)} | {p.get_id() for p in self.c.pc}
            for k, u in enumerate(using):
                ue = core.boolexpr(u)
                if z3.is_true(ue):
                    continue
                us.append(ue)
                if ue.get_id() not in have and not any(z3.eq(z3.simplify(ue), z3.simplify(p)) for p in self.c.pc):
                    self.c.obligations.append(core.Obligation('%s.using%d' % (name, k), list(self.c.pc), ue))
            sub = []
            for q, t in enumerate(gen):
                k, te = core.lift(t)
                if k == I:
                    te = core.toreal(k, te)
                    k = R
                sub.append((te, z3.Const('gen!%d!%d' % (next(self.c.counter), q), core.SORT[k])))
            if sub:
                us = [z3.substitute(x, *sub) for x in us]
                e2 = z3.substitute(e, *sub)
            else:
                e2 = e
            self.c.obligations.append(core.Obligation(name, us, e2))
        self.c.assume(e)

    def callee(self, q, args, shape, post, kw={}):
        """result of calling q, known only through its contract (proved by another unit): an arbitrary
        value of this shape satisfying post"""
        self.used.add(q)
        cs = tuple(shape)
        n = next(self.c.counter)
        nm = 'res%d_%s' % (n, q.split('.')[-1])
        if cs == ():
            r = Sym(R, z3.Const(nm, z3.RealSort()))
        else:
            k = len(self.c.inputs)
            r = self._array(nm, cs, R, None, None)
            self.c.inputs.pop(nm)
        for p in post(r):
            self.require(p)
        return r

    def forall(self, name, dims, fn):
        """fn(i, j, ...) holds for all indices in range(dims[0]) x range(dims[1]) x ..."""
        ix, guards = [], []
        cs = [conc(d) for d in dims]
        if all(c is not None for c in cs):
            for t in itertools.product(*[range(c) for c in cs]):
                self.ensure('%s[%s]' % (name, ','.join(map(str, t))), fn(*t))
            return
        sub = []
        for d in dims:
            c = conc(d)
            if c is not None and c <= 4:
                sub.append([(k, None) for k in range(c)])
            else:
                v = self.c.fresh('ix', I)
                sub.append([(v, z3.And(v.e >= 0, v.e < core.intexpr(d)))])
        for t in itertools.product(*sub):
            n0 = len(self.c.pc)
            ni = len(self.c.indices)
            g = [x[1] for x in t if x[1] is not None]
            # reading arrays may branch: do it under the assumption that the indices are in range
            self.c.solver.push()
            for e in g:
                self.c.pc.append(e)
                self.c.solver.add(e)
            try:
                if self.c.solver.check() == z3.unsat:
                    continue
                for x, d in zip(t, dims):
                    if x[1] is not None or self.c.lazy or self.c.qfacts:
                        self.c.instantiate(x[0], d)
                cond = core.boolexpr(fn(*[x[0] for x in t]))
                self.c.obligations.append(core.Obligation(
                    '%s[%s]' % (name, ','.join(str(x[0]) if x[1] is None else '*' for x in t)), list(self.c.pc), cond))
            finally:
                self.c.solver.pop()
                del self.c.indices[ni:]
                # decisions taken while reading stay in pc as facts about the path
                keep = [e for e in self.c.pc[n0:] if not any(e is q for q in g)]
                self.c.pc[n0:] = [z3.Implies(z3.And(*g), e) if g else e for e in keep]
                for e in self.c.pc[n0:]:
                    self.c.solver.add(e)

    def inrange(self, n, body):
        """body(k) for an arbitrary k in [0, n): obligations made there hold for all k"""
        c = self.c
        v = c.fresh('ix', I)
        g = z3.And(v.e >= 0, v.e < core.intexpr(n))
        n0, ni = len(c.pc), len(c.indices)
        c.solver.push()
        c.pc.append(g)
        c.solver.add(g)
        try:
            if c.solver.check() == z3.unsat:
                return
            c.instantiate(v, n)
            body(v)
        finally:
            c.solver.pop()
            del c.indices[ni:]
            keep = [e for e in c.pc[n0:] if e is not g]
            c.pc[n0:] = [z3.Implies(g, e) for e in keep]
            for e in c.pc[n0:]:
                c.solver.add(e)

    def rep(self, n, fn):
        return text.Rep(n, fn)

    def text(self, name, txt, want, digits=16, comment=None):
        """txt consists of the lines want: each a list of fields (literal text, value, or list of both for a field put
        together); g.rep(n, lambda i: ...) stands for n groups of lines, or within a line for n fields.  Values have to
        be written with enough digits; blank lines and the amount of white space are free"""
        try:
            have = text.scan(txt, comment)
            cnt = [0]

            def emit(v, w):
                cnt[0] += 1
                self.ensure('%s.value%d' % (name, cnt[0]), _eqs(v, w))
            text.compare(have, [text.as_line(x) for x in want], digits, emit, self.inrange)
            self.ensure(name, True)
        except text.Mismatch as e:
            self.c.ghost['inexact'] = True
            self.ensure('%s (%s)' % (name, e), False)

    def close(self, a, b, rtol=None, atol=None):
        return core.mkb(core.real(a) == core.real(b))

    def eq(self, name, a, b, rtol=None, atol=None):
        """a equals b (arrays: same shape and elements; sequences: same length and elements)"""
        if isinstance(b, (list, tuple, SymSeq)) and isinstance(a, (list, tuple, SymSeq)):
            return self.seqeq(name, a, b)
        aa, bb = self._as(a), self._as(b)
        if isinstance(aa, SymArr) or isinstance(bb, SymArr):
            aa, bb = as_arr(aa), as_arr(bb)
            if aa.ndim != bb.ndim:
                self.ensure(name + '.ndim', False)
                return
            for x, y in zip(aa.shape_, bb.shape_):
                if not (conc(x) is not None and conc(x) == conc(y)):
                    self.ensure(name + '.shape', core.mkb(core.intexpr(x) == core.intexpr(y)))
            bf, af = bb.vfn(), aa.vfn()
            if aa.ndim == 0:
                self.ensure(name, _eqs(af(()), bf(())))
                return
            self.forall(name, bb.shape_, lambda *ix: _eqs(af(ix), bf(ix)))
            return
        self.ensure(name, _eqs(aa, bb))

    def seqeq(self, name, a, b):
        na, nb = seq.seqlen(a), seq.seqlen(b)
        self.ensure(name + '.len', core.mkb(core.intexpr(na) == core.intexpr(nb)))
        if conc(na) is not None and conc(nb) is not None and conc(na) != conc(nb):
            return
        self.forall(name, (nb,), lambda i: _eqs(seq.item(a, i), seq.item(b, i)))

    def _as(self, x):
        if isinstance(x, (SymArr, Sym)):
            return x
        if isinstance(x, np.ndarray) and x.ndim:
            return as_arr(x)
        if isinstance(x, (list, tuple)):
            return as_arr(x)
        return x

    def shape(self, name, a, shape):
        sh = getattr(a, 'shape', None)
        if sh is None or len(sh) != len(shape):
            self.ensure(name, False)
            return
        self.ensure(name, core.land(*[core.mkb(core.intexpr(x) == core.intexpr(y)) for x, y in zip(sh, shape)]) if shape else True)

    def snap(self, a):
        return a.copy() if isinstance(a, (SymArr, np.ndarray)) else a

    def unchanged(self, name, a, snap):
        self.eq(name, a, snap)

    def raises(self, name, excs, thunk):
        try:
            r = thunk()
        except excs:
            self.ensure(name, True)
            return
        self.ensure(name, False)

    # --- functions under contract
    def attr(self, q):
        self.used.add(q)
        mod, _, nm = q.partition('.')
        m = self.world.load('pwtools.' + mod)
        o = m
        pre = 'pwtools.' + mod
        for p in nm.split('.'):
            pre += '.' + p
            if not hasattr(o, p):
                try:
                    setattr(o, p, self.world.load(pre))
                except Unsupported:
                    pass
            o = getattr(o, p)
        return o

    def call(self, q, *a, **k):
        return self.attr(q)(*a, **k)

    def mod(self, name):
        return self.world.load('pwtools.' + name)

    def override(self, q, val):
        """callee contract: replace module attribute (per World)"""
        mod, _, nm = q.rpartition('.')
        m = self.world.load('pwtools.' + mod)
        setattr(m, nm, val)

    # --- spec vocabulary
    pi = Sym(R, core.PI)

    def sum(self, fn, n, lo=0):
        return arr.big_sum(fn, lo, n)

    def deriv(self, fn, x, n=1):
        """n-th derivative of the scalar function fn at x (exact, of the term the code computes)"""
        v = z3.Const('dv!%d' % next(self.c.counter), z3.RealSort())
        e = core.toreal(*core.lift(fn(Sym(R, v))))
        for _ in range(n):
            e = core.diff(e, v)
        return Sym(R, z3.substitute(e, (v, core.real(x))))

    def ite(self, c, a, b):
        return core.ite(c if isinstance(c, Sym) else bool(c), a, b)

    def land(self, *x): return core.land(*x)
    def lor(self, *x): return core.lor(*x)
    def lnot(self, x): return core.lnot(x)
    def implies(self, a, b): return core.implies(a, b)
    def iff(self, a, b): return core.mkb(core.boolexpr(a) == core.boolexpr(b))
    def same(self, a, b): return _eqs(a, b)
    def floor(self, x): return core.floor(x)
    def isint(self, x): return core.mkb(z3.IsInt(core.real(x)))
    def abs(self, x): return abs(x)
    def toreal(self, x): return core.cast(x, 'f') if isinstance(x, Sym) else x

    def __getattr__(self, n):
        if n in core.MF:
            return lambda x: core.m1(n, x)
        raise AttributeError(n)

    def atan2(self, a, b): return Sym(R, core.ATAN2(core.real(a), core.real(b)))
    def frac(self, p, q): return Sym(R, core.realval(Fraction(p, q)))

    def forall_in(self, dims, fn):
        """bounded-quantifier formula (for use in require)"""
        vs = [z3.Int('q!%d' % next(self.c.counter)) for _ in dims]
        rng = z3.And(*[z3.And(v >= 0, v < core.intexpr(d)) for v, d in zip(vs, dims)])
        body = core.below_quantifier(lambda: core.boolexpr(fn(*[Sym(I, v) for v in vs])), [rng])
        return Sym(B, z3.ForAll(vs, z3.Implies(rng, body)))

    def exists_in(self, n, fn):
        return npf._bexists(n, fn)

    def indexset(self, name, r, n, pred):
        """r is the increasing list of exactly the j in range(n) with pred(j)"""
        if not isinstance(r, npf.IdxSet):
            raise Unsupported('index set of another form')
        self.ensure(name + '.increasing', r.inc and r.intact())
        self.forall(name + '.members', (n,), lambda j: self.iff(r.member(j), pred(j)))

    def require_all(self, dims, fn):
        """hypothesis for all indices; one symbolic dimension: instantiated at every index constant introduced
        later (loop iterations, indices of universally quantified obligations), never as a quantifier"""
        if len(dims) == 1:
            n = conc(dims[0])
            if n is not None:
                for i in range(n):
                    self.require(fn(i))
                return
            self.c.lazy.append((dims[0], fn))
            return
        self.require(self.forall_in(dims, fn))

    def note(self, s):
        pass

    def scratch(self):
        raise Unsupported('files')

    def concrete_only(self):
        raise Unsupported('concrete only')


def _objarr(vals, cs):
    o = np.empty(cs, dtype=object)
    for k, v in vals.items():
        o[k] = v
    return o


def _eqs(a, b):
    if isinstance(a, SymArr) and a.ndim == 0:
        a = a.elem()
    if isinstance(b, SymArr) and b.ndim == 0:
        b = b.elem()
    if isinstance(a, (SymArr, list, tuple, SymSeq)) or isinstance(b, (SymArr, list, tuple, SymSeq)):
        if isinstance(a, SymArr) and isinstance(b, SymArr):
            r = a == b
            return r.all() if isinstance(r, SymArr) else r
        return seq.seq_eq(a, b)
    la, lb = core.lift(a), core.lift(b)
    if la is None or lb is None:
        return a is b or bool(a == b)
    if U in (la[0], lb[0]):
        if la[0] != lb[0]:
            return False
        return core.mkb(la[1] == lb[1])
    if la[0] != R and lb[0] != R:
        return Sym(B, core.toint(*la) == core.toint(*lb)) if not (z3.is_int_value(la[1]) and z3.is_int_value(lb[1])) else la[1].as_long() == lb[1].as_long()
    ea, eb = core.toreal(*la), core.toreal(*lb)
    if z3.eq(ea, eb):
        return True
    return Sym(B, ea == eb)        # not simplified: the prover's normal form wants the two sides


# ------------------------------------------------------------------ concrete mode

MAXDIM = 200000


class RealG:
    sym = False
    pi = math.pi

    def __init__(self, real, rnd=None, model=None, unit=None, size=1.0):
        self.world, self.rnd, self.model, self.unit = real, rnd or random.Random(0), model, unit
        self.np = np
        self.inputs = {}
        self.fails = []
        self.checks = 0
        self.size = size
        self.used = set()
        self._kind = {}
        self._scr = []
        self.lits = None            # numeric literals that the current source has and the committed one has not

    def _lit(self, lo, hi, p):
        if not self.lits or self.rnd.random() > p:
            return None
        v = [c + d for c in self.lits if isinstance(c, int) for d in (-1, 0, 1) if (lo is None or c + d >= lo) and (hi is None or c + d <= hi)]
        return self.rnd.choice(v) if v else None

    def _get(self, name, draw):
        if self.model is not None and name in self.model:
            v = self.model[name]
        else:
            v = draw()
        self.inputs[name] = v
        return v

    def _num(self, lo, hi, samp):
        r = self.rnd
        if self.lits and r.random() < 0.3:
            a, b = (samp[:2] if samp is not None else (lo, hi))
            v = [c + d for c in self.lits for d in (0, 0, 0.25, -0.25) if (a is None or c + d >= a) and (b is None or c + d <= b) and abs(c) <= 1e4]
            if v:
                return float(r.choice(v))
        if samp is not None:
            a, b = samp[:2]
            if len(samp) > 2 and r.random() < 0.06:
                return samp[2] * r.choice([1, 1, 0.1, 0.01]) * r.uniform(a, b)
        else:
            a, b = (-3.0, 3.0)
            if lo is not None:
                a, b = lo, max(lo + 3.0, lo * 2 if lo > 0 else lo + 3)
            if hi is not None:
                b = hi
                if lo is None:
                    a = hi - 3.0
        c = r.random()
        if c < 0.12:
            x = float(r.randint(int(math.ceil(a)), int(math.floor(b)))) if math.ceil(a) <= math.floor(b) else r.uniform(a, b)
        elif c < 0.2:
            x = round(r.uniform(a, b) * 2) / 2
            x = min(max(x, a), b)
        else:
            x = r.uniform(a, b)
        return x

    def real(self, name, lo=None, hi=None, samp=None):
        v = float(self._get(name, lambda: self._num(lo, hi, samp)))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        return v

    def int(self, name, lo=None, hi=None, samp=None):
        def draw():
            a, b = samp if samp is not None else (lo if lo is not None else -4, hi if hi is not None else (lo if lo is not None else -4) + 6)
            if self.lits:
                v = self._lit(lo if samp is None else a, hi if samp is None else b, 0.4)
                if v is not None:
                    return v
            return self.rnd.randint(a, b)
        v = int(self._get(name, draw))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject()
        return v

    def dim(self, name, lo=1, samp=None):
        def draw():
            a, b = samp if samp is not None else (lo, lo + 4)
            if self.lits:
                v = self._lit(lo if samp is None else a, None if samp is None else b, 0.5)
                if v is not None and v <= MAXDIM:
                    return v
            if samp is None and self.rnd.random() < 0.04:
                return self.rnd.randint(b, b + 8)
            return self.rnd.choice([a, a + 1, self.rnd.randint(a, b), self.rnd.randint(a, b)]) if b > a else a
        v = int(self._get(name, draw))
        if v < lo or v > MAXDIM:
            raise Reject()
        return v

    def count(self, name, lo, hi, most=None):
        """a number of things for bounded units: lo..hi, sometimes more (up to most), new literals of the source"""
        most = most or 3 * hi + 6

        def draw():
            if self.lits:
                v = self._lit(lo, max(most, 130), 0.6)
                if v is not None:
                    return v
            c = self.rnd.random()
            return self.rnd.randint(hi, most) if c < 0.06 else self.rnd.randint(lo, hi)
        v = int(self._get(name, draw))
        if v < lo:
            raise Reject()
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rnd.random() < 0.5))

    def choose(self, name, options):
        k = int(self._get('choice_' + name, lambda: self.rnd.randrange(len(options))))
        return options[k]

    def flag(self, name):
        return self.choose(name, [False, True])

    def _array(self, name, shape, draw, dt, coin=None):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if self.model is not None and name in self.model:
            a = np.array(self.model[name], dtype=dt)
            if a.shape != shape:
                b = np.zeros(shape, dtype=dt)
                sl = tuple(slice(0, min(x, y)) for x, y in zip(a.shape, shape)) if a.ndim == len(shape) else None
                if sl is not None:
                    b[sl] = a[sl]
                a = b
        else:
            a = np.empty(shape, dtype=dt)
            if a.size > 2000000:
                raise Reject()
            if a.size > 4000:               # large: repeat a block of draws
                a.flat = [draw() for _ in range(3989)]
            else:
                for ix in np.ndindex(*shape):
                    a[ix] = draw()
            # coincidences: rows of an earlier array of the same kind
            if coin is not None and shape and a.size and self.rnd.random() < 0.1:
                es = [v for k, v in self.inputs.items() if isinstance(v, np.ndarray) and self._kind.get(k) == coin and v.dtype == a.dtype and v.ndim == a.ndim and v.shape[1:] == a.shape[1:] and v.size]
                if es:
                    e = self.rnd.choice(es)
                    m = min(len(e), len(a))
                    if self.rnd.random() < 0.5:
                        m = self.rnd.randint(1, m)
                    a[:m] = e[:m]
        self._kind[name] = coin
        self.inputs[name] = a.copy()
        # same values, other memory layouts
        if a.ndim and a.size and self.model is None:
            c = self.rnd.random()
            if c < 0.06:
                a = np.asfortranarray(a)
            elif c < 0.12:
                b = np.zeros((2 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)
                b[1::2] = a
                a = b[1::2]
            elif c < 0.15:
                a = a[::-1].copy()[::-1]
        return a

    def reals(self, name, shape, lo=None, hi=None, samp=None):
        a = self._array(name, shape, lambda: self._num(lo, hi, samp), float, (str(lo), str(hi), str(samp)))
        if a.size and (lo is not None and a.min() < lo or hi is not None and a.max() > hi):
            raise Reject()
        return a

    def ints(self, name, shape, lo=None, hi=None, samp=None):
        def draw():
            a, b = samp if samp is not None else (lo if lo is not None else -4, hi if hi is not None else (lo if lo is not None else -4) + 6)
            return self.rnd.randint(a, b)
        a = self._array(name, shape, draw, int)
        if a.size and (lo is not None and a.min() < lo or hi is not None and a.max() > hi):
            raise Reject()
        return a

    def bools(self, name, shape):
        return self._array(name, shape, lambda: self.rnd.random() < 0.5, bool)

    def labels(self, name, n, alphabet=('H', 'O', 'Ca', 'Si')):
        v = self._get(name, lambda: [self.rnd.choice(alphabet) for _ in range(n)])
        v = [str(x) for x in v]
        v = (v + [alphabet[0]] * n)[:n]
        self.inputs[name] = list(v)
        return v

    def func(self, name, *kinds, samp=None):
        k = self._get(name, lambda: [self.rnd.uniform(-1, 1) for _ in range(4)])
        if callable(k):
            return k

        def f(*x):
            s = sum(x)
            return k[0] + k[1] * s + k[2] * np.sin(3 * s + k[3])
        return f

    def seqof(self, n, fn):
        return [fn(i) for i in range(n)]

    def array(self, shape, fn, kind='f'):
        a = np.empty(tuple(shape), dtype={'f': float, 'i': int, 'b': bool, 'O': object}[kind])
        for ix in np.ndindex(*a.shape):
            a[ix] = fn(*ix)
        return a

    def require(self, cond):
        if not cond:
            raise Reject()

    def ensure(self, name, cond):
        self.checks += 1
        if not bool(cond):
            raise Violated(name, self._detail)

    _detail = ''

    def lemma(self, name, cond, using=None, gen=(), also=()):
        self.ensure(name, cond)

    def callee(self, q, args, shape, post, kw={}):
        return self.call(q, *args, **kw)

    def forall(self, name, dims, fn):
        for t in itertools.product(*[range(int(d)) for d in dims]):
            self.ensure('%s[%s]' % (name, ','.join(map(str, t))), fn(*t))

    RTOL, ATOL = 1e-7, 1e-8

    def rep(self, n, fn):
        return text.Rep(int(n), fn)

    def text(self, name, txt, want, digits=16, comment=None):
        if comment:
            txt = '\n'.join(l.split(comment)[0] for l in txt.split('\n'))
        lines = [l.split() for l in txt.splitlines() if l.strip()]
        exp = []

        def expand(ws):
            for w in ws:
                if isinstance(w, text.Rep):
                    for i in range(w.n):
                        expand(w.fn(i))
                else:
                    exp.append(w)
        expand(want)
        self.ensure('%s: %d lines, expected %d' % (name, len(lines), len(exp)), len(lines) == len(exp))
        for k, (l, w) in enumerate(zip(lines, exp)):
            f = []
            for x in w:
                f += [x.fn(i) for i in range(x.n)] if isinstance(x, text.Rep) else [x]
            if f == [Ellipsis]:
                continue
            self.ensure('%s: line %d %r, expected %r' % (name, k, l, f), len(l) == len(f))
            for a, b in zip(l, f):
                parts = list(b) if isinstance(b, (list, tuple)) else [b]
                rx = ''.join(re.escape(str(q)) if isinstance(q, (str, np.str_)) else r'([-+0-9.eEinfa]+?)' for q in parts)
                m = re.fullmatch(rx, a)
                self.ensure('%s: line %d field %r, expected %r' % (name, k, a, b), m is not None)
                for s, q in zip(m.groups(), [q for q in parts if not isinstance(q, (str, np.str_))]):
                    if isinstance(q, (int, np.integer)):
                        self.ensure('%s: line %d field %r, expected %r' % (name, k, a, b), float(s) == q)
                    else:
                        self.ensure('%s: line %d field %r, expected %r' % (name, k, a, b), abs(float(s) - q) <= 10.0 ** (1 - digits) * abs(q) * 5.01 / 10 or float(s) == q)

    def close(self, a, b, rtol=None, atol=None):
        rtol = self.RTOL if rtol is None else rtol
        atol = self.ATOL if atol is None else atol
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            if math.isfinite(b) and not math.isfinite(a):
                return False
            return True if (a != a and b != b) or a == b else not math.isfinite(b)
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b), getattr(self, 'scale', 0.0))

    def same(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return str(a) == str(b)
        if isinstance(a, (list, tuple, np.ndarray)) and np.ndim(a) > 0:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            return self.close(a, b)
        return bool(a == b)

    def eq(self, name, a, b, rtol=None, atol=None):
        self.checks += 1
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and any(isinstance(x, str) for x in list(a) + list(b)):
            if list(a) != list(b):
                raise Violated(name, 'got %s, expected %s' % (_short(a), _short(b)))
            return
        try:
            aa, bb = np.asarray(a), np.asarray(b)
        except ValueError:
            raise Violated(name, 'ragged value %s' % _short(a))
        if aa.shape != bb.shape:
            raise Violated(name + '.shape', 'got shape %s, expected %s' % (aa.shape, bb.shape))
        if aa.dtype.kind in 'OUS' or bb.dtype.kind in 'OUS':
            try:
                aa, bb = aa.astype(float), bb.astype(float)
            except (TypeError, ValueError):
                if not all(x == y for x, y in zip(aa.ravel(), bb.ravel())):
                    raise Violated(name, 'got %s, expected %s' % (_short(a), _short(b)))
                return
        rtol = self.RTOL if rtol is None else rtol
        atol = self.ATOL if atol is None else atol
        with np.errstate(all='ignore'):
            fin = np.isfinite(aa.astype(complex)) & np.isfinite(bb.astype(complex))
            sc = np.max(np.abs(bb[fin])) if fin.any() else 0.0
            sc = max(sc, getattr(self, 'scale', 0.0))
            bad_nan = np.isfinite(bb.astype(complex)) & ~np.isfinite(aa.astype(complex))
            d = np.abs(np.where(fin, aa.astype(complex) - bb, 0))
        if bad_nan.any() or (d > atol + rtol * sc).any():
            raise Violated(name, 'got %s, expected %s' % (_short(a), _short(b)))

    def seqeq(self, name, a, b):
        self.checks += 1
        a, b = list(a), list(b)
        if len(a) != len(b) or not all(self.same(x, y) for x, y in zip(a, b)):
            raise Violated(name, 'got %s, expected %s' % (_short(a), _short(b)))

    def shape(self, name, a, shape):
        self.checks += 1
        if tuple(np.shape(a)) != tuple(shape):
            raise Violated(name, 'got shape %s, expected %s' % (np.shape(a), tuple(shape)))

    def snap(self, a):
        import copy
        return copy.deepcopy(a)

    def unchanged(self, name, a, snap):
        self.eq(name, a, snap, rtol=0, atol=0)

    def raises(self, name, excs, thunk):
        self.checks += 1
        try:
            r = thunk()
        except excs:
            return
        raise Violated(name, 'no exception; returned %s' % _short(r))

    def attr(self, q):
        self.used.add(q)
        import importlib
        mod, _, nm = q.partition('.')
        o = importlib.import_module('pwtools.' + mod)
        for p in nm.split('.'):
            o = getattr(o, p)
        return o

    def call(self, q, *a, **k):
        return self.attr(q)(*a, **k)

    def mod(self, name):
        import importlib
        return importlib.import_module('pwtools.' + name)

    def override(self, q, val):
        pass

    def sum(self, fn, n, lo=0):
        r = 0
        for k in range(int(lo), int(n)):
            r = r + fn(k)
        return r

    def deriv(self, fn, x, n=1, h=None):
        if n == 2:
            return self.deriv(lambda y: self.deriv(fn, y, h=h), x, h=h)
        h = h or 1e-2 * max(abs(x), 1e-3)
        tab, best, err = [], None, np.inf
        for i in range(8):
            row = [(float(fn(x + h)) - float(fn(x - h))) / (2 * h)]
            f = 4.0
            for j in range(1, i + 1):
                row.append((row[j - 1] * f - tab[j - 1]) / (f - 1))
                f *= 4
                e = max(abs(row[j] - row[j - 1]), abs(row[j] - tab[j - 1]))
                if e < err:
                    err, best = e, row[j]
            tab = row
            h /= 2
        return best

    def ite(self, c, a, b): return a if c else b
    def land(self, *x): return all(bool(q) for q in x)
    def lor(self, *x): return any(bool(q) for q in x)
    def lnot(self, x): return not x
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def floor(self, x): return math.floor(x)
    def isint(self, x): return abs(x - round(x)) < 1e-7
    def abs(self, x): return abs(x)
    def toreal(self, x): return float(x)
    def atan2(self, a, b): return math.atan2(a, b)
    def frac(self, p, q): return p / q

    def forall_in(self, dims, fn):
        return all(bool(fn(*t)) for t in itertools.product(*[range(int(d)) for d in dims]))

    def exists_in(self, n, fn):
        return any(bool(fn(i)) for i in range(int(n)))

    def indexset(self, name, r, n, pred):
        self.seqeq(name, [int(x) for x in r], [j for j in range(int(n)) if pred(j)])

    def require_all(self, dims, fn):
        self.require(self.forall_in(dims, fn))

    def __getattr__(self, n):
        if n == 'cbrt':
            return np.cbrt
        if n in core.MF:
            return getattr(math, n)
        raise AttributeError(n)

    def note(self, s):
        self._detail = s

    def scratch(self):
        import tempfile
        d = tempfile.mkdtemp(prefix='vcscratch')
        self._scr.append(d)
        return d

    def done(self):
        import shutil
        for d in self._scr:
            shutil.rmtree(d, ignore_errors=True)
        self._scr = []


def _short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'
