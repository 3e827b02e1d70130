"""Arrays with symbolic extents: shape = tuple of int | Sym(int), elements given by a function from
the index tuple to a scalar.  Basic-index views alias their base as in numpy."""
import itertools
import numpy as _np
import z3
from . import core
from .core import (Sym, Unsupported, ctx, mk, mkb, ite, land, lor, lnot, R, I, B, U, intexpr, boolexpr, lift)


def conc(n):
    """int if n is a concrete extent/index else None"""
    if isinstance(n, Sym):
        if n.k == I:
            e = z3.simplify(n.e)
            if z3.is_int_value(e):
                return e.as_long()
        return None
    if isinstance(n, (bool, _np.bool_)):
        return int(n)
    if isinstance(n, (int, _np.integer)):
        return int(n)
    return None


def dim(n):
    c = conc(n)
    if c is not None:
        return c
    if isinstance(n, Sym) and n.k == I:
        return Sym(I, z3.simplify(n.e))
    if isinstance(n, Sym) or isinstance(n, float):
        raise TypeError('float used as an array extent')
    raise Unsupported('extent %r' % (n,))


def same_dim(a, b):
    """decide a == b for extents (branches if open)"""
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    return ctx().decide(z3.simplify(intexpr(a) == intexpr(b)))


def entailed_eq(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    e = z3.simplify(intexpr(a) == intexpr(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ctx().entails(e)


class Store:
    """Element storage, addressed by full index tuples; .fn is replaced on writes."""
    __slots__ = ('fn', 'ndim', 'memo', 'name', 'born', 'live', 'shape0')

    def __init__(self, fn, ndim):
        self.fn = fn
        self.ndim = ndim
        self.memo = {}
        self.name = None
        self.shape0 = None
        self.live = None         # reads through to another array: no memo; makes a snapshot reader
        self.born = len(core.CTX.loops) if core.CTX is not None else 0

    def get(self, idx):
        if self.live:
            return self.fn(idx)
        key = []
        for i in idx:
            c = conc(i)
            key.append(c if c is not None else ('z', i.e.get_id() if isinstance(i, Sym) else id(i)))
        key = tuple(key)
        hit = self.memo.get(key)
        if hit is None:
            v = self.fn(idx)
            self.memo[key] = hit = (v, idx)     # keep idx alive: ids are reused otherwise
        return hit[0]

    def set_fn(self, fn):
        self.fn = fn
        self.memo = {}


class Ax:
    """how a storage axis is addressed: constant index, or start + step*viewindex"""
    __slots__ = ('const', 'axis', 'start', 'step', 'n')

    def __init__(self, const=None, axis=None, start=0, step=1, n=None):
        self.const, self.axis, self.start, self.step, self.n = const, axis, start, step, n


def _noorder():
    raise Unsupported('memory order argument')


class SymArr:
    __array_ufunc__ = None
    __array_priority__ = 1000
    _is_symarr = True
    ford = None         # Fortran order: True/False for freshly created arrays, None if not tracked

    def __init__(self, shape, fn, dtype='f', store=None, imap=None, ro=False):
        self.shape_ = tuple(dim(s) for s in shape)
        self.kind = dtype
        self.ro = ro
        if store is None:
            store = Store(fn, len(self.shape_))
            store.shape0 = self.shape_
            imap = [Ax(axis=k, n=self.shape_[k]) for k in range(len(self.shape_))]
        self.store, self.imap = store, imap

    # ---------- basic attributes
    @property
    def shape(self):
        return self.shape_

    @shape.setter
    def shape(self, s):
        raise Unsupported('assignment to .shape')

    @property
    def ndim(self):
        return len(self.shape_)

    @property
    def size(self):
        r = 1
        for s in self.shape_:
            r = s * r
        return r

    @property
    def dtype(self):
        return _np.dtype({'f': float, 'i': int, 'b': bool, 'O': object}[self.kind])

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return iter(self.ravel())

    @property
    def real(self):
        return self

    @property
    def flags(self):
        return _np.zeros(1).flags

    def __len__(self):
        if not self.shape_:
            raise TypeError('len() of unsized object')
        c = conc(self.shape_[0])
        if c is None:
            raise Unsupported('len() of a symbolic extent outside verified code')
        return c

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return 'SymArr(shape=%s, kind=%s)' % (self.shape_, self.kind)

    # ---------- element access
    def sidx(self, vidx):
        out = []
        for ax in self.imap:
            if ax.axis is None:
                out.append(ax.const)
            else:
                v = vidx[ax.axis]
                st, sp = ax.start, ax.step
                if not (conc(sp) == 1):
                    v = v * sp
                if not (conc(st) == 0):
                    v = v + st
                out.append(v)
        return tuple(out)

    def elem(self, *vidx):
        """element at a view index known to be in range (no checks)"""
        assert len(vidx) == self.ndim
        r = self.store.get(self.sidx(vidx))
        return r

    def vfn(self):
        """frozen element function (a copy, independent of later writes)"""
        st, imap = self.store, self.imap
        fn = st.fn
        if st.live:
            fn = st.live(None)          # snapshot of the base taken now
        frozen = Store(fn, st.ndim)
        me = SymArr(self.shape_, None, self.kind, store=frozen, imap=imap)
        return lambda idx: me.elem(*idx)

    def write(self, value, guard=None):
        """element (view) idx := value(idx) where guard(idx)"""
        if self.ro and self.ro is not True and self.store.live and _unshared(self.ro):
            # reshape of a temporary nobody else can see: own the data
            self.store.set_fn(self.store.live(None))
            self.store.live = None
        if self.ro and self.store.live:
            raise Unsupported('write through a reshaped copy/view')
        st, imap, kind = self.store, self.imap, self.kind
        old = st.fn
        oldget = Store(old, st.ndim)
        shape = self.shape_

        def conv(x):
            return core.cast(x, kind) if kind in ('f', 'i', 'b') else x

        def fn(sidx):
            conds = []
            v = [None] * len(shape)
            for s, ax in zip(sidx, imap):
                if ax.axis is None:
                    c = _idx_eq(s, ax.const)
                    if c is False:
                        return oldget.get(sidx)
                    if c is not True:
                        conds.append(c)
                else:
                    q = s
                    if conc(ax.start) != 0:
                        q = s - ax.start
                    sp = conc(ax.step)
                    if sp is None:
                        raise Unsupported('symbolic slice step')
                    if sp != 1:
                        if sp < 0:
                            q, spp = -q, -sp
                        else:
                            spp = sp
                        m = (q % spp) == 0
                        if m is False:
                            return oldget.get(sidx)
                        if m is not True:
                            conds.append(m)
                        q = q // spp
                    n = shape[ax.axis]
                    full = conc(ax.start) == 0 and sp == 1 and ax.n is not None and _synt_same(n, ax.n)
                    if not full:
                        for c in (q >= 0, q < n):
                            if c is False:
                                return oldget.get(sidx)
                            if c is not True:
                                conds.append(c)
                    v[ax.axis] = q
            v = [0 if x is None else x for x in v]
            if guard is not None:
                g = guard(tuple(v))
                if g is False:
                    return oldget.get(sidx)
                if g is not True:
                    conds.append(g)
            new = conv(value(tuple(v)))
            if not conds:
                return new
            c = land(*conds)
            if c is False:
                return oldget.get(sidx)
            if c is True:
                return new
            return ite(c, new, oldget.get(sidx))

        for lp in (core.CTX.loops if core.CTX else []):
            lp.note_write(self.store, self, value, guard)
        st.set_fn(fn)

    def point(self):
        """position in the store, for a single element"""
        return tuple(ax.const for ax in self.imap) if all(ax.axis is None for ax in self.imap) else None

    # ---------- indexing
    def _norm_key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        nreal = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if _isarr(k) and getattr(k, 'kind', None) == 'b' or isinstance(k, _np.ndarray) and k.dtype == bool:
                nreal += k.ndim
            else:
                nreal += 1
        out, seen = [], False
        for k in key:
            if k is Ellipsis:
                if not seen:
                    out.extend([slice(None)] * (self.ndim - nreal))
                    seen = True
                else:
                    out.append(slice(None))
            else:
                out.append(k)
        if not seen:
            out.extend([slice(None)] * (self.ndim - nreal))
        if nreal > self.ndim:
            raise IndexError('too many indices for array')
        return out

    def _basic(self, key):
        """view for a basic key (ints, slices, None)"""
        newshape, pos = [], 0
        amap = {}     # old view axis -> ('c', idx) or ('a', newaxis, start, step)
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            n = self.shape_[pos]
            if isinstance(k, slice):
                st, sp, ln = norm_slice(k, n)
                amap[pos] = ('a', len(newshape), st, sp)
                newshape.append(ln)
            else:
                amap[pos] = ('c', norm_index(k, n))
            pos += 1
        imap = []
        for ax in self.imap:
            if ax.axis is None:
                imap.append(ax)
                continue
            m = amap[ax.axis]
            if m[0] == 'c':
                imap.append(Ax(const=_lin(ax.start, ax.step, m[1])))
            else:
                imap.append(Ax(axis=m[1], start=_lin(ax.start, ax.step, m[2]),
                               step=_mulc(ax.step, m[3]), n=ax.n))
        return SymArr(newshape, None, self.kind, store=self.store, imap=imap, ro=self.ro)

    def __getitem__(self, key):
        if isinstance(key, list):
            key = _np.asarray(key) if not any(isinstance(x, Sym) for x in key) else as_arr(key)
        if isinstance(key, tuple):
            key = tuple(_np.asarray(k) if isinstance(k, list) and not any(isinstance(x, Sym) for x in k)
                        else as_arr(k) if isinstance(k, list) else k for k in key)
        key = self._norm_key(key)
        adv = [j for j, k in enumerate(key) if _isarr(k) and k.ndim > 0]
        if not adv:
            v = self._basic(key)
            if v.ndim == 0:
                return v.elem()
            return v
        return self._adv_get(key, adv)

    def _adv_get(self, key, adv):
        # concrete boolean masks -> integer arrays
        key = list(key)
        for j in list(adv):
            k = key[j]
            if isinstance(k, _np.ndarray) and k.dtype == bool:
                if k.ndim != 1:
                    raise Unsupported('multi-dimensional boolean index')
                key[j] = _np.flatnonzero(k)
            elif isinstance(k, SymArr) and k.kind == 'b':
                return self._mask_get(key, j)
        ks = [as_arr(key[j]) for j in adv]
        if any(isinstance(k, Sym) or conc(k) is not None for k in key if not (k is None or isinstance(k, slice) or _isarr(k))):
            # mixed integer + array index: turn ints into arrays
            for j, k in enumerate(key):
                if not (k is None or isinstance(k, slice) or _isarr(k)):
                    key[j] = full((), k, 'i')
                    adv = sorted(adv + [j])
            ks = [key[j] if isinstance(key[j], SymArr) else as_arr(key[j]) for j in adv]
        bshape, bks = broadcast_arrays(*ks)
        nb = len(bshape)
        contiguous = adv == list(range(adv[0], adv[0] + len(adv)))
        base = self
        # first apply the basic part
        bkey = [slice(None) if j in adv else k for j, k in enumerate(key)]
        view = base._basic(bkey)
        # positions of the adv axes in view
        advpos, p = [], 0
        for j, k in enumerate(bkey):
            if j in adv:
                advpos.append(p)
            if k is None or isinstance(k, slice):
                p += 1
        rest = [p for p in range(view.ndim) if p not in advpos]
        at = advpos[0] if contiguous else 0
        nbefore = len([p for p in rest if p < at]) if contiguous else 0
        shape = [view.shape_[p] for p in rest[:nbefore]] + list(bshape) + [view.shape_[p] for p in rest[nbefore:]]
        for q, k in zip(advpos, ks):
            _check_bounds(k, view.shape_[q])
        vf = view.vfn()
        bf = [b.vfn() for b in bks]
        vshape = view.shape_

        def fn(idx):
            b = tuple(idx[nbefore:nbefore + nb])
            r = list(idx[:nbefore]) + list(idx[nbefore + nb:])
            full_ = [None] * len(vshape)
            for p, x in zip(rest, r):
                full_[p] = x
            for q, g in zip(advpos, bf):
                x = g(b)
                full_[q] = wrap_neg(x, vshape[q])
            return vf(tuple(full_))
        return SymArr(shape, fn, self.kind)

    def _mask_get(self, key, j):
        k = key[j]
        if all(conc(s) is not None for s in k.shape_):
            # decide every entry (branches)
            m = _np.array([bool(k.elem(*i)) for i in _np.ndindex(*[conc(s) for s in k.shape_])]).reshape(
                [conc(s) for s in k.shape_])
            if m.ndim == 1:
                key = list(key)
                key[j] = m
                return self[tuple(key)]
            if m.ndim == self.ndim and len(key) == 1:
                idx = [i for i in _np.ndindex(*m.shape) if m[i]]
                vals = [self.elem(*i) for i in idx]
                return from_list(vals, self.kind)
        if len(key) == sum(1 for q in key if isinstance(q, slice) and q == slice(None)) + 1 and j == 0:
            for x, y in zip(k.shape_, self.shape_):
                if not same_dim(x, y):
                    raise IndexError('boolean index did not match')
            return MaskSel(self.vfn(), k, self.shape_, self.kind)
        raise Unsupported('selection by a symbolic mask of symbolic extent')

    def __setitem__(self, key, val):
        if isinstance(val, MaskSel):
            k1 = key
            if not (isinstance(k1, SymArr) and k1.kind == 'b'):
                raise Unsupported('assignment of a masked selection')
            km, vm = k1.vfn(), val.mask.vfn()
            if not (k1 is val.mask and k1.store.fn is val.maskfn):
                nm = k1.ndim
                js = [ctx().fresh('mj', I, plain=True) for _ in range(nm)]
                a, b = boolexpr(km(tuple(js))), boolexpr(vm(tuple(js)))
                if not ctx().entails(a == b):
                    raise Unsupported('masked selection assigned through another mask')
            for x, y in zip(k1.shape_, self.shape_):
                if not same_dim(x, y):
                    raise IndexError('boolean index did not match')
            nm = k1.ndim
            vf = val.fn
            self.write(lambda idx: vf(idx), guard=lambda idx: km(idx[:nm]))
            return
        if isinstance(key, SymArr) and key.kind == 'b' or isinstance(key, _np.ndarray) and key.dtype == bool and key.ndim > 1:
            m = as_arr(key)
            if m.ndim > self.ndim:
                raise IndexError('too many indices')
            for a, b in zip(m.shape_, self.shape_):
                if not same_dim(a, b):
                    raise IndexError('boolean index did not match')
            mf = m.vfn()
            nm = m.ndim
            if _isarr(val) and val.ndim > 0:
                raise Unsupported('masked assignment of an array')
            v = val if not (_isarr(val)) else as_arr(val).elem()
            self.write(lambda idx: v, guard=lambda idx: mf(idx[:nm]))
            return
        if isinstance(key, tuple) and len(key) and any(isinstance(k, SymArr) and k.kind == 'b' for k in key):
            kk = self._norm_key(key)
            j = [i for i, k in enumerate(kk) if _isarr(k)]
            if len(j) == 1 and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(kk) if i != j[0]):
                m = kk[j[0]]
                mf = m.vfn()
                nm = m.ndim
                p = j[0]
                if _isarr(val) and val.ndim > 0:
                    raise Unsupported('masked assignment of an array')
                self.write(lambda idx: val, guard=lambda idx: mf(idx[p:p + nm]))
                return
            raise Unsupported('masked assignment')
        if isinstance(key, list):
            key = _np.asarray(key)
        if isinstance(key, tuple):
            key = tuple(_np.asarray(k) if isinstance(k, list) else k for k in key)
        kk = self._norm_key(key)
        adv = [j for j, k in enumerate(kk) if _isarr(k) and k.ndim > 0]
        if adv:
            if len(adv) != 1 or not isinstance(kk[adv[0]], _np.ndarray):
                # several arrays with concrete entries
                if all(isinstance(kk[j], _np.ndarray) for j in adv) and not _isarr(val):
                    arrs = _np.broadcast_arrays(*[kk[j] for j in adv])
                    for t in range(arrs[0].size):
                        k2 = list(kk)
                        for j, a in zip(adv, arrs):
                            k2[j] = int(a.ravel()[t])
                        self[tuple(k2)] = val
                    return
                raise Unsupported('assignment with symbolic index arrays')
            j = adv[0]
            ind = kk[j]
            if ind.dtype == bool:
                ind = _np.flatnonzero(ind)
            if ind.ndim != 1:
                raise Unsupported('assignment with multi-dimensional index array')
            npos = len([k for k in kk[:j] if k is None or isinstance(k, slice)])
            va = as_arr(val)
            for t, i in enumerate(ind):
                k2 = list(kk)
                k2[j] = int(i)
                if va.ndim == 0:
                    self[tuple(k2)] = va.elem()
                else:
                    # broadcast val against the target with axis npos of length len(ind)
                    nd = len([k for k in kk if k is None or isinstance(k, slice)]) + 1
                    ax = npos - (nd - va.ndim)
                    if ax < 0 or conc(va.shape_[ax]) == 1 and len(ind) != 1:
                        sub = va if ax < 0 else va[tuple([slice(None)] * ax + [0])]
                    else:
                        sub = va[tuple([slice(None)] * ax + [t])]
                    self[tuple(k2)] = sub
            return
        v = self._basic(kk)
        v.assign(val)

    def assign(self, val):
        va = as_arr(val)
        vf = bc_fn(va, self.shape_)
        self.write(vf)

    def __iter__(self):
        c = conc(self.shape_[0]) if self.shape_ else None
        if c is None:
            raise Unsupported('iteration over a symbolic extent')
        return iter([self[i] for i in range(c)])

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic array')

    def __bool__(self):
        if self.ndim == 0 or all(conc(s) == 1 for s in self.shape_):
            return bool(self.elem(*[0] * self.ndim))
        raise ValueError('truth value of an array with more than one element is ambiguous')

    def __index__(self):
        if self.ndim == 0:
            return self.elem().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        raise Unsupported('float(array)')

    # ---------- elementwise
    def _ew(self, o, f, kind=None, rev=False):
        if isinstance(o, (SymArr, _np.ndarray)) or isinstance(o, (list, tuple)):
            o = as_arr(o)
        elif lift(o) is None:
            return NotImplemented
        return elementwise(f if not rev else (lambda a, b: f(b, a)), [self, o], kind)

    def __add__(self, o): return self._ew(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ew(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ew(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ew(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._ew(o, _tdiv, 'f')
    def __rtruediv__(self, o): return self._ew(o, _tdiv, 'f', rev=True)
    def __floordiv__(self, o): return self._ew(o, lambda a, b: a // b)
    def __rfloordiv__(self, o): return self._ew(o, lambda a, b: a // b, rev=True)
    def __mod__(self, o): return self._ew(o, lambda a, b: a % b)
    def __rmod__(self, o): return self._ew(o, lambda a, b: a % b, rev=True)
    def __pow__(self, o): return self._ew(o, _pow)
    def __rpow__(self, o): return self._ew(o, _pow, rev=True)
    def __neg__(self): return elementwise(lambda a: -a, [self])
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(abs, [self])
    def __invert__(self): return elementwise(lambda a: lnot(a) if self.kind == 'b' else -a - 1, [self])
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b, 'b')
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b, 'b')
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b, 'b')
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b, 'b')
    def __eq__(self, o):
        if o is None:
            return False
        return self._ew(o, lambda a, b: a == b, 'b')
    def __ne__(self, o):
        if o is None:
            return True
        return self._ew(o, lambda a, b: lnot(a == b), 'b')
    def __and__(self, o): return self._ew(o, lambda a, b: land(a, b), 'b')
    __rand__ = __and__
    def __or__(self, o): return self._ew(o, lambda a, b: lor(a, b), 'b')
    __ror__ = __or__
    def __matmul__(self, o): return dot(self, as_arr(o), matmul=True)
    def __rmatmul__(self, o): return dot(as_arr(o), self, matmul=True)

    def _inplace(self, o, f):
        oa = as_arr(o)
        # broadcast o to my shape; my shape must not grow
        of = bc_fn(SymArr(oa.shape_, oa.vfn(), oa.kind), self.shape_)
        me = self.vfn()
        if self.kind == 'i' and oa.kind == 'f':
            raise TypeError('Cannot cast ufunc output from float64 to int64')
        self.write(lambda idx: f(me(idx), of(idx)))
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, _tdiv)
    def __imod__(self, o): return self._inplace(o, lambda a, b: a % b)
    def __ipow__(self, o): return self._inplace(o, _pow)

    # ---------- methods
    def copy(self, order=None):
        return SymArr(self.shape_, self.vfn(), self.kind)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = [a % self.ndim for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        imap = [ax if ax.axis is None else Ax(axis=inv[ax.axis], start=ax.start, step=ax.step, n=ax.n)
                for ax in self.imap]
        return SymArr([self.shape_[a] for a in axes], None, self.kind, store=self.store, imap=imap, ro=self.ro)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = ax[a], ax[b]
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def reshape(self, *shape, order='C'):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if order != 'C':
            return reshape(self.T, tuple(shape)[::-1]).T if order == 'F' else _noorder()
        return reshape(self, shape)

    def ravel(self, order='C'):
        if order == 'F':
            return reshape(self.T, (-1,))
        if order != 'C':
            _noorder()
        return reshape(self, (-1,))

    def flatten(self, order='C'):
        if order == 'F':
            return reshape(self.T, (-1,)).copy()
        if order != 'C':
            _noorder()
        r = reshape(self, (-1,))
        return r.copy()

    def squeeze(self, axis=None):
        key = []
        for i, s in enumerate(self.shape_):
            if (axis is None and conc(s) == 1) or (axis is not None and i == axis % self.ndim):
                key.append(0)
            else:
                key.append(slice(None))
        return self[tuple(key)]

    def astype(self, t, copy=True):
        k = core.dtype_kind(t)
        return elementwise(lambda a: core.cast(a, k), [self], k)

    def tolist(self):
        c = [conc(s) for s in self.shape_]
        if None in c:
            from . import seq
            return seq.from_array(self)
        def rec(pre):
            if len(pre) == len(c):
                return self.elem(*pre)
            return [rec(pre + (i,)) for i in range(c[len(pre)])]
        return rec(())

    def item(self, *a):
        if not a and all(conc(s) == 1 for s in self.shape_):
            return self.elem(*[0] * self.ndim)
        return self[a]

    def fill(self, v):
        self.write(lambda idx: v)

    def dot(self, o):
        return dot(self, as_arr(o))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, keepdims=False, **k):
        return mean(self, axis, keepdims)

    def prod(self, axis=None):
        return reduce_fold(self, axis, lambda a, b: a * b, 1)

    def max(self, axis=None):
        return reduce_ext(self, axis, True)

    def min(self, axis=None):
        return reduce_ext(self, axis, False)

    def all(self, axis=None):
        return reduce_bool(self, axis, True)

    def any(self, axis=None):
        return reduce_bool(self, axis, False)

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    def take(self, ind, axis=None):
        if axis is None:
            return self.ravel()[ind]
        return self[tuple([slice(None)] * (axis % self.ndim) + [ind])]

    def diagonal(self):
        return diag(self)

    def trace(self):
        return diag(self).sum()

    def conj(self):
        return self
    conjugate = conj

    def cumsum(self, axis=None, dtype=None, out=None):
        if axis is None:
            if self.ndim != 1:
                return self.ravel().cumsum(0)
            axis = 0
        ax = axis.__index__() % self.ndim
        f = self.vfn()
        n = conc(self.shape_[ax])

        def fn(idx):
            return big_sum(lambda k: f(tuple(idx[:ax]) + (k,) + tuple(idx[ax + 1:])), 0, idx[ax] + 1)
        return SymArr(tuple(self.shape_), fn, 'i' if self.kind == 'b' else self.kind)

    def put(self, idx, v, mode='raise'):
        if self.ndim != 1:
            raise Unsupported('put into a multi-dimensional array')
        if lift(v) is None:
            raise Unsupported('put of an array')
        if hasattr(idx, 'member') and idx.intact():
            old = self.vfn()
            self.write(lambda ix: ite(mkb(boolexpr(idx.member(ix[0]))), v, old(ix)))
        elif conc(as_arr(idx).shape_[0]) is not None:
            for k in as_arr(idx):
                self[k] = v
        else:
            raise Unsupported('put through a symbolic index array')

    def nonzero(self):
        from . import npf
        return npf.MODELS['nonzero'](self)

    @property
    def nbytes(self):
        return self.size * 8

    @property
    def itemsize(self):
        return 8

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('array method .%s' % name)


class MaskSel:
    """A[mask] of symbolic extent: usable elementwise and to be stored back through the same mask"""
    __array_ufunc__ = None
    _is_masksel = True

    def __init__(self, fn, mask, shape, kind):
        self.fn, self.mask, self.shape_, self.kind = fn, mask, shape, kind
        self.maskfn = mask.store.fn

    def _op(self, o, f):
        if isinstance(o, MaskSel):
            if o.mask is not self.mask:
                raise Unsupported('operation on two masked selections')
            of = o.fn
            return MaskSel(lambda idx: f(self.fn(idx), of(idx)), self.mask, self.shape_, self.kind)
        if _isarr(o) and o.ndim:
            raise Unsupported('operation of a masked selection with an array')
        sf = self.fn
        return MaskSel(lambda idx: f(sf(idx), o), self.mask, self.shape_, self.kind)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __radd__(self, o): return self._op(o, lambda a, b: b + a)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._op(o, _tdiv)
    def __neg__(self): return self._op(0, lambda a, b: -a)
    def __pow__(self, o): return self._op(o, _pow)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('.%s of a masked selection' % n)


def _tdiv(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        la, lb = lift(a), lift(b)
        if core.numval(core.toreal(*lb)) != 0:
            return mk(R, core._div(core.toreal(*la), core.toreal(*lb)))
    return a / b


def _pow(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return mk(R, core.powexpr(core.real(a), core.real(b)))
    return a ** b


def _isarr(x):
    return isinstance(x, (SymArr, _np.ndarray))


def _synt_same(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None or cb is not None:
        return ca == cb
    return z3.eq(z3.simplify(a.e), z3.simplify(b.e))


def _idx_eq(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return ca == cb
    return mkb(intexpr(a) == intexpr(b))


def _lin(start, step, x):
    r = x
    if conc(step) != 1:
        r = r * step
    if conc(start) != 0:
        r = r + start
    return r


def _mulc(a, b):
    return a * b


def wrap_neg(i, n):
    """numpy index wrap-around without bounds check"""
    c = conc(i)
    if c is not None:
        return c if c >= 0 else n + c
    if core.CTX is not None and core.CTX.entails(intexpr(i) >= 0):
        return i
    return ite(i < 0, i + n, i)


def norm_index(k, n):
    """normalised index; raises IndexError on the out-of-range path"""
    if isinstance(k, SymArr) and k.ndim == 0:
        k = k.elem()
    if isinstance(k, _np.ndarray) and k.ndim == 0:
        k = k.item()
    c, cn = conc(k), conc(n)
    if c is None and not (isinstance(k, Sym) and k.k == I):
        raise IndexError('only integers, slices, ellipsis, None and arrays are valid indices')
    if c is not None and cn is not None:
        if not -cn <= c < cn:
            raise IndexError('index %d is out of bounds for axis with size %d' % (c, cn))
        return c if c >= 0 else c + cn
    if c is None and ctx().inrange(k.e, n):
        return k
    ok = land(mkb(intexpr(k) < intexpr(n)), mkb(intexpr(k) >= -intexpr(n)))
    if ok is not True:
        if ok is False or not ctx().decide(boolexpr(ok)):
            raise IndexError('index out of bounds')
    if c is not None:
        return c if c >= 0 else n + c
    if ctx().entails(intexpr(k) >= 0):
        return k
    if ctx().entails(intexpr(k) < 0):
        return k + n
    return ite(k < 0, k + n, k)


def _check_bounds(k, n):
    """every entry of the index array k lies in [-n,n)"""
    ka = as_arr(k)
    cs = [conc(s) for s in ka.shape_]
    if None not in cs:
        for i in _np.ndindex(*cs):
            norm_index(ka.elem(*i), n)
        return
    js = [ctx().fresh('j', I, plain=True) for _ in cs]
    rng = z3.And(*[z3.And(j.e >= 0, j.e < intexpr(s)) for j, s in zip(js, ka.shape_)])
    v = ka.elem(*js)
    e = z3.Implies(rng, z3.And(intexpr(v) < intexpr(n), intexpr(v) >= -intexpr(n)))
    if not ctx().entails(e):
        raise Unsupported('possibly out-of-range index array')


def smin(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return min(ca, cb)
    if ctx().entails(intexpr(a) <= intexpr(b)):
        return a
    if ctx().entails(intexpr(b) <= intexpr(a)):
        return b
    return ite(mkb(intexpr(a) <= intexpr(b)), a, b)


def smax(a, b):
    ca, cb = conc(a), conc(b)
    if ca is not None and cb is not None:
        return max(ca, cb)
    if ctx().entails(intexpr(a) >= intexpr(b)):
        return a
    if ctx().entails(intexpr(b) >= intexpr(a)):
        return b
    return ite(mkb(intexpr(a) >= intexpr(b)), a, b)


def _sidx(v):
    if isinstance(v, SymArr) and v.ndim == 0:
        return v.elem()
    if isinstance(v, _np.ndarray) and v.ndim == 0:
        return v.item()
    if isinstance(v, Sym) and v.k == R:
        raise TypeError('slice indices must be integers')
    return v


def norm_slice(sl, n):
    """-> start, step, length"""
    step = 1 if sl.step is None else _sidx(sl.step)
    cst = conc(step)
    start, stop = _sidx(sl.start), _sidx(sl.stop)
    cn = conc(n)
    if all(x is None or conc(x) is not None for x in (start, stop)) and cn is not None and cst is not None:
        r = range(*slice(None if start is None else conc(start), None if stop is None else conc(stop), cst).indices(cn))
        return (r.start if len(r) else 0), cst, len(r)
    if cst is None:
        # symbolic step: only for full, positive-step slices
        if not ctx().entails(intexpr(step) > 0):
            raise Unsupported('slice step of unknown sign')
    elif cst == 0:
        raise ValueError('slice step cannot be zero')

    def clip(x, lo, hi, dflt):
        if x is None:
            return dflt
        c = conc(x)
        if c is not None:
            if c < 0:
                x = n + c
                return smax(x, lo)
            return smin(c, hi)
        if ctx().entails(intexpr(x) >= 0):
            return smin(x, hi)
        if ctx().entails(intexpr(x) < 0):
            return smax(x + n, lo)
        x = ite(x < 0, x + n, x)
        return smin(smax(x, lo), hi)
    if cst is None or cst > 0:
        a = clip(start, 0, n, 0)
        b = clip(stop, 0, n, n)
        d = b - a
        if cst == 1:
            ln = smax(d, 0)
        else:
            ln = smax((d + step - 1) // step, 0)
        return a, step, ln
    a = clip(start, -1, n - 1, n - 1)
    b = clip(stop, -1, n - 1, -1)
    d = a - b
    s = -cst
    ln = smax(d if s == 1 else (d + s - 1) // s, 0)
    return a, step, ln


# ------------------------------------------------------------------ constructors

def full(shape, v, kind='f'):
    return SymArr(shape, lambda idx: v, kind)


def from_list(vals, kind=None):
    """1-d array of scalars"""
    vals = list(vals)
    if kind is None:
        kind = kind_of(vals)

    def fn(idx):
        return select(vals, idx[0])
    return SymArr((len(vals),), fn, kind)


def select(vals, i):
    c = conc(i)
    if c is not None:
        return vals[c]
    if not vals:
        raise Unsupported('element of an empty list')
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(mkb(intexpr(i) == j), vals[j], r)
    return r


def kind_of(vals):
    k = 'b'
    order = 'bifO'
    if not vals:
        return 'f'
    for v in vals:
        l = lift(v)
        kk = 'O' if l is None else {R: 'f', I: 'i', B: 'b', U: 'O'}[l[0]]
        if order.index(kk) > order.index(k):
            k = kk
    return k


def from_np(a):
    kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'U': 'O', 'S': 'O'}.get(a.dtype.kind)
    if kind is None:
        raise Unsupported('array of dtype %s' % a.dtype)

    def fn(idx):
        cs = [conc(i) for i in idx]
        if None not in cs:
            v = a[tuple(cs)]
            return v.item() if hasattr(v, 'item') else v
        if a.size > 4096:
            raise Unsupported('symbolic index into a large concrete array')
        # ite chain over the symbolic axes
        p = cs.index(None)
        vals = []
        for j in range(a.shape[p]):
            ii = list(idx)
            ii[p] = j
            vals.append(fn(tuple(ii)))
        return select(vals, idx[p])
    return SymArr(a.shape, fn, kind)


def stack(arrs, axis=0):
    """arrays of equal shape along a new axis"""
    arrs = [as_arr(a) for a in arrs]
    s0 = arrs[0].shape_
    for a in arrs[1:]:
        if a.ndim != len(s0) or not all(same_dim(x, y) for x, y in zip(a.shape_, s0)):
            raise ValueError('all input arrays must have the same shape')
    nd = len(s0) + 1
    axis %= nd
    fns = [a.vfn() for a in arrs]
    kind = 'O' if any(a.kind == 'O' for a in arrs) else max((a.kind for a in arrs), key='bifO'.index)

    def fn(idx):
        r = idx[:axis] + idx[axis + 1:]
        c = conc(idx[axis])
        if c is not None:
            return fns[c](r)
        return select([f(r) for f in fns], idx[axis])
    shape = list(s0[:axis]) + [len(arrs)] + list(s0[axis:])
    return SymArr(shape, fn, kind)


def as_arr(x, kind=None):
    from . import seq as _seq
    if isinstance(x, SymArr):
        return x
    if isinstance(x, _np.ndarray):
        return from_np(x)
    if isinstance(x, _seq.SymSeq):
        return _seq.to_array(x)
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('range', 'dict_values', 'map'):
        x = list(x)
        if not x:
            return from_np(_np.zeros((0,)))
        if any(isinstance(v, (SymArr, _np.ndarray, list, tuple, _seq.SymSeq)) for v in x):
            return stack([as_arr(v) for v in x])
        return from_list(x)
    if lift(x) is not None:
        return full((), x, kind_of([x]))
    if hasattr(x, '__array__'):
        return from_np(_np.asarray(x))
    raise Unsupported('array from %r' % type(x))


# ------------------------------------------------------------------ broadcasting

def bshape2(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if conc(x) == 1:
            out.append(y)
        elif conc(y) == 1:
            out.append(x)
        else:
            if not same_dim(x, y):
                cx, cy = conc(x), conc(y)
                if cx is None and ctx().decide(intexpr(x) == 1):
                    out.append(y)
                    continue
                if cy is None and ctx().decide(intexpr(y) == 1):
                    out.append(x)
                    continue
                raise ValueError('operands could not be broadcast together')
            out.append(x if conc(x) is not None else y)
    return tuple(out)


def bc_fn(a, shape):
    """element function of a broadcast to shape"""
    k = len(shape) - a.ndim
    if k < 0:
        # leading length-1 axes may be dropped on assignment
        if all(conc(s) == 1 for s in a.shape_[:-k]):
            f = a.vfn()
            sub = SymArr(a.shape_[-k:], lambda idx: f((0,) * (-k) + tuple(idx)), a.kind)
            return bc_fn(sub, shape)
        raise ValueError('could not broadcast input array into shape')
    one = []
    for s, t in zip(a.shape_, shape[k:]):
        if conc(s) == 1 and conc(t) != 1:
            one.append(True)
        else:
            if not same_dim(s, t):
                if conc(s) is None and ctx().decide(intexpr(s) == 1):
                    one.append(True)
                    continue
                raise ValueError('operands could not be broadcast together')
            one.append(False)
    f = a.vfn()
    return lambda idx: f(tuple(0 if o else i for o, i in zip(one, idx[k:])))


def broadcast_arrays(*arrs):
    arrs = [as_arr(a) for a in arrs]
    shape = ()
    for a in arrs:
        shape = bshape2(shape, a.shape_)
    return shape, [SymArr(shape, bc_fn(a, shape), a.kind) for a in arrs]


def elementwise(f, args, kind=None):
    arrs = [as_arr(a) for a in args]
    shape = ()
    for a in arrs:
        shape = bshape2(shape, a.shape_)
    fns = [bc_fn(a, shape) for a in arrs]
    if kind is None:
        kind = max((a.kind for a in arrs), key='bifO'.index)
        if kind == 'b':
            kind = 'i'

    def fn(idx):
        return f(*[g(idx) for g in fns])
    if not shape:
        return fn(())
    return SymArr(shape, fn, kind)


# ------------------------------------------------------------------ reductions

def sum_range(f, n):
    """sum_{k<n} f(k)"""
    c = conc(n)
    if c is not None:
        r = 0
        for k in range(c):
            r = r + f(k)
        return r
    return big_sum(f, 0, n)


_bound = {}


def big_sum(f, lo, hi):
    cl, ch = conc(lo), conc(hi)
    if cl is not None and ch is not None:
        r = 0
        for k in range(cl, ch):
            r = r + f(k)
        return r
    # nested sums need distinct bound variables
    depth = getattr(core.CTX, 'sumdepth', 0)
    core.CTX.sumdepth = depth + 1
    try:
        k = z3.Const('k@%d' % next(core.CTX.counter), z3.IntSort())
        # range facts about the bound variable may be used while building the body
        body = core.under([k >= intexpr(lo), k < intexpr(hi)], lambda: f(Sym(I, k)), 'sum over a symbolic range')
    finally:
        core.CTX.sumdepth = depth
    kk, be = lift(body)
    isint = kk in (I, B)
    be = core.toreal(kk, be)
    from . import prover
    r = prover.make_sum(k, be, intexpr(lo), intexpr(hi))
    if depth == 0 and prover.syn_nonneg(be) and not prover.syn_nonneg(r):
        fact = z3.simplify(r >= 0)
        core.CTX.aux[fact.get_id()] = fact
        core.CTX.pc.append(fact)
        core.CTX.solver.add(fact)
    return mk(R, r)


def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if isinstance(axis, (tuple, list)):
        return sorted({a.__index__() % nd for a in axis})
    a = axis.__index__()
    if not -nd <= a < nd:
        raise ValueError('axis out of bounds')
    return [a % nd]


def reduce_sum(a, axis=None, keepdims=False):
    a = as_arr(a)
    if a.ndim == 0:
        return a.elem()
    axes = _axes(axis, a.ndim)
    f = a.vfn()
    rest = [i for i in range(a.ndim) if i not in axes]
    shape = [a.shape_[i] for i in rest]

    def fn(idx):
        def rec(j, cur):
            if j == len(axes):
                ii = [None] * a.ndim
                for p, x in zip(rest, idx):
                    ii[p] = x
                for p, x in zip(axes, cur):
                    ii[p] = x
                return f(tuple(ii))
            return sum_range(lambda k: rec(j + 1, cur + (k,)), a.shape_[axes[j]])
        return rec(0, ())
    kind = 'i' if a.kind in 'bi' else a.kind
    if keepdims:
        shape2 = [1 if i in axes else a.shape_[i] for i in range(a.ndim)]
        return SymArr(shape2, lambda idx: fn(tuple(idx[i] for i in rest)), kind)
    if not shape:
        return fn(())
    return SymArr(shape, fn, kind)


def mean(a, axis=None, keepdims=False):
    a = as_arr(a)
    axes = _axes(axis, a.ndim)
    n = 1
    for i in axes:
        n = a.shape_[i] * n
    s = reduce_sum(a, axis, keepdims)
    return _tdiv(s, n) if not isinstance(s, SymArr) else s / n


def reduce_fold(a, axis, f, init):
    a = as_arr(a)
    if a.ndim == 0:
        return a.elem()
    axes = _axes(axis, a.ndim)
    if any(conc(a.shape_[i]) is None for i in axes):
        raise Unsupported('reduction over a symbolic extent')
    g = a.vfn()
    rest = [i for i in range(a.ndim) if i not in axes]

    def fn(idx):
        r = init
        for cur in _np.ndindex(*[conc(a.shape_[i]) for i in axes]):
            ii = [None] * a.ndim
            for p, x in zip(rest, idx):
                ii[p] = x
            for p, x in zip(axes, cur):
                ii[p] = x
            r = g(tuple(ii)) if r is None else f(r, g(tuple(ii)))
        return r
    if not rest:
        return fn(())
    return SymArr([a.shape_[i] for i in rest], fn, a.kind)


def reduce_ext(a, axis, ismax):
    a = as_arr(a)
    if a.ndim == 0:
        return a.elem()
    axes = _axes(axis, a.ndim)
    if all(conc(a.shape_[i]) is not None for i in axes):
        return reduce_fold(a, axis, (lambda x, y: ite(mkb(core.boolexpr(x >= y)), x, y)) if ismax
                           else (lambda x, y: ite(mkb(core.boolexpr(x <= y)), x, y)), None)
    if len(axes) != a.ndim:
        rest = [i for i in range(a.ndim) if i not in axes]
        rs = [conc(a.shape_[i]) for i in rest]
        if any(s is None for s in rs):
            raise Unsupported('extremum over a symbolic extent')
        out = _np.empty(rs, dtype=object)
        for ix in _np.ndindex(*rs):
            def sub(cur, ix=ix):
                ii = [None] * a.ndim
                for p, x in zip(rest, ix):
                    ii[p] = int(x)
                for p, x in zip(axes, cur):
                    ii[p] = x
                return a.elem(*ii)
            out[ix] = reduce_ext(SymArr([a.shape_[i] for i in axes], sub, a.kind), None, ismax)
        return from_cells(out, a.kind)
    # contract of max/min: an upper/lower bound that is attained
    c = ctx()
    k = R if a.kind == 'f' else I
    m = c.fresh('max' if ismax else 'min', k)
    js = [c.fresh('arg', I) for _ in a.shape_]
    for j, s in zip(js, a.shape_):
        c.fact(z3.And(j.e >= 0, j.e < intexpr(s)))
    e = lift(a.elem(*js))[1]
    c.fact(m.e == e)
    qs = [z3.Const('q@%d' % next(c.counter), z3.IntSort()) for _ in a.shape_]
    rng = z3.And(*[z3.And(q >= 0, q < intexpr(s)) for q, s in zip(qs, a.shape_)])
    qe = core.below_quantifier(lambda: lift(a.elem(*[Sym(I, q) for q in qs]))[1], [rng])
    c.fact(z3.ForAll(qs, z3.Implies(rng, (m.e >= qe) if ismax else (m.e <= qe))))
    return m


def reduce_bool(a, axis, isall):
    a = as_arr(a)
    if a.ndim == 0:
        return mkb(boolexpr(a.elem()))
    axes = _axes(axis, a.ndim)
    if all(conc(a.shape_[i]) is not None for i in axes):
        b = elementwise(lambda x: mkb(boolexpr(x)), [a], 'b')
        r = reduce_fold(b, axis, (lambda x, y: land(x, y)) if isall else (lambda x, y: lor(x, y)), None)
        return (isall if r is None else r)
    if len(axes) != a.ndim:
        raise Unsupported('any/all over a symbolic extent with other axes left')
    c = ctx()
    qs = [z3.Const('q@%d' % next(c.counter), z3.IntSort()) for _ in a.shape_]
    rng = z3.And(*[z3.And(q >= 0, q < intexpr(s)) for q, s in zip(qs, a.shape_)])
    body = core.under([rng], lambda: boolexpr(a.elem(*[Sym(I, q) for q in qs])))
    q = z3.ForAll(qs, z3.Implies(rng, body)) if isall else z3.Exists(qs, z3.And(rng, body))
    if isall and z3.is_true(z3.simplify(body)):
        return True
    if not isall and z3.is_false(z3.simplify(body)):
        return False
    return Sym(B, q)


# ------------------------------------------------------------------ linear algebra & shaping

def dot(a, b, matmul=False):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b if a.ndim else b * a.elem()
    fa, fb = a.vfn(), b.vfn()
    n = a.shape_[-1]
    bax = b.ndim - 2 if b.ndim > 1 else 0
    if not same_dim(n, b.shape_[bax]):
        raise ValueError('shapes not aligned')
    if conc(n) is None and conc(b.shape_[bax]) is not None:
        n = b.shape_[bax]
    kind = max(a.kind, b.kind, key='bifO'.index)
    if matmul and (a.ndim > 2 or b.ndim > 2):
        # batched
        ash, bsh = a.shape_[:-2], b.shape_[:-2] if b.ndim > 1 else ()
        if a.ndim < 2 or b.ndim < 2:
            raise Unsupported('matmul with a vector and a stack')
        bs = bshape2(ash, bsh)
        A = SymArr(bs + a.shape_[-2:], bc_fn(a, bs + a.shape_[-2:]), a.kind)
        Bm = SymArr(bs + b.shape_[-2:], bc_fn(b, bs + b.shape_[-2:]), b.kind)
        fa2, fb2 = A.vfn(), Bm.vfn()
        return SymArr(bs + (a.shape_[-2], b.shape_[-1]),
                      lambda idx: sum_range(lambda k: fa2(idx[:-2] + (idx[-2], k)) * fb2(idx[:-2] + (k, idx[-1])), n),
                      kind)
    sa = a.shape_[:-1]
    sb = b.shape_[:-2] + b.shape_[-1:] if b.ndim > 1 else ()
    na = len(sa)

    def fn(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])

        def term(k):
            bi = ib[:-1] + (k,) + ib[-1:] if b.ndim > 1 else (k,)
            return fa(ia + (k,)) * fb(bi)
        return sum_range(term, n)
    shape = tuple(sa) + tuple(sb)
    if not shape:
        return fn(())
    return SymArr(shape, fn, kind)


def prod_dims(ds):
    r = 1
    for d in ds:
        r = d * r
    return r


def reshape(a, shape):
    a = as_arr(a)
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    shape = [dim(s) for s in shape]
    old = list(a.shape_)
    if any(conc(s) == -1 for s in shape):
        j = [conc(s) for s in shape].index(-1)
        # cancel common extents
        num, den = list(old), [s for i, s in enumerate(shape) if i != j]
        for d in list(den):
            for x in num:
                if _synt_same(d, x):
                    num.remove(x)
                    den.remove(d)
                    break
        cden, cnum = 1, 1
        den2 = []
        for d in den:
            if conc(d) is not None:
                cden *= conc(d)
            else:
                den2.append(d)
        if den2:
            raise Unsupported('reshape to an extent that is not syntactically a quotient')
        for x in list(num):
            if conc(x) is not None:
                cnum *= conc(x)
                num.remove(x)
        if cnum % cden == 0:
            shape[j] = prod_dims(num + [cnum // cden])
        elif not num:
            raise ValueError('cannot reshape array')
        else:
            raise Unsupported('reshape with open divisibility')
        if not isinstance(shape[j], Sym):
            shape[j] = int(shape[j])
    if len(shape) == len(old) and all(_synt_same(x, y) for x, y in zip(shape, old)):
        return a._basic([slice(None)] * a.ndim)
    no, nn = prod_dims(old), prod_dims(shape)
    co, cn = conc(no), conc(nn)
    if co is not None and cn is not None:
        if co != cn:
            raise ValueError('cannot reshape array of size %d into shape' % co)
    elif not ctx().decide(intexpr(no) == intexpr(nn)):
        raise ValueError('cannot reshape array')
    hold = [a]
    del a
    kind = hold[0].kind
    f = lambda idx: hold[0].elem(*idx)       # live: a reshaped array sees later writes to its base
    # match common leading and trailing extents so that only the changed middle needs div/mod
    lead = 0
    while lead < len(old) and lead < len(shape) and _synt_same(old[lead], shape[lead]):
        lead += 1
    tail = 0
    while tail < len(old) - lead and tail < len(shape) - lead and _synt_same(old[-1 - tail], shape[-1 - tail]):
        tail += 1
    mo, mn = old[lead:len(old) - tail], shape[lead:len(shape) - tail]

    # only length-1 axes added or removed: an aliasing view
    o1, n1 = [s for s in old if conc(s) != 1], [s for s in shape if conc(s) != 1]
    if len(o1) == len(n1) and all(_synt_same(x, y) for x, y in zip(o1, n1)):
        key = []
        v = hold[0]._basic([0 if conc(s) == 1 else slice(None) for s in old])
        return v._basic([None if conc(s) == 1 else slice(None) for s in shape])

    def fn(idx, f=f):
        mid = idx[lead:len(shape) - tail]
        lin = 0
        for i, s in zip(mid, mn):
            lin = lin * s + i if not (conc(lin) == 0) else i
        if not mid:
            lin = 0
        out = []
        for s in reversed(mo[1:]):
            out.append(lin % s)
            lin = lin // s
        if mo:
            out.append(lin)
        out = tuple(reversed(out))
        return f(tuple(idx[:lead]) + out + (tuple(idx[len(shape) - tail:]) if tail else ()))
    r = SymArr(shape, fn, kind, ro=hold)

    def snap(_):
        g = hold[0].vfn()
        return lambda idx: fn(idx, g)
    r.store.live = snap
    return r


def _unshared(hold):
    """the base of a reshaped array is referenced by that array alone"""
    import sys
    a = hold[0]
    return sys.getrefcount(a) <= 3 and sys.getrefcount(a.store) <= 2


def concatenate(arrs, axis=0):
    from . import seq as _seq
    if isinstance(arrs, SymArr):
        arrs = list(arrs)
    if isinstance(arrs, _seq.SymSeq):
        return _seq.concat_arrays(arrs, axis)
    arrs = [as_arr(a) for a in arrs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs):
        raise ValueError('all the input array dimensions must match')
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis %= nd
    for a in arrs[1:]:
        for i in range(nd):
            if i != axis and not same_dim(a.shape_[i], arrs[0].shape_[i]):
                raise ValueError('all the input array dimensions must match')
    fns = [a.vfn() for a in arrs]
    ns = [a.shape_[axis] for a in arrs]
    total = 0
    offs = []
    for n in ns:
        offs.append(total)
        total = total + n
    kind = max((a.kind for a in arrs), key='bifO'.index)

    def fn(idx):
        i = idx[axis]
        ci = conc(i)

        def at(j):
            return fns[j](tuple(idx[:axis]) + (i - offs[j],) + tuple(idx[axis + 1:]))
        r = None
        for j in reversed(range(len(arrs))):
            if conc(ns[j]) == 0:
                continue
            if ci is not None and conc(offs[j]) is not None and ci < conc(offs[j]):
                continue
            if r is None:
                if ci is not None and conc(ns[j]) is not None and conc(offs[j]) is not None and ci >= conc(offs[j]) + conc(ns[j]):
                    continue
                r = at(j)
            else:
                c = mkb(intexpr(i) < intexpr(offs[j] + ns[j]))
                if c is True:
                    r = at(j)
                elif c is not False:
                    r = ite(c, at(j), r)
        if r is None:
            raise Unsupported('element of an empty array')
        return r
    shape = list(arrs[0].shape_)
    shape[axis] = total
    return SymArr(shape, fn, kind)


def repeat(a, n, axis=None):
    a = as_arr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    f = a.vfn()
    if _isarr(n) or isinstance(n, (list, tuple)):
        na = as_arr(n)
        if na.ndim == 0 or conc(na.size) == 1:
            n = na.elem(*[0] * na.ndim)
        else:
            ns = [na.elem(i).__index__() for i in range(len(na))]
            src = [i for i, k in enumerate(ns) for _ in range(k)]
            return a.take(_np.array(src), axis=axis)
    shape = list(a.shape_)
    s0 = shape[axis]
    shape[axis] = s0 * n

    def fn(idx):
        i = idx[axis]
        if conc(s0) == 1:
            j = 0
        else:
            j = i // n
        return f(tuple(idx[:axis]) + (j,) + tuple(idx[axis + 1:]))
    return SymArr(shape, fn, a.kind)


def diag(a):
    a = as_arr(a)
    f = a.vfn()
    if a.ndim == 1:
        n = a.shape_[0]
        return SymArr((n, n), lambda idx: ite(_idx_eq(idx[0], idx[1]), f((idx[0],)), 0.0 if a.kind == 'f' else 0), a.kind)
    n = smin(a.shape_[0], a.shape_[1])
    return SymArr((n,), lambda idx: f((idx[0], idx[0])), a.kind)


def cells(a):
    """numpy object array of the elements (concrete extents only)"""
    a = as_arr(a)
    cs = [conc(s) for s in a.shape_]
    if None in cs:
        raise Unsupported('needs concrete extents')
    out = _np.empty(cs, dtype=object)
    for i in _np.ndindex(*cs):
        out[i] = a.elem(*i)
    return out


def from_cells(o, kind=None):
    if not isinstance(o, _np.ndarray):
        return o
    if o.ndim == 0:
        return o.item()
    if o.dtype != object:
        return o
    k = kind or kind_of(list(o.ravel()))
    oo = o

    def fn(idx):
        cs = [conc(i) for i in idx]
        if None not in cs:
            return oo[tuple(cs)]
        p = cs.index(None)
        vals = []
        for j in range(oo.shape[p]):
            ii = list(idx)
            ii[p] = j
            vals.append(fn(tuple(ii)))
        return select(vals, idx[p])
    return SymArr(oo.shape, fn, k)
