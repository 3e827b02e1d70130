"""Loops of symbolic length: inferred loop invariants.

The body is executed once for an arbitrary iteration i with everything the loop changes havocked
(on all paths through the body); the effect is then recognised as one of
  * scalar unchanged / overwritten / accumulated  (v := v + f(i), f free of loop-carried state),
  * array elements written at positions that determine i (map), or accumulated (A[k] += f),
  * list grown by a fixed number of elements per iteration, text grown by a text of the iteration,
which gives the closed form of the state after i iterations: the invariant, inductive by construction
because f, the positions and values do not depend on loop-carried state other than what the closed form
provides.  Anything else is outside the subset.
"""
import z3
import numpy as _np
from . import core, arr, seq, prover, text
from .core import Sym, Unsupported, ctx, mk, mkb, ite, R, I, B, U, intexpr, lift
from .arr import SymArr, conc, as_arr, Store
from .seq import SymSeq

CUR = []


def comp(f, it):
    if seq.is_symbolic_iter(it):
        return SymSeq(seq.seqlen(it), lambda i: f(seq.item(it, i)))
    return [f(x) for x in it]


def newobj(o):
    """called first in every __init__: o was created by the current iteration of the innermost loop"""
    if core.CTX is not None and core.CTX.loops:
        reg = core.CTX.__dict__.setdefault('newobjs', {})
        if id(o) not in reg:
            reg[id(o)] = (o, core.CTX.loops[-1])


def attr_guard(o):
    if core.CTX is not None and core.CTX.loops:
        r = core.CTX.__dict__.get('newobjs', {}).get(id(o))
        if r is not None and r[0] is o and r[1] is core.CTX.loops[-1]:
            return o
        raise Unsupported('attribute assignment inside a loop of symbolic length')
    return o


def item_guard(o):
    if core.CTX is not None and core.CTX.loops and isinstance(o, (list, dict)):
        raise Unsupported('item assignment to an unnamed container inside a loop of symbolic length')
    return o


def subst_value(v, pairs):
    """replace z3 constants in a Python value"""
    if isinstance(v, Sym):
        return mk(v.k, z3.substitute(v.e, *pairs))
    if isinstance(v, SymArr):
        f = v.vfn()
        sh = [subst_value(s, pairs) for s in v.shape_]
        return SymArr(sh, lambda idx: subst_value(f(_safe(idx)), pairs), v.kind)
    if isinstance(v, SymSeq):
        return SymSeq(subst_value(v.n, pairs), lambda i: subst_value(v.fn(i), pairs))
    if isinstance(v, text.Rope):
        return text.Rope([subst_value(x, pairs) for x in v.pieces])
    if isinstance(v, text.Fmt):
        return text.Fmt(v.spec, subst_value(v.value, pairs))
    if isinstance(v, text.Loop):
        return text.Loop(subst_value(v.n, pairs), lambda i: subst_value(v.fn(i), pairs), v.sep)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst_value(x, pairs) for x in v]
    return v


def _safe(idx):
    return idx


class Loop:
    def __init__(self, it, frame, line):
        self.it, self.line = it, line
        self.c = ctx()
        self.n = seq.seqlen(it)
        self.frame0 = {k: v for k, v in frame.items() if not k.startswith('__vc') and not isinstance(v, _Poison)}
        self.hav_names = {}         # name -> Sym havoc const
        self.guess = {}             # name -> (initial value, step): counters, checked on every path of the body
        self.noguess = set()
        self.hav_stores = {}        # id(store) -> (store, z3 fun, oldfn)
        self.state = 'start'
        self.results = {}
        self.empty = not self.c.decide(intexpr(self.n) > 0)
        self.i = None
        self.rounds = 0
        self.drop = False
        self.hav_items = {}         # list name -> positions overwritten in the body
        self.deciders = []
        self.cur = None
        self.written = {}
        self.sig = None

    # ---------------------------------------------------------------- driving the body
    def again(self):
        if self.empty:
            return False
        if self.state == 'start':
            self._begin_round()
        elif not self.work:
            if self._end_round():
                return False
            self._begin_round()
        prefix = self.work.pop()
        self._enter(prefix)
        return True

    def _begin_round(self):
        self.rounds += 1
        if self.rounds > 6:
            raise Unsupported('loop at line %d: effects do not stabilise' % self.line)
        self.work = [[]]
        self.outs = []
        self.state = 'run'
        if self.i is None:
            self.i = self.c.fresh('it', I, plain=True)
        self.nidx = None

    def _enter(self, prefix):
        c = self.c
        self.saved = (c.prefix, c.pos, c.alts, len(c.pc))
        c.prefix, c.pos, c.alts = list(prefix), 0, []
        c.solver.push()
        c.assume(z3.And(self.i.e >= 0, self.i.e < intexpr(self.n)))
        self.nidx = (len(c.indices), len(c.qfacts))
        c.instantiate(self.i, self.n)
        self.pcmark = len(c.pc)
        self.facts = []
        c.loops.append(self)
        self.written = {}
        self.lists = {k: (v, len(v)) for k, v in self.frame0.items() if type(v) is list}
        self.items0 = {k: list(v) for k, (v, _) in self.lists.items()}
        for k, pos in self.hav_items.items():
            for p in pos:
                self.lists[k][0][p] = _Poison('%s[%d]' % (k, p))
        self.guarded = []
        for k, v in self.frame0.items():
            if isinstance(v, dict):
                self.guarded.append((v, dict(v)))
            elif hasattr(v, '__dict__') and not isinstance(v, (type, type(z3), SymArr, SymSeq, Sym)) and not callable(v):
                for q in v.__dict__.values():
                    if type(q) is dict:
                        self.guarded.append((q, dict(q)))
                    elif type(q) is list:
                        self.guarded.append((q, list(q)))
        self.oldfn = {}
        for sid, (st, f, _) in self.hav_stores.items():
            self.oldfn[sid] = st.fn
            kk = f.range()
            kind = {z3.RealSort(): R, z3.IntSort(): I, z3.BoolSort(): B}[kk]
            st.set_fn((lambda f, kind: lambda idx: mk(kind, f(*[intexpr(x) for x in idx])))(f, kind))

    def havocked(self, name):
        return name in self.hav_names

    def value(self, name):
        return self.hav_names[name]

    def isnew(self, name):
        return name not in self.frame0

    def unset(self, name):
        return _Poison(name)

    def item(self):
        return seq.item(self.it, self.i)

    def note_write(self, store, a, value, guard):
        if store.born >= len(self.c.loops) and self.c.loops[-1] is self:
            return
        if store.born > self.c.loops.index(self):
            return
        if id(store) not in self.written:
            self.written[id(store)] = (store, store.fn, a.kind)

    def exc(self, ex):
        """exception in the body: propagate unless this path is infeasible"""
        if isinstance(ex, Unsupported) or prover.feasible(list(self.c.pc), 5000):
            self.c.ghost['raised-in-loop'] = True
            raise ex
        self.drop = True

    def collect(self, frame):
        c = self.c
        drop, self.drop = self.drop, False
        c.loops.pop()
        conds = [e for e in c.pc[self.pcmark:] if e.get_id() not in c.aux]
        del c.indices[self.nidx[0]:]
        del c.qfacts[self.nidx[1]:]
        out = dict(conds=conds, names={}, stores={}, lists={}, facts=self.facts)
        for k, v in frame.items():
            if k.startswith('__vc'):
                continue
            if k not in self.frame0 and isinstance(v, _Poison):
                continue
            if k in self.hav_names:
                out['names'][k] = v
            elif k not in self.frame0:
                out['names'][k] = v
            elif self.frame0[k] is not v:
                out['names'][k] = v
        out['items'] = {}
        for k, (l, n0) in self.lists.items():
            if len(l) < n0:
                raise Unsupported('loop shrinks a list')
            if len(l) != n0:
                out['lists'][k] = (l, n0, list(l[n0:]))
                del l[n0:]
            ch = {p: l[p] for p in range(n0) if l[p] is not self.items0[k][p]}
            if ch:
                out['items'][k] = ch
                l[:] = self.items0[k]
        for q, q0 in self.guarded:
            same = len(q) == len(q0) and (all(x is y for x, y in zip(q, q0)) if isinstance(q, list) else
                                          all(kk in q and q[kk] is q0[kk] for kk in q0))
            if not same:
                raise Unsupported('loop of symbolic length changes a container')
        for sid, (st, old, kind) in self.written.items():
            out['stores'][sid] = (st, st.fn, kind)
            if sid not in self.hav_stores:
                st.set_fn(old)
        for sid, (st, f, _) in self.hav_stores.items():
            if sid not in out['stores']:
                out['stores'][sid] = (st, st.fn, None)
            st.set_fn(self.oldfn[sid])
        alts = c.alts
        c.prefix, c.pos, c.alts, npc = self.saved
        del c.pc[npc:]
        c.solver.pop()
        self.work.extend(alts)
        if drop:
            return
        self.outs.append(out)
        if len(self.outs) > 64:
            raise Unsupported('loop body has too many paths')

    # ---------------------------------------------------------------- after a round
    def _end_round(self):
        """True if everything that changed was havocked and the summary could be built"""
        changed = False
        for o in self.outs:
            for k, v in o['names'].items():
                if k in self.frame0 and k not in self.hav_names:
                    if k in [kk for kk in o['lists']]:
                        continue
                    if isinstance(self.frame0[k], (str, text.Rope)) and isinstance(v, (str, text.Rope)):
                        self.hav_names[k] = text.Rope([text.Hole(k)])
                        changed = True
                        continue
                    l = lift(self.frame0[k])
                    lv = lift(v) if not isinstance(v, (SymArr, _np.ndarray)) else None
                    if isinstance(self.frame0[k], SymArr) or l is None:
                        if isinstance(v, SymArr) and isinstance(self.frame0[k], SymArr) and v.store is self.frame0[k].store:
                            continue
                        # rebound to something not loop-carried? allow only plain overwriting
                        self.hav_names[k] = None
                        changed = True
                        continue
                    kk = l[0]
                    if lv is not None and lv[0] == R:
                        kk = R
                    d = z3.simplify(lv[1] - l[1]) if kk == I and lv is not None and lv[0] == I else None
                    if d is not None and z3.is_int_value(d) and k not in self.noguess:
                        self.guess[k] = (l[1], d)
                        self.hav_names[k] = mk(I, l[1] + d * self.i.e)
                    else:
                        self.hav_names[k] = self.c.fresh('hv_' + k, kk, plain=True)
                    changed = True
                elif k in self.guess:
                    lv = lift(v) if not isinstance(v, (SymArr, _np.ndarray)) else None
                    h, d = self.hav_names[k], self.guess[k][1]
                    if lv is None or lv[0] != I or not z3.eq(z3.simplify(lv[1] - intexpr(h)), d):
                        del self.guess[k]
                        self.noguess.add(k)
                        kk = R if lv is not None and lv[0] == R else I
                        self.hav_names[k] = self.c.fresh('hv_' + k, kk, plain=True)
                        changed = True
                elif k in self.hav_names and isinstance(self.hav_names[k], Sym) and self.hav_names[k].k == I:
                    lv = lift(v) if not isinstance(v, (SymArr, _np.ndarray)) else None
                    if lv is not None and lv[0] == R:
                        self.hav_names[k] = self.c.fresh('hv_' + k, R, plain=True)
                        changed = True
            for k, ch in o['items'].items():
                new = set(ch) - self.hav_items.get(k, set())
                if new:
                    self.hav_items.setdefault(k, set()).update(new)
                    changed = True
            for sid, (st, fn, kind) in o['stores'].items():
                if sid not in self.hav_stores:
                    sort = {'f': R, 'i': I, 'b': B}.get(kind)
                    if sort is None:
                        raise Unsupported('loop writes an object array')
                    self.hav_stores[sid] = (st, self.c.freshfun('hs', *([I] * st.ndim + [sort]), plain=True), kind)
                    changed = True
        if not self.outs:
            raise Unsupported('loop at line %d: no feasible iteration' % self.line)
        if changed:
            if any(v is None for v in self.hav_names.values()):
                for k, v in list(self.hav_names.items()):
                    if v is None:
                        self.hav_names[k] = _Poison(k)
            return False
        self._summarise()
        return True

    def _merge(self, get):
        """merge a per-path value over the paths of the body"""
        r = None
        for o in reversed(self.outs):
            v = get(o)
            r = v if r is None else seq.merge(mkb(z3.And(*o['conds'])) if o['conds'] else True, v, r) if v is not r else r
        return r

    def _summarise(self):
        c, i, n = self.c, self.i, self.n
        havn = {s.e.decl().name() for k, s in self.hav_names.items() if isinstance(s, Sym) and k not in self.guess}
        havf = {f.name(): sid for sid, (st, f, _) in self.hav_stores.items()}
        last = (i.e, z3.simplify(intexpr(n) - 1))
        closed = []              # (const, expr at iteration i)
        texts = []               # loop-carried texts
        pend = {}
        # --- names
        for k in sorted({k for o in self.outs for k in o['names']}):
            if any(k not in o['names'] for o in self.outs):
                if k in self.frame0:
                    raise Unsupported('loop: %s changed on some paths only' % k)
                continue                        # temporary of some paths
            if isinstance(self.hav_names.get(k), _Poison):
                v = self._merge(lambda o: o['names'][k])
                self.results[k] = ('last', v)
                continue
            if isinstance(self.hav_names.get(k), text.Rope):
                texts.append(k)
                continue
            if k in self.guess:
                init, d = self.guess[k]
                self.results[k] = ('val', mk(I, init + d * intexpr(n)))
                continue
            if k in self.hav_names:
                pend[k] = self._merge(lambda o: o['names'][k])
            else:
                try:
                    self.results[k] = ('last', self._merge(lambda o: o['names'][k]))
                except Unsupported:
                    continue
        progress = True
        while pend and progress:
            progress = False
            for k, v in list(pend.items()):
                h = self.hav_names[k]
                kk, e = lift(v)
                if kk != h.k:
                    e = core.toreal(kk, e) if h.k == R else e
                if closed:
                    e = z3.substitute(e, *closed)
                hn = h.e.decl().name()
                names = prover.consts(z3.simplify(e))
                others = (names & havn) - {hn} - {x.decl().name() for x, _ in closed}
                fs = names & set(havf)
                if z3.eq(z3.simplify(e), h.e):
                    closed.append((h.e, lift(self.frame0[k])[1] if h.k != R else core.real(self.frame0[k])))
                    self.results[k] = ('val', self.frame0[k])
                elif hn not in names and not others and not fs:
                    # overwritten in every iteration: value before iteration i
                    init = core.real(self.frame0[k]) if h.k == R else intexpr(self.frame0[k]) if h.k == I else core.boolexpr(self.frame0[k])
                    closed.append((h.e, z3.If(i.e == 0, init, z3.substitute(e, (i.e, i.e - 1)))))
                    self.results[k] = ('val', mk(h.k, z3.substitute(e, last)))
                elif not others and not fs and h.k in (R, I):
                    d = z3.simplify(e - h.e, som=True)
                    if hn in prover.consts(d):
                        d2 = prover.to_expr(prover.padd(prover.P(e), prover.P(h.e), -1))
                        if hn in prover.consts(d2):
                            continue
                        d = d2 if h.k == R else d
                        if h.k == I:
                            continue
                    init = core.real(self.frame0[k]) if h.k == R else intexpr(self.frame0[k])
                    if i.e.decl().name() not in prover.consts(d):
                        ii = z3.ToReal(i.e) if h.k == R else i.e
                        nn = z3.ToReal(intexpr(n)) if h.k == R else intexpr(n)
                        closed.append((h.e, init + d * ii))
                        self.results[k] = ('val', mk(h.k, init + d * nn))
                    elif h.k == R:
                        dd = d
                        cn = i.e

                        def partial(m, dd=dd, cn=cn):
                            kv = z3.Const('ls@%d' % next(c.counter), z3.IntSort())
                            return prover.make_sum(kv, z3.substitute(dd, (cn, kv)), z3.IntVal(0), m)
                        closed.append((h.e, init + partial(i.e)))
                        self.results[k] = ('val', mk(R, init + partial(intexpr(n))))
                    else:
                        continue
                else:
                    continue
                del pend[k]
                progress = True
        if pend:
            raise Unsupported('loop at line %d: no invariant found for %s' % (self.line, sorted(pend)))
        # --- temporaries / rebinding: value of the last iteration
        for k, (kind, v) in list(self.results.items()):
            if kind == 'last':
                try:
                    v2 = subst_value(v, closed) if closed else v
                    self._hfree(v2, havn, havf)
                    self.results[k] = ('val', subst_value(v2, [last]))
                except Unsupported:
                    del self.results[k]
        # --- texts: value before the iteration followed by a text of the iteration
        for k in texts:
            sfx = []
            for o in self.outs:
                p = o['names'][k].pieces if isinstance(o['names'][k], text.Rope) else (o['names'][k],)
                if not (p and isinstance(p[0], text.Hole) and p[0].name == k) or any(isinstance(x, text.Hole) for x in p[1:]):
                    raise Unsupported('loop at line %d: text %s is not only appended to' % (self.line, k))
                sfx.append(text.Rope(p[1:]))
            if len(sfx) > 1:
                raise Unsupported('loop at line %d: text appended depends on a condition' % self.line)
            r = subst_value(sfx[0], closed) if closed else sfx[0]
            self._hfree(r, havn, havf)
            INVARIANTS.append('for at line %d: %s = initial text + texts of the iterations so far' % (self.line, k))
            self.results[k] = ('val', text.Rope([self.frame0[k], text.Loop(n, lambda p, r=r, ie=i.e: subst_value(r, [(ie, intexpr(p))]), '')]))
        # --- lists
        lk = sorted({k for o in self.outs for k in o['lists']})
        for k in lk:
            m = {len(o['lists'][k][2]) if k in o['lists'] else 0 for o in self.outs}
            if len(m) != 1:
                raise Unsupported('loop: list grows differently on different paths')
            m = m.pop()
            l0, n0, _ = [o['lists'][k] for o in self.outs if k in o['lists']][0]
            if sum(1 for v in self.frame0.values() if v is l0) > 1:
                raise Unsupported('loop: aliased list grows')
            vals = [self._merge(lambda o, j=j: o['lists'][k][2][j]) for j in range(m)]
            vals = [subst_value(v, closed) if closed else v for v in vals]
            for v in vals:
                self._hfree(v, havn, havf)
            ie = i.e

            def at(p, vals=vals, m=m):
                if m == 1:
                    return subst_value(vals[0], [(ie, intexpr(p))])
                q, r = p // m, p % m
                cr = conc(r)
                if cr is not None:
                    return subst_value(vals[cr], [(ie, intexpr(q))])
                v = subst_value(vals[-1], [(ie, intexpr(q))])
                for j in range(m - 2, -1, -1):
                    v = seq.merge(mkb(intexpr(r) == j), subst_value(vals[j], [(ie, intexpr(q))]), v)
                return v
            self.results[k] = ('val', seq.cat(list(l0), SymSeq(n * m if m != 1 else n, at)))
        # --- list items
        for k, pos in self.hav_items.items():
            for p in pos:
                l = self.lists[k][0]
                v = _Poison('%s[%d]' % (k, p))
                try:
                    if all(p in o['items'].get(k, {}) for o in self.outs):
                        v = self._merge(lambda o: o['items'][k][p])
                        v = subst_value(v, closed) if closed else v
                        self._hfree(v, havn, havf)
                        v = subst_value(v, [last])
                except Unsupported:
                    v = _Poison('%s[%d]' % (k, p))
                l[p] = v
        # --- stores
        self.back = {}
        for sid, (st, f, _) in self.hav_stores.items():
            self._summarise_store(sid, st, f, closed, havn, havf)
        # --- facts about symbols of the iterations
        for o in self.outs:
            pre = z3.And(*o['conds']) if o['conds'] else z3.BoolVal(True)
            for rng, e in o['facts']:
                e = z3.Implies(pre, e) if o['conds'] else e
                if closed:
                    e = z3.substitute(e, *closed)
                for sid, (st, f, _) in self.hav_stores.items():
                    for ap in _apps(e, f):
                        old = self.back[sid](ap) if sid in self.back else None
                        if old is not None:
                            e = z3.substitute(e, (ap, old))
                nm = prover.consts(e)
                if nm & havn or nm & set(havf):
                    continue
                v = z3.Const('fi@%d' % next(c.counter), z3.IntSort())
                e = z3.substitute(e, (i.e, v))
                rng = [(b, z3.substitute(intexpr(x), (i.e, v))) for b, x in rng]
                c.export(([(v, self.n)] + rng, z3.Implies(z3.And(v >= 0, v < intexpr(n)), e)))

    def _hfree(self, v, havn, havf):
        """value must not depend on loop-carried state"""
        if isinstance(v, Sym):
            nm = prover.consts(v.e)
            if nm & havn or nm & set(havf):
                raise Unsupported('loop: value depends on loop-carried state')
        elif isinstance(v, SymArr):
            js = [self.c.fresh('pj', I, plain=True) for _ in v.shape_]
            self._hfree(v.elem(*js), havn, havf)
            for s in v.shape_:
                self._hfree(s, havn, havf)
        elif isinstance(v, (list, tuple)):
            for x in v:
                self._hfree(x, havn, havf)
        elif isinstance(v, text.Rope):
            for x in v.pieces:
                self._hfree(x, havn, havf)
        elif isinstance(v, text.Hole):
            raise Unsupported('loop: value depends on loop-carried text')
        elif isinstance(v, text.Fmt):
            self._hfree(v.value, havn, havf)
        elif isinstance(v, text.Loop):
            self._hfree(v.n, havn, havf)
            self._hfree(v.fn(self.c.fresh('pj', I, plain=True)), havn, havf)
        elif isinstance(v, SymSeq):
            self._hfree(v.fn(self.c.fresh('pj', I, plain=True)), havn, havf)
        elif isinstance(v, _Poison):
            raise Unsupported('loop: value depends on loop-carried state')

    def _summarise_store(self, sid, st, f, closed, havn, havf):
        c, i, n = self.c, self.i, self.n
        nd = st.ndim
        js = [z3.Const('sj@%d' % next(c.counter), z3.IntSort()) for _ in range(nd)]
        sidx = tuple(Sym(I, j) for j in js)
        kind = {z3.RealSort(): R, z3.IntSort(): I, z3.BoolSort(): B}[f.range()]
        fns = []
        for o in self.outs:
            fns.append((o['conds'], Store(o['stores'][sid][1], nd)))
        e = None
        for conds, s in reversed(fns):
            v = lift(s.get(sidx))
            v = {R: lambda: core.toreal(*v), I: lambda: core.toint(*v), B: lambda: v[1]}[kind]()
            e = v if e is None or not conds else z3.If(z3.And(*conds), v, e)
        if closed:
            e = z3.substitute(e, *closed)
        h0 = f(*js)
        cases = [(z3.And(*cs) if cs else z3.BoolVal(True), v) for cs, v in _cases(e)]
        wr = [(cd, v) for cd, v in cases if not z3.eq(v, h0)]
        wr = [(cd, self._at_written(cd, v, f, js, h0)) for cd, v in wr]
        old = Store(st.fn, nd)
        if not wr:
            return
        W = z3.simplify(z3.Or(*[cd for cd, _ in wr]))
        V = wr[-1][1]
        for cd, v in reversed(wr[:-1]):
            V = z3.If(cd, v, V)
        nmV = prover.consts(V) | prover.consts(W)
        if (nmV & havn) or (nmV & (set(havf) - {f.name()})):
            raise Unsupported('loop at line %d: array value depends on loop-carried state' % self.line)
        own = f.name() in prover.consts(V)
        if f.name() in prover.consts(W):
            raise Unsupported('loop: write position depends on the array')
        ie = i.e
        # which iteration writes position js?
        g = None
        for cand in _solve_for(W, ie):
            s = z3.Solver()
            s.set('timeout', 2000)
            for p in c.pc:
                s.add(p)
            s.add(ie >= 0, ie < intexpr(n), W, ie != cand)
            if s.check() == z3.unsat:
                g = cand
                break
        oldz = lambda idx: {R: core.real, I: intexpr, B: core.boolexpr}[kind](old.get(idx))
        if g is not None:
            def back(ap):
                """read of an element that this iteration and no other writes: the value before the loop"""
                if any(f.name() in prover.consts(x) for x in ap.children()):
                    return None
                ga = z3.substitute(g, *list(zip(js, ap.children())))
                if not z3.eq(z3.simplify(ga), ie):
                    s = z3.Solver()
                    s.set('timeout', 2000)
                    for p in c.pc:
                        s.add(p)
                    s.add(ie >= 0, ie < intexpr(n), ie != ga)
                    if s.check() != z3.unsat:
                        return None
                return oldz(tuple(mk(I, x) for x in ap.children()))
            self.back[sid] = back
            multi = own and not _only_at(V, f, h0)
            if multi:
                # reads of the array at elements that this same iteration (and no other) writes: still the old values
                for ap in _apps(V, f):
                    if any(f.name() in prover.consts(x) for x in ap.children()):
                        raise Unsupported('loop: nested reads of the array written')
                    ga = z3.substitute(g, *list(zip(js, ap.children())))
                    s = z3.Solver()
                    s.set('timeout', 2000)
                    for p in c.pc:
                        s.add(p)
                    s.add(ie >= 0, ie < intexpr(n), W, ie != ga)
                    if s.check() != z3.unsat:
                        raise Unsupported('loop: reads array elements written by other iterations')
                V = z3.substitute(V, *[(ap, oldz(tuple(mk(I, x) for x in ap.children()))) for ap in _apps(V, f)])
                own = False

            def fn(idx):
                zs = [(j, intexpr(x)) for j, x in zip(js, idx)]
                gg = z3.substitute(g, *zs)
                o = oldz(idx)
                w = z3.substitute(z3.substitute(W, (ie, g)), *zs)
                v = z3.substitute(V, (h0, HOLE[kind])) if own else V
                v = z3.substitute(z3.substitute(v, (ie, g)), *zs)
                if own:
                    v = z3.substitute(v, (HOLE[kind], o))
                cd = z3.simplify(z3.And(gg >= 0, gg < intexpr(n), w))
                if z3.is_false(cd):
                    return mk(kind, o)
                if z3.is_true(cd) or c.entails(cd):
                    return mk(kind, v)
                return mk(kind, z3.If(cd, v, o))
        elif not own and ie.decl().name() not in prover.consts(W):
            ln = z3.simplify(intexpr(n) - 1)

            def fn(idx):
                zs = [(j, intexpr(x)) for j, x in zip(js, idx)]
                o = oldz(idx)
                w = z3.substitute(W, *zs)
                v = z3.substitute(z3.substitute(V, (ie, ln)), *zs)
                return mk(kind, z3.If(z3.simplify(w), v, o))
        elif own and kind == R:
            if not _only_at(V, f, h0):
                raise Unsupported('loop: reads array elements written by other iterations')
            d = prover.to_expr(prover.padd(prover.P(z3.If(W, V, h0)), prover.P(h0), -1)) if False else None
            diff = []
            for cd, v in wr:
                q = prover.padd(prover.P(v), prover.P(h0), -1)
                q = prover.to_expr(q)
                if f.name() in prover.consts(q):
                    raise Unsupported('loop: not an accumulation')
                diff.append((cd, q))
            D = z3.RealVal(0)
            for cd, q in reversed(diff):
                cd = z3.simplify(cd)
                D = q if z3.is_true(cd) else z3.If(cd, q, D)

            def fn(idx):
                zs = [(j, intexpr(x)) for j, x in zip(js, idx)]
                o = oldz(idx)
                kv = z3.Const('ls@%d' % next(c.counter), z3.IntSort())
                b = z3.substitute(z3.substitute(D, *zs), (ie, kv))
                # split off conditions that do not depend on the summation variable
                return mk(R, o + _cond_sum(kv, b, intexpr(n), c))
        else:
            raise Unsupported('loop at line %d: no invariant found for an array' % self.line)
        for lp in c.loops:
            if id(st) not in lp.written and st.born <= c.loops.index(lp):
                k = {R: 'f', I: 'i', B: 'b'}[kind]
                lp.written[id(st)] = (st, st.fn, k)
        st.set_fn(fn)

    def _at_written(self, cd, v, f, js, h0):
        """reads of the array at the very element that is written, under another name of its index"""
        sub = []
        for ap in _apps(v, f):
            if z3.eq(ap, h0) or any(f.name() in prover.consts(x) for x in ap.children()):
                continue
            s = z3.Solver()
            s.set('timeout', 2000)
            for p in self.c.pc:
                s.add(p)
            s.add(self.i.e >= 0, self.i.e < intexpr(self.n), cd, z3.Or(*[x != j for x, j in zip(ap.children(), js)]))
            if s.check() == z3.unsat:
                sub.append((ap, h0))
        return z3.substitute(v, *sub) if sub else v

    # ---------------------------------------------------------------- results
    def has(self, name):
        return not self.empty and name in self.results

    def result(self, name):
        return self.results[name][1]


class Unbound:
    pass


UNBOUND = Unbound()
INVARIANTS = []


class _W:
    """frame of a while body under analysis"""

    def __init__(self, c):
        self.c = c
        self.written = {}
        self.pos = {}

    def note_write(self, store, a, value, guard):
        if store.born > self.c.loops.index(self):
            return
        if id(store) not in self.written:
            self.written[id(store)] = (store, store.fn, a.kind)
        p = None
        if guard is None and a.ndim == 0:
            p = a.point()
        self.pos.setdefault(id(store), []).append(p)


def _paths(c, fn, pre=()):
    """run fn() on all paths from here; effects are undone.  -> [(conds, value, {sid: (store, newfn, kind)})]"""
    work, outs = [[]], []
    while work:
        prefix = work.pop()
        saved = (c.prefix, c.pos, c.alts, len(c.pc))
        c.prefix, c.pos, c.alts = list(prefix), 0, []
        c.solver.push()
        for e in pre:
            c.assume(e)
        mark = len(c.pc)
        w = _W(c)
        c.loops.append(w)
        try:
            try:
                v = fn()
            except Unsupported:
                raise
            except Exception as ex:
                if prover.feasible(list(c.pc), 4000):
                    raise Unsupported('exception in the body of a while loop: %s' % ex)
                continue
            st = {}
            for sid, (s_, old, kind) in w.written.items():
                st[sid] = (s_, s_.fn, kind, w.pos[sid])
            outs.append((list(c.pc[mark:]), v, st))
        finally:
            c.loops.pop()
            for sid, (s_, old, kind) in w.written.items():
                s_.set_fn(old)
            work.extend(c.alts)
            c.prefix, c.pos, c.alts, npc = saved
            del c.pc[npc:]
            c.solver.pop()
        if len(outs) > 32:
            raise Unsupported('while body has too many paths')
    return outs


def _numerals(e, acc):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        v = core.numval(x)
        if v is not None:
            acc.add(v)
        elif z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())


def while_(body, test, vals, names, line):
    """`while` statement.  Concrete or decided conditions run as written.  A symbolic condition: invariants by
    Houdini over pointwise templates relating the modified arrays and scalars to their value before the loop
    (equal, integral difference, not less, not greater) and to the numeric constants of condition and body.
    Partial correctness: termination is not shown."""
    c = core.CTX
    n = 0
    while True:
        v = test(*vals)
        if isinstance(v, SymArr):
            v = v.item()
        if not isinstance(v, Sym):
            if not v:
                return vals
            vals = body(*vals)
            continue
        e = z3.simplify(core.boolexpr(v))
        if not (z3.is_true(e) or z3.is_false(e)):
            if c.entails(z3.Not(e)):
                c.assume(z3.Not(e))
                return vals
            if not c.entails(e) or n > 20:
                break
        elif z3.is_false(e):
            return vals
        n += 1
        vals = body(*vals)
    # --- discovery
    vals0 = list(vals)
    lists = [(x, list(x)) for x in vals0 if isinstance(x, list)]
    outs = _paths(c, lambda: body(*vals0), [core.boolexpr(v)])
    for l, l0 in lists:
        if len(l) != len(l0) or any(x is not y for x, y in zip(l, l0)):
            raise Unsupported('while: list modified')
    ents = []       # (key, kind, shape, cur(idx), init(idx))
    consts = {core.Fraction(0)}
    _numerals(core.boolexpr(v), consts)
    newvals = list(vals0)
    stores = {}
    for conds, nv, st in outs:
        for sid, (s_, fn, kind, _p) in st.items():
            stores[sid] = (s_, kind)
    shapes = {}
    for x in vals0:
        if isinstance(x, SymArr):
            shapes[id(x.store)] = [a.n for a in x.imap] if all(a.axis is not None and a.n is not None for a in x.imap) else None
    mod = set()
    for conds, nv, st in outs:
        for k, (a, b) in enumerate(zip(vals0, nv)):
            if a is not b:
                if isinstance(a, SymArr) and isinstance(b, SymArr) and a.store is b.store and a.shape_ == b.shape_:
                    continue
                mod.add(k)
    SK = {'f': R, 'i': I, 'b': B}
    havs = {}
    wit = {}

    def reader(key, f, kind, init):
        def rd(idx):
            if key in wit:          # integral shift of the value before the loop
                return mk(R, core.real(init(idx)) + z3.ToReal(wit[key](*[intexpr(i) for i in idx])))
            return Sym(kind, f(*[intexpr(i) for i in idx]))
        return rd
    focus = {}

    def points(outs, sid):
        return [p for _, _, st in outs if sid in st for p in st[sid][3]]
    for sid, (s_, kind) in stores.items():
        init = Store(s_.fn, s_.ndim)
        pts = points(outs, sid)
        if pts and all(p is not None and all(z3.eq(z3.simplify(intexpr(x)), z3.simplify(intexpr(y))) for x, y in zip(p, pts[0])) for p in pts):
            # only one element is ever written: the others keep their value
            p0 = pts[0]
            focus[sid] = p0
            h = c.fresh('we', SK[kind])
            cur = reader(('s', sid), lambda h=h: h.e, SK[kind], lambda idx, init=init, p0=p0: init.get(p0))

            def rd(idx, p0=p0, cur=cur, init=init):
                return ite(mkb(z3.And(*[intexpr(x) == intexpr(y) for x, y in zip(idx, p0)])), cur(()), init.get(idx))
            havs[sid] = (s_, rd)
            ents.append((('s', sid), SK[kind], (), 0, cur, lambda idx, init=init, p0=p0: init.get(p0)))
            continue
        f = c.freshfun('wh', *([I] * s_.ndim + [SK[kind]]))
        shp = c.ghost.get(('storeshape', sid)) or getattr(s_, 'shape0', None)
        cur = reader(('s', sid), f, SK[kind], init.get)
        havs[sid] = (s_, cur)
        ents.append((('s', sid), SK[kind], shp, s_.ndim, cur, init.get))
    for k in sorted(mod):
        a = vals0[k]
        b = outs[0][1][k]
        if isinstance(a, SymArr) and isinstance(b, SymArr) and a.ndim == b.ndim and all(arr.entailed_eq(x, y) for x, y in zip(a.shape_, b.shape_)):
            f = c.freshfun('wn_' + names[k], *([I] * a.ndim + [SK[a.kind]]))
            cur = reader(('n', k), f, SK[a.kind], a.vfn())
            newvals[k] = SymArr(a.shape_, cur, a.kind)
            ents.append((('n', k), SK[a.kind], a.shape_, a.ndim, cur, a.vfn()))
        elif lift(a) is not None and not isinstance(a, (SymArr, _np.ndarray)):
            kk = lift(a)[0]
            lb = lift(b)
            if lb is not None and lb[0] == R:
                kk = R
            h = c.fresh('wv_' + names[k], kk)
            newvals[k] = h
            ents.append((('n', k), kk, (), 0, (lambda h: lambda idx: h)(h), (lambda a: lambda idx: a)(a)))
        elif a is UNBOUND:
            newvals[k] = _Poison(names[k])
        else:
            raise Unsupported('while loop at line %d: variable %s' % (line, names[k]))
    for conds, nv, st in outs:
        for sid, (s_, fn, kind, _p) in st.items():
            js = [c.fresh('wj', I, plain=True) for _ in range(s_.ndim)]
            ex = lift(Store(fn, s_.ndim).get(tuple(js)))
            if ex:
                _numerals(ex[1], consts)
    consts = {q for q in consts if abs(q) <= 100}
    consts |= {-q for q in consts}
    consts = sorted(consts)[:12]
    # --- candidates: (description, ndim, shape, formula(curmap, idx))
    cands = []
    byk = {e[0]: e for e in ents}

    def add(desc, ent, f):
        cands.append((desc, ent, f))
    for ent in ents:
        key, kind, shp, nd, cur, init = ent
        if kind in (R, I):
            add('%s == old' % (key,), ent, lambda g, idx, k=key, i=init: g[k](idx) == i(idx))
            add('%s >= old' % (key,), ent, lambda g, idx, k=key, i=init: g[k](idx) >= i(idx))
            add('%s <= old' % (key,), ent, lambda g, idx, k=key, i=init: g[k](idx) <= i(idx))
            if kind == R and (nd > 0 or key[1] in focus):
                add('%s - old integral' % (key,), ent, lambda g, idx, k=key, i=init: Sym(B, z3.IsInt(core.real(g[k](idx)) - core.real(i(idx)))))
            for q in consts:
                for op in ('<', '<=', '>', '>='):
                    add('%s %s %s' % (key, op, q), ent, lambda g, idx, k=key, q=q, op=op: _cmp(g[k](idx), op, q))
        elif kind == B:
            for e2 in ents:
                if e2[1] in (R, I) and e2[3] == nd:
                    for q in consts:
                        for op in ('<', '<=', '>', '>='):
                            add('%s <=> %s %s %s' % (key, e2[0], op, q), ent, lambda g, idx, k=key, k2=e2[0], q=q, op=op: mkb(
                                core.boolexpr(g[k](idx)) == core.boolexpr(_cmp(g[k2](idx), op, q))))
    init = {e[0]: e[5] for e in ents}
    cur = {e[0]: e[4] for e in ents}

    def skolem(ent):
        shp, nd = ent[2], ent[3]
        js = tuple(c.fresh('wk', I, plain=True) for _ in range(nd))
        rng = [j.e >= 0 for j in js]
        if shp is not None:
            rng += [j.e < intexpr(s_) for j, s_ in zip(js, shp)]
        return js, rng

    def holds(cand, g, pre=()):
        js, rng = skolem(cand[1])
        goal = core.boolexpr(cand[2](g, js))
        if cand[0].endswith('integral'):
            return prover.integral(goal)
        if z3.is_true(z3.simplify(goal)):
            return True
        hyp = list(pre) + rng
        if prover.z3_check(hyp, goal, 500).status == 'proved':
            return True
        return prover.z3_check(prover.relevant(c.pc, hyp + [goal]) + hyp, goal, 700).status == 'proved'

    def quantified(cand):
        nd = cand[1][3]
        if cand[0].endswith('integral'):
            return z3.BoolVal(True)
        if nd == 0:
            return core.boolexpr(cand[2](cur, ()))
        js, rng = skolem(cand[1])
        qs = [j.e for j in js]
        return z3.ForAll(qs, z3.Implies(z3.And(*rng), core.boolexpr(cand[2](cur, js))))
    cands = [k for k in cands if holds(k, init)]
    for sid, (s_, rd) in havs.items():
        s_.set_fn(lambda idx, rd=rd: rd(idx))
    while True:
        wit.clear()
        for k in cands:
            if k[0].endswith('integral'):
                wit[k[1][0]] = c.freshfun('wint', *([I] * (k[1][3] + 1)))
        hyp = [quantified(k) for k in cands]
        c.solver.push()
        npc = len(c.pc)
        for h in hyp:
            c.assume(h)
        try:
            tv = core.boolexpr(test(*newvals))
            outs = _paths(c, lambda: body(*newvals), [tv])
            bad = []
            for k in cands:
                for conds, nv, st in outs:
                    g = dict(cur)
                    for e in ents:
                        kk = e[0]
                        if kk[0] == 's' and kk[1] in st:
                            if kk[1] in focus:
                                p0 = focus[kk[1]]
                                if any(p is None or not all(z3.eq(z3.simplify(intexpr(x)), z3.simplify(intexpr(y))) for x, y in zip(p, p0))
                                       for p in st[kk[1]][3]):
                                    raise Unsupported('while: writes change position')
                                g[kk] = lambda idx, fn=st[kk[1]][1], nd=stores[kk[1]][0].ndim, p0=p0: Store(fn, nd).get(p0)
                            else:
                                g[kk] = Store(st[kk[1]][1], e[3]).get
                        elif kk[0] == 'n':
                            x = nv[kk[1]]
                            g[kk] = x.vfn() if isinstance(x, SymArr) else (lambda idx, x=x: x)
                    if not holds(k, g, [tv] + conds):
                        bad.append(k)
                        break
        finally:
            del c.pc[npc:]
            c.solver.pop()
        if not bad:
            break
        cands = [k for k in cands if k not in bad]
    for h in hyp:
        c.fact(h)
    c.ghost['inexact'] = True
    INVARIANTS.append('while at line %d: %s' % (line, '; '.join(k[0] for k in cands)))
    nt = z3.simplify(z3.Not(core.boolexpr(test(*newvals))))
    c.fact(nt)
    for lp in c.loops:
        for sid, (s_, kind) in stores.items():
            if id(s_) not in lp.written and s_.born <= c.loops.index(lp):
                lp.written[id(s_)] = (s_, s_.fn, kind)
    return newvals


def _cmp(a, op, q):
    return {'<': a < q, '<=': a <= q, '>': a > q, '>=': a >= q}[op]


HOLE = {R: z3.Const('hole@r', z3.RealSort()), I: z3.Const('hole@i', z3.IntSort()), B: z3.Const('hole@b', z3.BoolSort())}


class _Poison:
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        raise Unsupported('loop-carried value %s' % self.__dict__.get('name'))

    __array_ufunc__ = None


def _poisoned(self, *a):
    raise Unsupported('loop-carried value %s' % self.__dict__.get('name'))


for _n in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow matmul rmatmul neg pos abs lt le gt ge eq ne '
           'bool int float index len getitem setitem iter contains call hash and or xor invert').split():
    setattr(_Poison, '__%s__' % _n, _poisoned)


def _cond_sum(kv, body, n, c):
    body = z3.simplify(body) if False else body
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and not prover.mentions(body.arg(0), kv.decl().name()):
        a = _cond_sum(kv, body.arg(1), n, c)
        b = _cond_sum(kv, body.arg(2), n, c)
        return z3.If(body.arg(0), a, b)
    return prover.make_sum(kv, body, z3.IntVal(0), n)


def _cases(e):
    """[(conds, value)] of an if-then-else tree (top level only)"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        return [([c] + cs, v) for cs, v in _cases(e.arg(1))] + [([z3.Not(c)] + cs, v) for cs, v in _cases(e.arg(2))]
    return [([], e)]


def _apps(e, f):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and z3.eq(x.decl(), f):
                out.append(x)
            todo.extend(x.children())
    return out


def _only_at(e, f, h0):
    """every application of f in e is h0"""
    e2 = z3.substitute(e, (h0, HOLE[{z3.RealSort(): R, z3.IntSort(): I, z3.BoolSort(): B}[f.range()]]))
    return f.name() not in prover.consts(e2)


def _solve_for(w, i):
    """candidate solutions i = g from equations in w"""
    out = []
    todo, seen = [w], set()
    nm = i.decl().name()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_eq(x) and x.arg(0).sort() == z3.IntSort() and prover.mentions(x, nm):
                d = prover.padd(prover.P(x.arg(0)), prover.P(x.arg(1)), -1)
                aid = list(prover.P(i))[0][0][0]
                co = d.get(((aid, 1),))
                rest = {m: q for m, q in d.items() if m != ((aid, 1),)}
                if co in (1, -1) and not any(aid == a for m in rest for a, _ in m):
                    g = prover._int_expr({m: -q / co for m, q in rest.items()})
                    if g is not None and not prover.mentions(g, nm):
                        out.append(g)
                elif co is not None and co.denominator == 1 and 1 < abs(co) < 1000 and not any(aid == a for m in rest for a, _ in m):
                    g = prover._int_expr({m: (-q if co > 0 else q) for m, q in rest.items()})
                    if g is not None and not prover.mentions(g, nm):
                        out.append(g / z3.IntVal(abs(int(co))))
            todo.extend(x.children())
    return out
