"""Discharging obligations: polynomial normal form over atoms, then z3, then cvc5."""
import itertools, time, os
from fractions import Fraction
import z3
from . import core
from .core import SUMF, MF, PI, ATAN2, POW, Sym, numval, realval, Unsupported

STATS = {'poly': 0, 'z3': 0, 'cvc5': 0, 'simplify': 0}
TIME = {'poly': 0.0, 'z3': 0.0, 'cvc5': 0.0, 'simplify': 0.0}

# ------------------------------------------------------------------ polynomial normal form
# Poly: dict {mono: Fraction}; mono: tuple of (atom_id, power) sorted, powers nonzero ints (negative =
# reciprocal).  Atoms are interned by a structural key.

_atoms = []          # id -> dict(key, expr, kind, ...)
_atom_ix = {}
_memo = {}
MAXTERMS = 60000


class TooBig(Exception):
    pass


def atom(key, expr, kind, **info):
    i = _atom_ix.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(dict(key=key, expr=expr, kind=kind, **info))
        _atom_ix[key] = i
    return i


def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(i, p=1):
    return {((i, p),): Fraction(1)}


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, p in b:
        q = d.get(i, 0) + p
        if q:
            d[i] = q
        else:
            del d[i]
    return tuple(sorted(d.items()))


def _reducible(m):
    for i, p in m:
        k = _atoms[i]['kind']
        if (k == 'sqrt' or k == 'sin' or k == 'sinh') and (p >= 2 or (p <= -2 and k == 'sqrt')):
            return i, p
        if k == 'cbrt' and p >= 3:
            return i, p
        if k == 'poly' and p > 0:
            return i, p
    return None


def normal(p):
    """apply sqrt(t)^2 = t, sin^2 = 1 - cos^2, sinh^2 = cosh^2 - 1, expand positive poly atoms"""
    for _ in range(200):
        bad = None
        for m in p:
            r = _reducible(m)
            if r:
                bad = (m,) + r
                break
        if bad is None:
            return p
        m, i, q = bad
        A = _atoms[i]
        out = {}
        for m, c in p.items():
            d = dict(m)
            q = d.get(i, 0)
            if A['kind'] == 'poly' and q > 0:
                del d[i]
                f = ppow(A['poly'], q)
            elif A['kind'] == 'sqrt' and abs(q) >= 2:
                SIDE.add(i)
                h = abs(q) // 2
                rest = abs(q) % 2
                d.pop(i)
                if rest:
                    d[i] = 1 if q > 0 else -1
                f = ppow(A['poly'], h)
                if q < 0:
                    f = pinv(f)
            elif A['kind'] in ('sin', 'sinh') and q >= 2:
                d.pop(i)
                if q % 2:
                    d[i] = 1
                co = patom(A['partner'], 2)
                f = padd(pconst(1), co, -1) if A['kind'] == 'sin' else padd(co, pconst(1), -1)
                f = ppow(f, q // 2)
            elif A['kind'] == 'cbrt' and q >= 3:
                d.pop(i)
                if q % 3:
                    d[i] = q % 3
                f = ppow(A['poly'], q // 3)
            else:
                f = None
            if f is None:
                out = padd(out, {m: c})
            else:
                mm = tuple(sorted(d.items()))
                out = padd(out, pmul({mm: c}, f, red=False))
        p = out
    raise TooBig()


SIDE = set()          # sqrt atoms whose argument must be >= 0 for the reduction used


def pmul(a, b, red=True):
    if len(a) * len(b) > MAXTERMS * 4:
        raise TooBig()
    r = {}
    if len(a) > len(b):
        a, b = b, a
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return normal(r) if red else r


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pinv(p):
    """1/p"""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((i, -q) for i, q in m): 1 / c}
    if not p:
        # division by a literal zero: opaque
        return patom(atom(('div0',), z3.RealVal(1) / z3.RealVal(0), 'other'))
    # multi-term: take out the common monomial, make it monic, intern as an atom
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {i: min(q, d.get(i, 0)) if (q > 0) == (d.get(i, 0) > 0) and q > 0 else (max(q, d[i]) if i in d and q < 0 and d[i] < 0 else 0)
                                            for i, q in common.items() if i in d}
        common = {i: q for i, q in common.items() if q}
        if not common:
            break
    common = common or {}
    # exponentials are nonzero: take out their lowest power
    for i in {i for m in p for i, q in m if _atoms[i]['kind'] == 'exp'}:
        common[i] = min(dict(m).get(i, 0) for m in p)
        if not common[i]:
            del common[i]
    inv = tuple(sorted((i, -q) for i, q in common.items()))
    base = {mmul(m, inv): c for m, c in p.items()}
    lead = base[min(base)]
    base = {m: c / lead for m, c in base.items()}
    if len(base) == 1:
        return pmul({inv: 1 / lead}, pinv(base))
    i = atom(('poly', pkey(base)), None, 'poly', poly=base)
    if _atoms[i]['expr'] is None:
        _atoms[i]['expr'] = to_expr(base)
    return pmul({inv: 1 / lead}, patom(i, -1), red=False)


def to_expr(p):
    """z3 expression of a Poly (deterministic)"""
    ts = []
    for m, c in sorted(p.items()):
        num, den = [], []
        for i, q in m:
            e = atom_expr(i)
            if e.sort() == z3.IntSort():
                e = z3.ToReal(e)
            (num if q > 0 else den).extend([e] * abs(q))
        t = realval(c) if (c != 1 or not num) else None
        for e in num:
            t = e if t is None else t * e
        if den:
            d = den[0]
            for e in den[1:]:
                d = d * e
            t = t / d
        ts.append(t)
    if not ts:
        return z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def atom_expr(i):
    return _atoms[i]['expr']


def _int_expr(p):
    """z3 Int expression of an integer polynomial, or None"""
    ts = []
    for m, c in sorted(p.items()):
        if c.denominator != 1:
            return None
        t = z3.IntVal(int(c)) if (c != 1 or not m) else None
        for i, q in m:
            e = atom_expr(i)
            if q < 0 or e.sort() != z3.IntSort():
                return None
            for _ in range(q):
                t = e if t is None else t * e
        ts.append(t)
    if not ts:
        return z3.IntVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def P(e):
    """Poly of a z3 Real or Int expression"""
    hit = _memo.get(e.get_id())
    if hit is not None:
        return hit[1]
    r = _P(e)
    _memo[e.get_id()] = (e, r)
    return r


def canon_key(e):
    """structural key of any z3 term modulo polynomial normal form"""
    if z3.is_quantifier(e):
        return ('q', e.sexpr())
    s = e.sort()
    if s == z3.RealSort() or s == z3.IntSort():
        return ('p', pkey(P(e)))
    if z3.is_app(e):
        if e.num_args() == 0:
            return ('c', e.decl().name())
        return ('a', e.decl().name(), tuple(canon_key(c) for c in e.children()))
    return ('x', e.sexpr())


def _P(e):
    v = numval(e)
    if v is not None:
        return pconst(v)
    if z3.is_quantifier(e) or z3.is_var(e):
        return patom(atom(('x', e.sexpr()), e, 'other'))
    d = e.decl()
    k = d.kind()
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, P(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = P(ch[0])
        for c in ch[1:]:
            r = padd(r, P(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in P(ch[0]).items()}
    if k == z3.Z3_OP_MUL:
        r = P(ch[0])
        for c in ch[1:]:
            r = pmul(r, P(c))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(P(ch[0]), pinv(P(ch[1])))
    if k == z3.Z3_OP_POWER:
        n = numval(ch[1])
        if n is not None and n.denominator == 1 and 0 <= n <= 24:
            return ppow(P(ch[0]), int(n))
    if k == z3.Z3_OP_TO_REAL:
        return P(ch[0])
    if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 0:
        return patom(atom(('c', d.name(), e.sort().name()), e, 'const'))
    name = d.name()
    if k == z3.Z3_OP_UNINTERPRETED:
        if name in MF and z3.eq(d, MF[name]):
            return _Pmath(name, ch[0], e)
        if z3.eq(d, SUMF):
            return _Psum(e)
        args, keys = [], []
        for c in ch:
            if c.sort() == z3.IntSort():
                p = P(c)
                ie = _int_expr(p)
                args.append(c if ie is None else ie)
                keys.append(('p', pkey(p)))
            elif c.sort() == z3.RealSort():
                p = P(c)
                args.append(to_expr(p))
                keys.append(('p', pkey(p)))
            else:
                args.append(c)
                keys.append(canon_key(c))
        return patom(atom((name, tuple(keys)), d(*args), 'app'))
    if k == z3.Z3_OP_ITE:
        c = z3.simplify(ch[0])
        if z3.is_true(c):
            return P(ch[1])
        if z3.is_false(c):
            return P(ch[2])
        a, b = P(ch[1]), P(ch[2])
        if a == b:
            return a
        if ch[1].sort() == z3.IntSort():
            ae, be = _int_expr(a), _int_expr(b)
            ae = ch[1] if ae is None else ae
            be = ch[2] if be is None else be
        else:
            ae, be = to_expr(a), to_expr(b)
        return patom(atom(('ite', canon_key(c), pkey(a), pkey(b)), z3.If(c, ae, be), 'ite'))
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_TO_INT):
        keys = tuple(canon_key(c) for c in ch)
        args = []
        for c in ch:
            p = P(c)
            ie = _int_expr(p) if c.sort() == z3.IntSort() else to_expr(p)
            args.append(c if ie is None else ie)
        if k == z3.Z3_OP_TO_INT:
            ex = z3.ToInt(args[0])
        elif k == z3.Z3_OP_IDIV:
            ex = args[0] / args[1]
        else:
            ex = args[0] % args[1]
        return patom(atom((d.name(), keys), ex, 'int'))
    return patom(atom(('e', tuple(canon_key(c) for c in ch), d.name()), e, 'other'))


def _Pmath(name, arg, e):
    p = P(arg)
    if not p and name in ('sin', 'tan', 'sinh', 'tanh', 'sqrt', 'asin', 'atan', 'cbrt'):
        return {}
    if not p and name in ('cos', 'cosh', 'exp'):
        return pconst(1)
    # parity
    if name in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'asin', 'atan') and p and len(p) >= 1:
        lead = p[min(p)]
        if lead < 0:
            q = {m: -c for m, c in p.items()}
            r = _Pmath(name, to_expr(q), None)
            return r if name in ('cos', 'cosh') else {m: -c for m, c in r.items()}
    if name == 'sqrt' and len(p) == 1:
        (m, c), = p.items()
        # sqrt of a rational square times nothing
        if not m:
            x = core.math1('sqrt', realval(c))
            if numval(x) is not None:
                return pconst(numval(x))
    if name in ('sin', 'cos') and len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            A = _atoms[m[0][0]]
            if A['kind'] == 'acos':
                ACOS_SIDE.add(m[0][0])
                if name == 'cos':
                    return A['poly']
                return _Pmath('sqrt', to_expr(padd(pconst(1), pmul(A['poly'], A['poly']), -1)), None)
    if name == 'exp' and p:
        # exp of a sum: product; keeps exp(a)*exp(b) == exp(a+b)
        r = pconst(1)
        for m, c in sorted(p.items()):
            q = abs(c)
            den = 2 if q.denominator == 1 else q.denominator      # exp(x) and exp(x/2) share their base
            n = q.numerator * den // q.denominator
            if n > 24 and q.denominator == 1 and n <= 2000:
                # share the base among c, c/2, c/4 (c an even multiple)
                e, nn = 0, n
                while nn % 2 == 0:
                    nn //= 2
                    e += 1
                if 2 ** e <= 24:
                    unit = {m: Fraction(nn) / 2}
                    i = atom(('exp', pkey(unit)), MF['exp'](to_expr(unit)), 'exp', poly=unit)
                    r = pmul(r, patom(i, 2 ** e if c > 0 else -2 ** e))
                    continue
            unit = {m: Fraction(1, den)}
            i = atom(('exp', pkey(unit)), MF['exp'](to_expr(unit)), 'exp', poly=unit)
            if n <= 24:
                r = pmul(r, patom(i, n if c > 0 else -n))
            else:
                u = {m: c}
                i = atom(('exp', pkey(u)), MF['exp'](to_expr(u)), 'exp', poly=u)
                r = pmul(r, patom(i))
        return r
    if name in ('sinh', 'cosh') and p:
        a = _Pmath('exp', arg, None)
        b = _Pmath('exp', -arg, None)
        return {m: c / 2 for m, c in padd(a, b, -1 if name == 'sinh' else 1).items()}
    if name == 'log' and p:
        # log(exp(u)^e * q) = e u + log q, e the smallest exponent of exp(u) in all terms (arguments of log are positive)
        low = {}
        for m in p:
            for i, e in m:
                if _atoms[i]['kind'] == 'exp':
                    low.setdefault(i, 0)
        for i in low:
            low[i] = min(dict(m).get(i, 0) for m in p)
        low = {i: e for i, e in low.items() if e}
        if low:
            q, u = p, {}
            for i, e in low.items():
                q = pmul(q, patom(i, -e))
                u = padd(u, {mm: cc * e for mm, cc in _atoms[i]['poly'].items()})
            if q == pconst(1):
                return u
            return padd(u, _Pmath('log', to_expr(q), None))
    if name == 'acos' and len(p) == 1:
        pass
    key = (name, pkey(p))
    ex = MF[name](to_expr(p))
    i = atom(key, ex, name, poly=p)
    if name in ('sin', 'sinh') and 'partner' not in _atoms[i]:
        co = 'cos' if name == 'sin' else 'cosh'
        j = atom((co, pkey(p)), MF[co](to_expr(p)), co, poly=p)
        _atoms[i]['partner'] = j
    if name == 'tan':
        s = _Pmath('sin', to_expr(p), None)
        c = _Pmath('cos', to_expr(p), None)
        return pmul(s, pinv(c))
    if name == 'tanh':
        s = _Pmath('sinh', to_expr(p), None)
        c = _Pmath('cosh', to_expr(p), None)
        return pmul(s, pinv(c))
    return patom(i)


ACOS_SIDE = set()

# ------------------------------------------------------------------ sums

_BV = {}
BUILD_SIDE, BUILD_ACOS = set(), set()     # side conditions of reductions made while building sums


def bv(i):
    if i not in _BV:
        _BV[i] = z3.Const('bv@%d' % i, z3.IntSort())
    return _BV[i]


_dep_memo = {}


def depends(i, name):
    """atom i contains constant `name`"""
    key = (i, name)
    r = _dep_memo.get(key)
    if r is None:
        r = _dep_memo[key] = mentions(_atoms[i]['expr'], name)
    return r


_ment = {}


def consts(e):
    """names of the uninterpreted constants and functions in e"""
    h = _ment.get(e.get_id())
    if h is not None:
        return h[1]
    if len(_ment) > 300000:
        _ment.clear()
    if z3.is_quantifier(e):
        r = consts(e.body())
    elif z3.is_app(e):
        ch = e.children()
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([e.decl().name()])
        else:
            r = frozenset()
        for c in ch:
            k = consts(c)
            if not k <= r:
                r = r | k
    else:
        r = frozenset()
    _ment[e.get_id()] = (e, r)
    return r


def mentions(e, name):
    return name in consts(e)


def make_sum(k, body, lo, hi):
    """z3 term for sum_{lo<=k<hi} body, normalised"""
    SIDE.clear()
    ACOS_SIDE.clear()
    p = sum_poly(k, body, lo, hi)
    BUILD_SIDE.update(SIDE)
    BUILD_ACOS.update(ACOS_SIDE)
    return to_expr(p)


_PC = [None, None]       # hypotheses of the obligation being proved, solver


def entailed(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if _PC[0] is None:
        return core.CTX is not None and core.CTX.entails(e)
    if _PC[1] is None:
        s = z3.Solver()
        s.set('timeout', 500)
        for h in _PC[0]:
            if not (consts(h) & {'SUM'}) and not z3.is_quantifier(h):
                s.add(h)
        _PC[1] = (s, {})
    s, memo = _PC[1]
    r = memo.get(e.get_id())
    if r is None:
        s.push()
        s.add(z3.Not(e))
        r = memo[e.get_id()] = (e, s.check() == z3.unsat)
        s.pop()
    return r[1]


def _klin(k, cond):
    """condition on the bound variable: ('==' | '<', bound) meaning k == bound / k < bound, negated flag"""
    neg = False
    while z3.is_not(cond):
        neg = not neg
        cond = cond.arg(0)
    kn = k.decl().name()
    if not mentions(cond, kn) or not (z3.is_eq(cond) or z3.is_le(cond) or z3.is_lt(cond) or z3.is_ge(cond) or z3.is_gt(cond)):
        return None
    a, b = cond.children()
    if a.sort() not in (z3.IntSort(), z3.RealSort()):
        return None
    if z3.is_ge(cond):
        a, b, op = b, a, '<='
    elif z3.is_gt(cond):
        a, b, op = b, a, '<'
    else:
        op = '==' if z3.is_eq(cond) else '<=' if z3.is_le(cond) else '<'
    try:
        d = padd(P(a), P(b), -1)          # d op 0
    except TooBig:
        return None
    co, rest = None, {}
    for m, c in d.items():
        ks = [(i, q) for i, q in m if depends(i, kn)]
        if not ks:
            rest[m] = c
        elif len(m) == 1 and m[0][1] == 1 and z3.is_const(atom_expr(m[0][0])) and co is None:
            co = c
        else:
            return None
    if co not in (1, -1):
        return None
    r = _int_expr(rest)
    if r is None:
        return None
    if op == '==':
        return '==', z3.simplify(-r if co == 1 else r), neg
    if co == 1:                            # k + r op 0
        return '<', z3.simplify(-r if op == '<' else -r + 1), neg
    # -k + r op 0: k > r or k >= r
    return '<', z3.simplify(r + 1 if op == '<' else r), not neg


def _find_kite(e, k, seen):
    """outermost if-then-else whose condition is a comparison of the bound variable"""
    kn = k.decl().name()
    if e.get_id() in seen or not mentions(e, kn):
        return None
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c = e.arg(0)
        if mentions(c, kn):
            x = _klin(k, c)
            if x is not None:
                return e, x
            if z3.is_and(c) or z3.is_or(c):
                for j, p in enumerate(c.children()):
                    if mentions(p, kn) and _klin(k, p) is not None:
                        rest = [q for i, q in enumerate(c.children()) if i != j]
                        if z3.is_and(c):
                            rr = rest[0] if len(rest) == 1 else z3.And(*rest)
                            new = z3.If(p, z3.If(rr, e.arg(1), e.arg(2)), e.arg(2))
                        else:
                            rr = rest[0] if len(rest) == 1 else z3.Or(*rest)
                            new = z3.If(p, e.arg(1), z3.If(rr, e.arg(1), e.arg(2)))
                        return e, new
    for ch in e.children():
        r = _find_kite(ch, k, seen)
        if r is not None:
            return r
    return None


def clampi(x, lo, hi):
    if not entailed(x >= lo):
        x = z3.If(x < lo, lo, x)
    if not entailed(x <= hi):
        x = z3.If(x > hi, hi, x)
    return x


def sum_poly(k, body, lo, hi, depth=0):
    # shift to lo = 0
    lov = numval(z3.simplify(lo))
    if lov != 0:
        body = z3.substitute(body, (k, k + lo))
        hi = z3.simplify(hi - lo)
        lo = z3.IntVal(0)
    hn = numval(z3.simplify(hi))
    if hn is not None and hn <= 3:
        r = {}
        for j in range(int(hn)):
            r = padd(r, P(z3.substitute(body, (k, z3.IntVal(j)))))
        return r
    if entailed(hi <= 0):
        return {}
    # cases on the position: split the range
    kn = k.decl().name()
    while depth < 6 and _has_ite(body):
        f = _find_kite(body, k, set())
        if f is None:
            break
        t, x = f
        if not isinstance(x, tuple):
            body = z3.substitute(body, (t, x))
            continue
        op, c, neg = x
        A = z3.substitute(body, (t, t.arg(2 if neg else 1)))
        B_ = z3.substitute(body, (t, t.arg(1 if neg else 2)))
        zero = z3.IntVal(0)
        if op == '==':
            # the other branch everywhere, corrected at k == c
            r = sum_poly(k, B_, zero, hi, depth + 1)
            at = padd(P(z3.substitute(A, (k, c))), P(z3.substitute(B_, (k, c))), -1)
            inr = z3.simplify(z3.And(c >= 0, c < hi))
            if entailed(inr):
                return padd(r, at)
            if entailed(z3.Not(inr)):
                return r
            return padd(r, P(z3.If(inr, to_expr(at), z3.RealVal(0))))
        h0 = hi
        if not entailed(hi >= 0):
            h0 = z3.If(hi >= 0, hi, zero)
        c = clampi(c, zero, h0)
        r = sum_poly(k, A, zero, c, depth + 1)
        return padd(r, sum_poly(k, B_, c, h0, depth + 1))
    pb = P(body)
    out = {}
    for m, c in pb.items():
        inside = tuple((i, q) for i, q in m if depends(i, kn))
        outside = tuple((i, q) for i, q in m if not depends(i, kn))
        if not inside:
            hp = P(hi)
            if not entailed(hi >= 0):
                s = patom(atom(('cnt', pkey(hp)), z3.If(hi >= 0, hi, z3.IntVal(0)), 'other'))
            else:
                s = hp
        else:
            s = patom(_sum_atom(k, inside, hi))
        out = padd(out, pmul({outside: c}, s))
    return out


def _sum_atom(k, mono, hi):
    """atom for sum_{0<=k<hi} mono(k).  A nested sum as the only factor is flattened."""
    binders = [(k, hi)]
    # flatten: mono consists of a single sum atom
    while len(mono) == 1 and mono[0][1] == 1 and _atoms[mono[0][0]]['kind'] == 'sum':
        A = _atoms[mono[0][0]]
        kb, body = A['binders'], A['mono']
        # rename inner binders apart
        ren = []
        for j, (b, h) in enumerate(kb):
            nb = z3.Const('fl@%d' % next(_flc), z3.IntSort())
            ren.append((b, nb))
        e = to_expr({body: Fraction(1)})
        e = z3.substitute(e, *ren)
        q = P(e)
        if len(q) != 1:
            break
        (m2, c2), = q.items()
        if c2 != 1:
            break
        mono = m2
        binders = binders + [(nb, z3.substitute(h, *ren)) for (b, nb), (_, h) in zip(ren, kb)]
    n = len(binders)
    names = [b.decl().name() for b, _ in binders]
    e0 = to_expr({mono: Fraction(1)})
    best = None
    perms = itertools.permutations(range(n)) if n <= 3 else [tuple(range(n))]
    for perm in perms:
        ok = True
        for pos, j in enumerate(perm):
            # the bound of binder j may only use earlier binders
            later = [names[x] for x in perm[pos:]]
            if any(mentions(binders[j][1], nm) for nm in later):
                ok = False
                break
        if not ok:
            continue
        sub = [(binders[j][0], bv(pos)) for pos, j in enumerate(perm)]
        e = z3.substitute(e0, *sub)
        his = [z3.substitute(binders[j][1], *sub) for j in perm]
        p = P(e)
        key = ('sum', tuple(pkey(P(h)) for h in his), pkey(p))
        # order by a representation that does not depend on the permutation-specific interning
        skey = (tuple(z3.simplify(h).sexpr() for h in his), z3.simplify(e).sexpr()) if n > 1 else ()
        if best is None or skey < best[0]:
            best = (skey, key, e, his, p)
    skey, key, e, his, p = best
    ex = e
    for pos in reversed(range(n)):
        ex = SUMF(z3.Lambda([bv(pos)], ex), z3.IntVal(0), his[pos])
    if len(p) == 1 and list(p.values())[0] == 1:
        (mm, _), = p.items()
    else:
        mm = None
    if mm is None:
        return atom(key, ex, 'other')
    return atom(key, ex, 'sum', binders=[(bv(pos), his[pos]) for pos in range(n)], mono=mm)


_flc = itertools.count()


def _Psum(e):
    lam, lo, hi = e.children()
    if z3.is_quantifier(lam) and lam.is_lambda():
        k = z3.Const('sk@%d' % next(_flc), z3.IntSort())
        body = z3.substitute_vars(lam.body(), k)
        return sum_poly(k, body, lo, hi)
    return patom(atom(('SUM', e.sexpr()), e, 'other'))


# ------------------------------------------------------------------ axioms of the elementary functions

_appc = {}


def apps(exprs):
    out, seen = [], set()
    for e in exprs:
        if not consts(e) & _AX:
            continue
        h = _appc.get(e.get_id())
        if h is None:
            if len(_appc) > 20000:
                _appc.clear()
            h = _appc[e.get_id()] = (e, _apps1([e]))
        for x in h[1]:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
    return out


def _apps1(exprs):
    seen, todo, out = set(), list(exprs), []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and x.decl().name() in _AX:
                out.append(x)
            elif x.num_args() == 0 and x.decl().name() == 'PI':
                out.append(x)
            todo.extend(x.children())
    return out


_AX = set(MF) | {'PI', 'atan2', 'pow'}


def axioms(exprs, depth=2):
    out, done = [], set()
    todo = list(exprs)
    for _ in range(depth):
        new = []
        for x in apps(todo):
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            n = x.decl().name()
            if n == 'PI':
                new += [x > realval(Fraction('3.14159265358979')), x < realval(Fraction('3.14159265358980'))]
                continue
            t = x.arg(0)
            if n == 'sqrt':
                new += [z3.Implies(t >= 0, z3.And(x >= 0, x * x == t)), z3.Implies(t > 0, x > 0)]
            elif n == 'cbrt':
                new += [x * x * x == t]
            elif n in ('sin', 'cos'):
                s, c = MF['sin'](t), MF['cos'](t)
                new += [s * s + c * c == 1, x >= -1, x <= 1,
                        z3.Implies(z3.And(t > 0, t < PI), s > 0)]
            elif n == 'tan':
                new += [x * MF['cos'](t) == MF['sin'](t)]
            elif n == 'acos':
                new += [z3.Implies(z3.And(t >= -1, t <= 1), z3.And(x >= 0, x <= PI, MF['cos'](x) == t)),
                        z3.Implies(z3.And(t > -1, t < 1), z3.And(x > 0, x < PI))]
            elif n == 'exp':
                new += [x > 0, z3.Implies(t > 0, x > 1), z3.Implies(t < 0, x < 1), z3.Implies(t == 0, x == 1)]
            elif n in ('sinh', 'cosh'):
                s, c = MF['sinh'](t), MF['cosh'](t)
                new += [c * c - s * s == 1, c >= 1, z3.Implies(t > 0, s > 0), z3.Implies(t < 0, s < 0)]
            elif n == 'tanh':
                new += [x * MF['cosh'](t) == MF['sinh'](t)]
        if not new:
            break
        out += new
        todo = new
    A = apps(list(exprs))
    ac = [x for x in A if x.decl().name() == 'acos']
    co = [x for x in A if x.decl().name() == 'cos']
    if len(ac) * len(co) <= 16:
        for x in ac:
            for y in co:
                v = y.arg(0)
                out.append(z3.Implies(z3.And(v >= 0, v <= PI, x.arg(0) == y), x == v))
    return out


# ------------------------------------------------------------------ abstraction of SUM terms for the solvers

def abstract_sums(exprs):
    """replace maximal SUM terms (closed ones) by constants keyed by their normal form"""
    cache = {}

    def rec(e):
        h = cache.get(e.get_id())
        if h is not None:
            return h[1]
        if z3.is_quantifier(e):
            r = e
        elif z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.eq(e.decl(), SUMF):
                p = P(e)
                r = _abs_poly(p)
            else:
                ch = [rec(c) for c in e.children()]
                if all(z3.eq(a, b) for a, b in zip(ch, e.children())):
                    r = e
                else:
                    r = z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not z3.eq(a, b)])
        else:
            r = e
        cache[e.get_id()] = (e, r)
        return r

    def _abs_poly(p):
        q = []
        for m, c in sorted(p.items()):
            t = realval(c)
            for i, n in m:
                A = _atoms[i]
                x = A['expr']
                if A['kind'] in ('sum', 'other') and x is not None and 'SUM' in consts(x):
                    x = z3.Const('S!%d' % i, z3.RealSort())
                    USED_SUM[0] = True
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                for _ in range(abs(n)):
                    t = t * x if n > 0 else t / x
            q.append(t)
        r = z3.RealVal(0)
        for t in q:
            r = r + t
        return r
    return [rec(e) if 'SUM' in consts(e) else e for e in exprs]


USED_SUM = [False]


# ------------------------------------------------------------------ proving

class Result:
    def __init__(self, status, backend='', model=None, note='', exact=True):
        self.status, self.backend, self.model, self.note, self.exact = status, backend, model, note, exact


def conjuncts(e):
    if z3.is_and(e):
        r = []
        for c in e.children():
            r += conjuncts(c)
        return r
    return [e]


def eq_subst(pc):
    """substitution from equalities const == term in the path condition"""
    sub = []
    used = set()
    for c in pc:
        for q in conjuncts(c):
            if z3.is_eq(q):
                a, b = q.children()
                for x, y in ((a, b), (b, a)):
                    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() != 'PI' \
                       and x.decl().name() not in used and not mentions(y, x.decl().name()) \
                       and x.sort() == y.sort() and x.sort() in (z3.IntSort(), z3.RealSort()):
                        # apply earlier substitutions to y; avoid cycles
                        y2 = z3.substitute(y, *sub) if sub else y
                        if mentions(y2, x.decl().name()):
                            continue
                        sub = [(u, z3.substitute(v, (x, y2))) for u, v in sub] + [(x, y2)]
                        used.add(x.decl().name())
                        break
    return sub


def nonneg_sum_of_squares(p):
    """syntactic: every monomial has even powers and positive coefficient"""
    return all(c > 0 and all(q % 2 == 0 or atom_nonneg(i) for i, q in m) for m, c in p.items())


NONNEG = set()        # input names known to be >= 0 (arrays: for every index, as out-of-range values are irrelevant)


def atom_nonneg(i):
    A = _atoms[i]
    if A['kind'] in ('sqrt', 'exp', 'cosh'):
        return True
    if A['kind'] == 'sum':
        return all(q % 2 == 0 or atom_nonneg(j) for j, q in A['mono'])
    e = A['expr']
    if e is not None and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        return n in NONNEG or n.startswith('bv@') or n == 'PI'
    return False


def sum_signs(es):
    """facts about the constants S!i that stand for sums"""
    out = []
    for n in set().union(*[consts(e) for e in es]) if es else ():
        if n.startswith('S!') and atom_nonneg(int(n[2:])):
            out.append(z3.Const(n, z3.RealSort()) >= 0)
    return out


def check_sides(pc, sides, acs, timeout):
    for i in sides:
        p = _atoms[i]['poly']
        if nonneg_sum_of_squares(p):
            continue
        if z3_check(pc, to_expr(p) >= 0, timeout).status != 'proved':
            return False
    for i in acs:
        t = to_expr(_atoms[i]['poly'])
        if z3_check(pc, z3.And(t >= -1, t <= 1), timeout).status != 'proved':
            return False
    return True


def poly_equal(pc, a, b, timeout=3000):
    """a == b by normal form: True / False(unknown)"""
    global SIDE, ACOS_SIDE
    t0 = time.time()
    try:
        sub = eq_subst(pc)
        if sub:
            a, b = z3.substitute(a, *sub), z3.substitute(b, *sub)
            _ = None
        SIDE.clear()
        ACOS_SIDE.clear()
        _memo_clear_math()
        d = padd(P(a), P(b), -1)
        d = clear_denoms(d)
        if d:
            return False
        sides, acs = SIDE | BUILD_SIDE, ACOS_SIDE | BUILD_ACOS
        if sides or acs:
            if not check_sides(pc, sides, acs, timeout):
                return False
        return True
    except TooBig:
        return False
    finally:
        TIME['poly'] += time.time() - t0


def _memo_clear_math():
    # side conditions are recorded while normalising, so cached polys must not hide them
    _memo.clear()


def clear_denoms(d):
    for _ in range(60):
        if not d:
            return d
        neg = {}
        for m in d:
            for i, q in m:
                if q < 0:
                    neg[i] = min(neg.get(i, 0), q)
        # expand poly atoms in denominators first
        pa = [i for i in neg if _atoms[i]['kind'] == 'poly']
        if not pa:
            pa = list(neg)
        if not pa:
            return d
        i = pa[0]
        q = -neg[i]
        A = _atoms[i]
        out = {}
        for m, c in d.items():
            dd = dict(m)
            e = dd.pop(i, 0) + q
            mm = tuple(sorted(dd.items()))
            if A['kind'] == 'poly':
                out = padd(out, pmul({mm: c}, ppow(A['poly'], e)) if e else normal({mm: c}))
            else:
                if e:
                    dd[i] = e
                out = padd(out, normal({tuple(sorted(dd.items())): c}))
        d = out
    raise TooBig()


def integral(goal):
    """IsInt(e) shown by the shape of e: on every branch an integer combination of integers"""
    if z3.is_true(goal):
        return True
    if z3.is_and(goal):
        return all(integral(x) for x in goal.children())
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IS_INT:
        e0 = goal.arg(0)
    elif z3.is_eq(goal):                    # is_int as rewritten by the simplifier
        def ti(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_TO_INT:
                return x.arg(0).arg(0)
        a, b = goal.children()
        e0 = ti(a) if ti(a) is not None and z3.eq(ti(a), b) else ti(b) if ti(b) is not None and z3.eq(ti(b), a) else None
        if e0 is None:
            return False
    else:
        return False
    todo, n = [e0], 0
    while todo:
        e = todo.pop()
        n += 1
        if n > 64:
            return False
        cnd = first_ite(e)
        if cnd is not None:
            for v in (z3.BoolVal(True), z3.BoolVal(False)):
                todo.append(z3.simplify(z3.substitute(e, (cnd, v))))
            continue
        try:
            q = z3.simplify(to_expr(P(e)), som=True)
        except Exception:
            return False
        for t in (q.children() if z3.is_add(q) else [q]):
            for x in (t.children() if z3.is_mul(t) else [t]):
                v = core.numval(x)
                if v is not None:
                    if v.denominator != 1:
                        return False
                elif not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL):
                    return False
    return True


def relevant(pc, goals):
    """hypotheses connected to the goals through shared symbols"""
    ign = _AX | {'SUM'}
    sy = [(h, consts(h) - ign) for h in pc]
    have = set()
    for g in goals:
        have |= consts(g) - ign
    out = []
    while True:
        new = [(h, s) for h, s in sy if s & have]
        if not new:
            return out
        sy = [(h, s) for h, s in sy if not s & have]
        for h, s in new:
            out.append(h)
            have |= s


def z3_retry(pc, goal, timeout):
    """other seeds / the nlsat tactic, after an unknown"""
    for seed in (11, 23):
        r = z3_check(pc, goal, timeout / 2, seed=seed)
        if r.status != 'unknown':
            return r
    return z3_check(pc, goal, timeout / 2, tactic=True)


def z3_check(pc, goal, timeout=5000, extra=(), seed=None, tactic=False):
    t0 = time.time()
    USED_SUM[0] = False
    es = abstract_sums(list(pc) + [goal])
    s = z3.Solver() if not tactic else z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver()
    s.set('timeout', int(timeout))
    if seed is not None:
        s.set('random_seed', seed)
        s.set('smt.random_seed', seed)
    for e in es[:-1]:
        s.add(e)
    for e in extra:
        s.add(e)
    s.add(z3.Not(es[-1]))
    if USED_SUM[0]:
        for e in sum_signs(es):
            s.add(e)
    ax = axioms(es)
    for a in ax:
        s.add(a)
    for a in core.obj_facts():
        s.add(a)
    r = s.check()
    TIME['z3'] += time.time() - t0
    if r == z3.unsat:
        return Result('proved', 'z3')
    if r == z3.sat:
        return Result('refuted', 'z3', model=s.model(), exact=not ax and not USED_SUM[0])
    return Result('unknown', 'z3', note=s.reason_unknown())


def cvc5_check(pc, goal, timeout=5000):
    """second opinion through SMT-LIB text"""
    t0 = time.time()
    try:
        import cvc5
        es = abstract_sums(list(pc) + [goal])
        s = z3.Solver()
        for e in es[:-1]:
            s.add(e)
        s.add(z3.Not(es[-1]))
        for a in axioms(es) + sum_signs(es):
            s.add(a)
        for a in core.obj_facts():
            s.add(a)
        txt = s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        slv.setOption('nl-cov', 'true')
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace('(check-sat)', ''), 'q')
        sm = ip.getSymbolManager()
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        if r.isUnsat():
            return Result('proved', 'cvc5')
        return Result('unknown', 'cvc5', note=str(r))
    except Exception as ex:
        return Result('unknown', 'cvc5', note='%s: %s' % (type(ex).__name__, str(ex)[:200]))
    finally:
        TIME['cvc5'] += time.time() - t0


def first_ite(e):
    """an if-then-else whose condition contains no if-then-else, anywhere in e"""
    seen, todo = set(), [e]
    cand = None
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                if not _has_ite(c):
                    return c
            todo.extend(x.children())
    return None


def _has_ite(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                return True
            todo.extend(x.children())
    return False


def feasible(pc, timeout=1500):
    s = z3.Solver()
    s.set('timeout', timeout)
    es = abstract_sums(list(pc))
    for e in es:
        s.add(e)
    for a in axioms(es):
        s.add(a)
    for a in core.obj_facts():
        s.add(a)
    return s.check() != z3.unsat


def syn_nonneg(e):
    """e >= 0 by its form: squares, sums and products of such"""
    v = numval(e)
    if v is not None:
        return v >= 0
    if z3.is_add(e):
        return all(syn_nonneg(c) for c in e.children())
    if z3.is_mul(e):
        ch = list(e.children())
        while ch:
            x = ch.pop()
            for j, y in enumerate(ch):
                if z3.eq(x, y):
                    ch.pop(j)
                    break
            else:
                if not syn_nonneg(x):
                    return False
        return True
    if z3.is_app(e) and e.decl().name() in ('exp', 'cosh', 'sqrt', 'PI'):
        return True
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in NONNEG:
        return True
    if z3.is_div(e):
        return syn_nonneg(e.arg(0)) and syn_nonneg(e.arg(1))
    if z3.is_app(e) and e.decl().name() == 'SUM':
        return nonneg_sum_of_squares(P(e))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return syn_nonneg(e.arg(1)) and syn_nonneg(e.arg(2))
    if z3.is_to_real(e):
        return syn_nonneg(e.arg(0))
    return False


_skc = itertools.count()


def prove(pc, goal, timeout=8000, depth=8, cvc5=True, t_end=None):
    """-> Result"""
    old = list(_PC)
    _PC[:] = [list(pc), None]
    _memo.clear()
    try:
        return _prove(pc, goal, timeout, depth, cvc5, t_end)
    finally:
        _PC[:] = old
        _memo.clear()


def _prove(pc, goal, timeout=8000, depth=8, cvc5=True, t_end=None):
    if not (z3.is_eq(goal) or z3.is_ge(goal) or z3.is_le(goal) or z3.is_and(goal)):
        goal = z3.simplify(goal)
    if z3.is_true(goal):
        return Result('proved', 'simplify')
    if z3.is_and(goal):
        back = 'simplify'
        for c in goal.children():
            r = prove(pc, c, timeout, depth, cvc5, t_end)
            if r.status != 'proved':
                return r
            if r.backend != 'simplify':
                back = r.backend
        return Result('proved', back)
    if z3.is_implies(goal):
        return prove(list(pc) + [goal.arg(0)], goal.arg(1), timeout, depth, cvc5, t_end)
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const('sk!%d' % next(_skc), goal.var_sort(i)) for i in range(goal.num_vars())]
        return prove(pc, z3.substitute_vars(goal.body(), *reversed(vs)), timeout, depth, cvc5, t_end)
    if z3.is_or(goal) and len(goal.children()) == 2:
        # a -> b in disguise
        a, b = goal.children()
        if z3.is_not(a) or not (z3.is_eq(a)):
            return prove(list(pc) + [z3.simplify(z3.Not(a))], b, timeout, depth, cvc5, t_end)
        return prove(list(pc) + [z3.simplify(z3.Not(b))], a, timeout, depth, cvc5, t_end)
    if t_end and time.time() > t_end:
        return Result('unknown', note='time budget')
    if integral(goal):
        return Result('proved', 'poly')
    if z3.is_ge(goal) and numval(goal.arg(1)) is not None and numval(goal.arg(1)) <= 0 and syn_nonneg(goal.arg(0)):
        return Result('proved', 'poly')
    if z3.is_le(goal) and numval(goal.arg(0)) is not None and numval(goal.arg(0)) <= 0 and syn_nonneg(goal.arg(1)):
        return Result('proved', 'poly')
    iseq = z3.is_eq(goal) and goal.arg(0).sort() in (z3.RealSort(), z3.IntSort())
    if iseq:
        if poly_equal(pc, goal.arg(0), goal.arg(1)):
            return Result('proved', 'poly')
    if iseq:
        g2 = merge_witnesses(pc, goal)
        if g2 is not None:
            return prove(pc, g2, timeout, depth, cvc5, t_end)
        if 'SUM' in consts(goal):
            g2 = resolve_ites(pc, goal, deep=True)
            if not z3.eq(g2, goal):
                return prove(pc, g2, timeout, depth, cvc5, t_end)
    r = z3_check(pc, goal, min(timeout, 2500) if iseq else timeout)
    if r.status == 'proved' or (r.status == 'refuted' and r.exact):
        return r
    # case split
    if depth > 0:
        c = first_ite(goal)
        if c is not None:
            worst = None
            for s in (c, z3.Not(c)):
                pc2 = list(pc) + [s]
                if not feasible(pc2):
                    continue
                g2 = z3.substitute(goal, (c, z3.BoolVal(z3.eq(s, c))))
                g2 = _fold_ite(g2)
                r2 = prove(pc2, g2, timeout, depth - 1, cvc5, t_end)
                if r2.status == 'refuted':
                    return r2
                if r2.status != 'proved':
                    worst = r2
                else:
                    last = r2
            return worst or Result('proved', 'z3')
    if r.status == 'refuted':
        return r
    if iseq:
        r = z3_check(pc, goal, timeout)
        if r.status != 'unknown':
            return r
    if r.status == 'unknown':
        r2 = z3_retry(pc, goal, timeout)
        if r2.status != 'unknown':
            return r2
    if cvc5:
        r5 = cvc5_check(pc, goal, timeout)
        if r5.status == 'proved':
            return r5
    return r


def merge_witnesses(pc, goal):
    """integer witnesses of two loops that the hypotheses force to be equal are identified"""
    if sum(n.startswith('wint!') for n in consts(goal)) < 2:
        return None
    goal = resolve_ites(pc, goal)
    sums = []
    todo, seen = [goal], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_add(x):
                w = [q.arg(0) for q in _addends(x) if z3.is_to_real(q) and z3.is_app(q.arg(0)) and q.arg(0).decl().name().startswith('wint!')]
                if w and not any(len(w) == len(v) and all(z3.eq(a, b) for a, b in zip(w, v)) for v in sums):
                    sums.append(w)
            todo.extend(x.children())
    sums = [w for w in sums if not any(v is not w and len(v) > len(w) and {a.get_id() for a in w} <= {a.get_id() for a in v} for v in sums)]
    sub = []
    gone = set()
    for a, b in itertools.combinations(sums, 2):
        na, nb = {x.decl().name() for x in a}, {x.decl().name() for x in b}
        if na & nb or na & gone or nb & gone:
            continue
        nm = na | nb
        hyp = [h for h in pc if consts(h) & nm and not any(x.startswith('wint!') and x not in nm for x in consts(h))]
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*hyp)
        s.add(*[h for h in pc if pureint(h)])
        s.add(z3.Sum(a) != z3.Sum(b))
        if s.check() == z3.unsat:
            r = z3.Sum(a) if len(a) > 1 else a[0]
            for x in b[1:]:
                r = r - x
            sub.append((b[0], r))
            gone |= nb
    if not sub:
        return None
    return z3.substitute(goal, *sub)


def _addends(x):
    if z3.is_add(x):
        return [q for c in x.children() for q in _addends(c)]
    return [x]


_pi = {}


def pureint(h):
    r = _pi.get(h.get_id())
    if r is None:
        if len(_pi) > 50000:
            _pi.clear()
        r = _pi[h.get_id()] = (h, not z3.is_quantifier(h) and not consts(h) & _AX and all(x.sort() == z3.IntSort() for x in _leaves(h)))
    return r[1]


def _leaves(h):
    out, todo, seen = [], [h], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return [z3.RealVal(0)]
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            elif x.sort() == z3.RealSort():
                out.append(x)
            todo.extend(x.children())
    return out


def resolve_ites(pc, e, deep=False):
    """if-then-else whose condition the hypotheses decide (integer conditions only); deep: also below binders, for
    conditions free of the bound variable"""
    bound = set()
    s = None
    cache = {}

    def cond(c):
        nonlocal s
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if not pureint(c) or consts(c) & bound:
            return None
        if s is None:
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(*[h for h in pc if pureint(h)])
        for v, q in ((True, z3.Not(c)), (False, c)):
            s.push()
            s.add(q)
            r = s.check()
            s.pop()
            if r == z3.unsat:
                return v
        return None

    def rec(x):
        h = cache.get(x.get_id())
        if h is not None:
            return h[1]
        r = x
        if deep and z3.is_quantifier(x) and x.is_lambda() and x.num_vars() == 1:
            b = z3.Const('rl@%d' % next(_flc), x.var_sort(0))
            bound.add(b.decl().name())
            o = z3.substitute_vars(x.body(), b)
            q = rec(o)
            if not z3.eq(o, q):
                r = z3.Lambda([b], q)
        elif z3.is_app(x) and x.num_args() and not z3.is_quantifier(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = cond(x.arg(0))
                if c is not None:
                    r = rec(x.arg(1 if c else 2))
                    cache[x.get_id()] = (x, r)
                    return r
                if x.sort() == z3.IntSort() and pureint(x.arg(1)) and pureint(x.arg(2)):
                    # both branches agree where the condition fails (holds): e.g. min(i, n - 1) with i < n
                    same = x.arg(1) == x.arg(2)
                    for q, k in ((z3.Or(x.arg(0), same), 1), (z3.Or(z3.Not(x.arg(0)), same), 2)):
                        if cond(q):
                            r = rec(x.arg(k))
                            cache[x.get_id()] = (x, r)
                            return r
            ch = [rec(q) for q in x.children()]
            if not all(z3.eq(a, b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch) if not (z3.is_add(x) or z3.is_mul(x) or z3.is_and(x) or z3.is_or(x)) else \
                    (z3.Sum(ch) if z3.is_add(x) else z3.Product(ch) if z3.is_mul(x) else z3.And(ch) if z3.is_and(x) else z3.Or(ch))
        cache[x.get_id()] = (x, r)
        return r
    return rec(e)


def _fold_ite(e):
    """simplify ites with constant conditions without disturbing the arithmetic"""
    cache = {}

    def rec(x):
        h = cache.get(x.get_id())
        if h is not None:
            return h[1]
        r = x
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = z3.simplify(rec(x.arg(0)))
                if z3.is_true(c):
                    r = rec(x.arg(1))
                elif z3.is_false(c):
                    r = rec(x.arg(2))
                else:
                    r = z3.If(c, rec(x.arg(1)), rec(x.arg(2)))
            else:
                ch = [rec(c) for c in x.children()]
                if any(not z3.eq(a, b) for a, b in zip(ch, x.children())):
                    r = z3.substitute(x, *[(a, b) for a, b in zip(x.children(), ch) if not z3.eq(a, b)])
        cache[x.get_id()] = (x, r)
        return r
    return rec(e)


def weaken(e, tol=None):
    """goal up to relative rounding 1e-9 in its positive real comparisons"""
    if tol is None:
        tol = z3.Q(1, 10 ** 9)
    if z3.is_and(e) or z3.is_or(e):
        ch = [weaken(x, tol) for x in e.children()]
        return z3.And(*ch) if z3.is_and(e) else z3.Or(*ch)
    if z3.is_implies(e):
        return z3.Implies(e.arg(0), weaken(e.arg(1), tol))
    ab = lambda x: z3.If(x >= 0, x, -x)
    if z3.is_app(e) and e.num_args() == 2 and e.arg(0).sort() == z3.RealSort():
        a, b = e.arg(0), e.arg(1)
        s = tol * (ab(a) + ab(b))
        if z3.is_eq(e):
            return z3.And(a - b <= s, b - a <= s)
        if z3.is_le(e) or z3.is_lt(e):
            return a <= b + s if z3.is_le(e) else a < b + s
        if z3.is_ge(e) or z3.is_gt(e):
            return a >= b - s if z3.is_ge(e) else a > b - s
    return e
