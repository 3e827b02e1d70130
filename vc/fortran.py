"""Fortran front end: the kernels of flib.f90, translated on every run to Python that the same engine executes.

What the translation drops: preprocessor branches under __OPENMP and the !$omp directives (the code is verified as
the sequential program; `race` turns the independence of the parallel iterations into an obligation), write statements,
floating-point kinds.  Index expressions become 0-based with an in-bounds check at each access.  The f2py wrapper
(argument order, optional extents, in/out arguments) is reconstructed from the declarations and !f2py lines.
"""
import re
import os
import z3
from . import core, arr, npf
from .core import Unsupported, Sym, intexpr, mkb
from .arr import SymArr, conc

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[de][+-]?\d+)?|\.\d+(?:[de][+-]?\d+)?|\d+[de][+-]?\d+|\d+)|(\.and\.|\.or\.|\.not\.|\.true\.|\.false\.)|"
                 r"([a-z_]\w*)|(\*\*|/=|==|<=|>=|//|=>|[-+*/(),:<>=%])|('[^']*'|\"[^\"]*\"))")


def tokens(s):
    out, p = [], 0
    s = s.strip()
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            raise Unsupported('fortran: cannot read %r' % s[p:p + 30])
        p = m.end()
        k = [i for i in range(1, 6) if m.group(i) is not None][0]
        out.append(('nlivs'[k - 1], m.group(k)))
    return out


class Expr:
    """recursive descent over one expression; result is Python text"""

    def __init__(self, toks, sub):
        self.t, self.p, self.sub = toks, 0, sub

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else (None, None)

    def take(self, v=None):
        t = self.peek()
        if v is not None and t[1] != v:
            raise Unsupported('fortran: expected %s, found %s' % (v, t[1]))
        self.p += 1
        return t

    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.peek()[1] == '.or.':
            self.take()
            a = '_or(%s, %s)' % (a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.peek()[1] == '.and.':
            self.take()
            a = '_and(%s, %s)' % (a, self.not_())
        return a

    def not_(self):
        if self.peek()[1] == '.not.':
            self.take()
            return '_not(%s)' % self.not_()
        return self.cmp()

    def cmp(self):
        a = self.add()
        if self.peek()[1] in ('==', '/=', '<', '<=', '>', '>='):
            op = self.take()[1]
            a = '(%s %s %s)' % (a, '!=' if op == '/=' else op, self.add())
        return a

    def add(self):
        if self.peek()[1] in ('-', '+'):
            op = self.take()[1]
            a = '(%s%s)' % (op, self.mul())
        else:
            a = self.mul()
        while self.peek()[1] in ('+', '-'):
            op = self.take()[1]
            a = '(%s %s %s)' % (a, op, self.mul())
        return a

    def mul(self):
        a = self.pow()
        while self.peek()[1] in ('*', '/'):
            op = self.take()[1]
            b = self.pow()
            a = '(%s * %s)' % (a, b) if op == '*' else '_div(%s, %s)' % (a, b)
        return a

    def pow(self):
        a = self.atom()
        if self.peek()[1] == '**':
            self.take()
            if self.peek()[1] == '-':
                self.take()
                return '_pow(%s, -%s)' % (a, self.pow())
            return '_pow(%s, %s)' % (a, self.pow())
        return a

    def atom(self):
        k, v = self.take()
        if k == 'n':
            if re.fullmatch(r'\d+', v):
                return v
            return 'float("%s")' % v.replace('d', 'e')
        if k == 'l':
            return {'.true.': 'True', '.false.': 'False'}[v]
        if v == '(':
            a = self.expr()
            self.take(')')
            return '(%s)' % a
        if k == 's':
            return repr(v[1:-1])
        if k == 'i':
            if self.peek()[1] == '(':
                self.take()
                if v in self.sub.arrays:
                    return self.ref(v)
                args = []
                while self.peek()[1] != ')':
                    if self.peek()[0] == 'i' and self.peek(1)[1] == '=':
                        kw = self.take()[1]
                        self.take()
                        args.append('%s=%s' % (kw, self.expr()))
                    else:
                        args.append(self.expr())
                    if self.peek()[1] == ',':
                        self.take()
                self.take(')')
                if v not in INTRINSICS:
                    raise Unsupported('fortran: function %s' % v)
                return '_f_%s(%s)' % (v, ', '.join(args))
            if v in self.sub.names:
                return v
            raise Unsupported('fortran: name %s' % v)
        raise Unsupported('fortran: expression at %s' % v)

    def ref(self, name):
        dims = self.sub.arrays[name]
        idx, k = [], 0
        while self.peek()[1] != ')':
            lb, ub = dims[k]
            n = '(%s) - (%s) + 1' % (ub, lb)
            lo = hi = None
            if self.peek()[1] != ':':
                lo = self.expr()
            if self.peek()[1] == ':':
                self.take()
                if self.peek()[1] not in (',', ')'):
                    hi = self.expr()
                if lo is None and hi is None:
                    idx.append('slice(None)')
                else:
                    a = '0' if lo is None else '(%s) - (%s)' % (lo, lb)
                    b = n if hi is None else '(%s) - (%s) + 1' % (hi, lb)
                    idx.append('_sec(%s, %s, %s)' % (a, b, n))
            else:
                idx.append('_ix((%s) - (%s), %s)' % (lo, lb, n))
            k += 1
            if self.peek()[1] == ',':
                self.take()
        self.take(')')
        if k != len(dims):
            raise Unsupported('fortran: rank of %s' % name)
        return '%s[%s]' % (name, ', '.join(idx))


class Sub:
    def __init__(self, name, args):
        self.name, self.args = name, args
        self.arrays, self.types, self.intent, self.names = {}, {}, {}, set(args)
        self.optional = set()
        self.params = []
        self.locals = []
        self.body = []
        self.f2py = {}


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return [x.strip() for x in out]


def lines(src):
    out, skip, buf = [], [], ''
    for ln in src.split('\n'):
        st = ln.strip()
        if st.startswith('#'):
            w = st[1:].split()
            if w[:1] in (['ifdef'], ['if']):
                skip.append(True)
            elif w[:1] == ['ifndef']:
                skip.append(False)
            elif w[:1] == ['else']:
                skip[-1] = not skip[-1]
            elif w[:1] == ['endif']:
                skip.pop()
            continue
        if any(skip):
            continue
        if st.lower().startswith(('!f2py', '!$omp')):
            out.append(st.lower())
            continue
        # comment outside of a string
        q, cut = None, None
        for i, ch in enumerate(ln):
            if q:
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
            elif ch == '!':
                cut = i
                break
        if cut is not None:
            ln = ln[:cut]
        ln = ln.strip()
        if not ln:
            continue
        if buf:
            ln = buf + ' ' + ln.lstrip('&')
            buf = ''
        if ln.endswith('&'):
            buf = ln[:-1]
            continue
        for part in split_top(ln, ';'):
            if part:
                out.append(part if "'" in part or '"' in part else part.lower())
    return out


def parse(src):
    subs, cur, stack = {}, None, []
    for ln in lines(src):
        low = ln.lower()
        if cur is None:
            m = re.match(r'subroutine\s+(\w+)\s*\((.*)\)$', low)
            if m:
                cur = Sub(m.group(1), [a.strip() for a in m.group(2).split(',') if a.strip()])
            continue
        if re.match(r'end\s*subroutine', low) or low == 'end':
            subs[cur.name] = cur
            cur = None
            continue
        if low.startswith('!f2py'):
            m = re.match(r'!f2py\s+intent\s*\(([^)]*)\)\s*(?:::)?\s*(.*)$', low)
            if m:
                for a in m.group(2).split(','):
                    cur.f2py[a.strip()] = {x.strip() for x in m.group(1).split(',')}
            continue
        if re.match(r'(implicit|use)\b', low):
            continue
        if low.startswith('!$omp'):
            cur.body.append(low)
            continue
        m = re.match(r'(integer|double\s+precision|real|logical|character)\b(.*)$', low)
        if m and ('::' in low or not re.match(r'\w+\s*=', low)):
            declare(cur, m.group(1), low)
            continue
        cur.body.append(ln)
    return subs


def declare(s, typ, low):
    head, _, rest = low.partition('::')
    if not rest:
        raise Unsupported('fortran: declaration %s' % low)
    attrs = split_top(head)
    if typ == 'character':
        return
    intent, par, opt = None, False, False
    for a in attrs[1:]:
        m = re.match(r'intent\s*\(\s*(\w+)\s*\)', a)
        if m:
            intent = m.group(1)
        elif a == 'parameter':
            par = True
        elif a == 'optional':
            opt = True
        elif a.startswith('dimension') or a in ('allocatable', 'save', 'target', 'pointer'):
            raise Unsupported('fortran: attribute %s' % a)
    for d in split_top(rest):
        d, eq, val = d.partition('=')
        m = re.match(r'(\w+)\s*(?:\((.*)\))?$', d.strip())
        nm = m.group(1)
        s.names.add(nm)
        s.types[nm] = 'i' if typ == 'integer' else 'f' if typ != 'logical' else 'b'
        if intent:
            s.intent[nm] = intent
        if opt:
            s.optional.add(nm)
        if m.group(2) is not None:
            dims = []
            for x in split_top(m.group(2)):
                lb, c, ub = x.partition(':')
                dims.append((lb, ub) if c else ('1', x))
            s.arrays[nm] = dims
        if par:
            s.params.append((nm, val))
        elif eq:
            raise Unsupported('fortran: initialised variable %s' % nm)
        elif nm not in s.args:
            s.locals.append(nm)


INTRINSICS = {'sum', 'dot_product', 'matmul', 'transpose', 'sqrt', 'dsqrt', 'acos', 'dacos', 'cos', 'sin', 'abs', 'dabs', 'max', 'min',
              'exp', 'dble', 'mod', 'size', 'nint', 'floor', 'anint', 'dot', 'norm2', 'merge', 'int', 'real', 'sign', 'atan2'}


def ex(s, sub):
    e = Expr(tokens(s), sub)
    r = e.expr()
    if e.p != len(e.t):
        raise Unsupported('fortran: trailing %s' % (e.t[e.p:],))
    return r


def emit(s, subs):
    dimexpr = lambda x: ex(x, s)
    s.arrays = {k: [(dimexpr(a), dimexpr(b)) for a, b in v] for k, v in s.arrays.items()}
    o = ['def f_%s(%s):' % (s.name, ', '.join(s.args))]
    ind = 1

    def w(t):
        o.append('    ' * ind + t)
    for nm, val in s.params:
        w('%s = %s' % (nm, ex(val, s)))
    for nm in s.locals:
        if nm in s.arrays:
            w('%s = _alloc((%s,), %r)' % (nm, ', '.join('(%s) - (%s) + 1' % (b, a) for a, b in s.arrays[nm]), s.types[nm]))
    private = set()
    for at, ln in enumerate(s.body):
        low = ln.lower()
        if low.startswith('!$omp'):
            words = re.findall(r'\w+', low.split('(')[0])
            if 'end' in words:
                continue
            for m in re.finditer(r'(\w+)\s*\(([^)]*)\)', low):
                if m.group(1) in ('private', 'firstprivate', 'lastprivate'):
                    private |= {x.strip() for x in m.group(2).split(',')}
                elif m.group(1) not in ('shared', 'schedule', 'num_threads'):
                    raise Unsupported('fortran: OpenMP clause %s' % m.group(1))
            if set(words) - {'omp', 'parallel', 'do', 'private', 'shared', 'firstprivate', 'lastprivate', 'schedule'}:
                raise Unsupported('fortran: OpenMP directive %s' % low)
            if 'parallel' in words and 'do' not in words and not s.body[at + 1].startswith('!$omp do'):
                raise Unsupported('fortran: OpenMP region without a loop')
            if 'do' in words:
                w('_race(%r)' % race(s, subs, at + 1, private))
            continue
        m = re.match(r'do\s+while\s*\((.*)\)$', low)
        if m:
            w('while _b(%s):' % ex(m.group(1), s))
            ind += 1
            continue
        m = re.match(r'do\s+(\w+)\s*=\s*(.*)$', low)
        if m:
            b = split_top(m.group(2))
            if len(b) == 3:
                w('for %s in _range3(%s):' % (m.group(1), ', '.join(ex(x, s) for x in b)))
            else:
                w('for %s in range(%s, (%s) + 1):' % (m.group(1), ex(b[0], s), ex(b[1], s)))
            ind += 1
            continue
        if re.match(r'(end\s*do|end\s*if)$', low):
            w('pass')
            ind -= 1
            continue
        m = re.match(r'if\s*\((.*)\)\s*then$', low)
        if m:
            w('if _b(%s):' % ex(m.group(1), s))
            ind += 1
            continue
        m = re.match(r'else\s*if\s*\((.*)\)\s*then$', low)
        if m:
            w('pass')
            ind -= 1
            w('elif _b(%s):' % ex(m.group(1), s))
            ind += 1
            continue
        if low == 'else':
            w('pass')
            ind -= 1
            w('else:')
            ind += 1
            continue
        if low.startswith('if') and re.match(r'if\s*\(', low):
            c, rest = balanced(low[low.index('('):])
            w('if _b(%s):' % ex(c, s))
            ind += 1
            stmt(rest, s, subs, w)
            ind -= 1
            continue
        stmt(low, s, subs, w)
    if ind != 1:
        raise Unsupported('fortran: block structure of %s' % s.name)
    w('return')
    return '\n'.join(o) + '\n\n' + wrapper(s)


def race(s, subs, at, private):
    """variables written in the parallel loop starting at body line `at` that several iterations may share"""
    m = re.match(r'do\s+(\w+)\s*=', s.body[at])
    var, depth, own, written, reads = m.group(1), 0, {m.group(1)}, [], []
    for ln in s.body[at:]:
        if ln.startswith('!$omp'):
            continue
        if re.match(r'(end\s*do)$', ln):
            depth -= 1
            if depth == 0:
                break
            continue
        d = re.match(r'do\s+(\w+)\s*=\s*(.*)$', ln)
        if d:
            own.add(d.group(1))
            reads.append(d.group(2))
            depth += 1
            continue
        if re.match(r'do\b', ln):
            depth += 1
            reads.append(ln)
            continue
        if re.match(r'(else|end\s*if)', ln):
            reads.append(ln)
            continue
        if re.match(r'(else\s*)?if\s*\(', ln):
            c, rest = balanced(ln[ln.index('('):])
            reads.append(c)
            ln = rest
            if ln in ('then', 'return', 'exit', 'cycle', ''):
                continue
        if re.match(r'write\s*\(|print\b', ln):
            continue
        c = re.match(r'call\s+(\w+)\s*\((.*)\)$', ln)
        if c:
            sub = subs.get(c.group(1))
            for k, x in enumerate(split_top(c.group(2))):
                if sub is None or sub.intent.get(sub.args[k]) != 'in':
                    if re.match(r'\w+', x) and not re.match(r'\d', x) and not (sub and k < len(sub.args) and not assigns(sub, sub.args[k])):
                        written.append(x)
                reads.append(x)
            continue
        if re.match(r'where\s*\(', ln):
            c, ln = balanced(ln[ln.index('('):])
            reads.append(c)
        lhs, rhs = assign_split(ln)
        written.append(lhs)
        reads += [rhs, lhs]
    bad = set()
    slot = {}
    for x in written:
        m = re.match(r'(\w+)\s*(?:\((.*)\))?$', x)
        nm = m.group(1)
        if nm in private or nm in own:
            continue
        subsc = split_top(m.group(2)) if m.group(2) else []
        if nm not in s.arrays or var not in subsc:
            bad.add(nm)
            continue
        k = subsc.index(var)
        if slot.setdefault(nm, k) != k:
            bad.add(nm)
    for nm, k in slot.items():
        for r in reads:
            for m in re.finditer(r'\b%s\b' % nm, r):
                t = r[m.end():].lstrip()
                if not t.startswith('(') or split_top(balanced(t)[0])[k] != var:
                    bad.add(nm)
    return sorted(bad)


def assigns(sub, name):
    for ln in sub.body:
        if re.match(r'call\b', ln) and re.search(r'\b%s\b' % name, ln):
            return True
        if re.search(r'(^|[)\s])%s\s*(\(.*\))?\s*=[^=]' % name, ln) and not re.match(r'(if|do)\b[^=]*$', ln):
            return True
    return False


def balanced(t):
    d = 0
    for i, ch in enumerate(t):
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                return t[1:i], t[i + 1:].strip()
    raise Unsupported('fortran: parentheses')


def stmt(low, s, subs, w):
    if low == 'return':
        w('return')
        return
    if low in ('continue',):
        w('pass')
        return
    if re.match(r'write\s*\(|print\b', low):
        w('pass')
        return
    if low == 'exit':
        w('break')
        return
    if low == 'cycle':
        w('continue')
        return
    m = re.match(r'where\s*\(', low)
    if m:
        c, rest = balanced(low[low.index('('):])
        lhs, rhs = assign_split(rest)
        a = ex(lhs, s)
        w('%s[...] = _where(%s, %s, %s)' % (a, ex(c, s), ex(rhs, s), a))
        return
    m = re.match(r'call\s+(\w+)\s*\((.*)\)$', low)
    if m:
        nm = m.group(1)
        args = [ex(x, s) for x in split_top(m.group(2))]
        if nm == 'dgesv':
            raw = [x.strip() for x in split_top(m.group(2))]
            var = [bool(re.match(r'\w+\s*(\([^()]*\))?$', raw[k])) and re.match(r'\w+', raw[k]).group(0) in s.arrays for k in (2, 5)]
            w('_dgesv(%s, %r)' % (', '.join(a if k != 7 else 'None' for k, a in enumerate(args)), var))
        elif nm in subs:
            w('f_%s(%s)' % (nm, ', '.join(args)))
        else:
            raise Unsupported('fortran: call %s' % nm)
        return
    lhs, rhs = assign_split(low)
    r = ex(rhs, s)
    m = re.match(r'(\w+)$', lhs)
    if m:
        if lhs in s.arrays:
            w('%s[...] = %s' % (lhs, r))
        elif s.types.get(lhs) == 'f':
            w('%s = _dble(%s)' % (lhs, r))
        else:
            w('%s = %s' % (lhs, r))
    else:
        w('%s = %s' % (ex(lhs, s), r))


def assign_split(t):
    d = 0
    for i, ch in enumerate(t):
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        elif ch == '=' and d == 0 and t[i + 1:i + 2] != '=' and t[i - 1] not in '=/<>':
            return t[:i].strip(), t[i + 1:].strip()
    raise Unsupported('fortran: statement %s' % t[:60])


def wrapper(s):
    """the Python-callable function f2py generates"""
    out = []
    inp = []
    for a in s.args:
        f = s.f2py.get(a, set())
        it = s.intent.get(a)
        isout = 'out' in f or it in ('out', 'inout') and not f or it == 'out'
        isin = 'in' in f or 'inout' in f or it != 'out'
        if isout:
            out.append(a)
        if isin:
            inp.append(a)
    dimof = {}
    for a in s.args:
        if a in s.arrays and a in inp:
            for k, (lb, ub) in enumerate(s.arrays[a]):
                m = re.fullmatch(r'\(?(\w+)(?: - 1\))?', ub)
                nm = m.group(1) if m else None
                if nm in s.args and nm not in s.arrays and nm not in dimof and ((lb == '1' and ub == nm) or (lb == '0' and ub == '(%s - 1)' % nm)):
                    dimof[nm] = (a, k)
    req = [a for a in inp if a not in dimof and a not in s.optional]
    opt = [a for a in inp if a in dimof or a in s.optional]
    o = ['def %s(%s):' % (s.name, ', '.join(req + ['%s=None' % a for a in opt] + ['**_over']))]
    w = lambda t: o.append('    ' + t)
    for a in inp:
        if a in s.arrays:
            w('%s = _arg(%s, %d, %r, %r)' % (a, a, len(s.arrays[a]), s.types[a], a in out))
        elif a not in dimof and a not in s.optional:
            w('%s = _scalar(%s, %r)' % (a, a, s.types.get(a)))
    for nm in s.optional:
        w('%s = 0 if %s is None else %s' % (nm, nm, nm))
    for nm, (a, k) in dimof.items():
        w('%s = %s.shape[%d] if %s is None else %s' % (nm, a, k, nm, nm))
    for a in inp:
        if a in s.arrays:
            for k, (lb, ub) in enumerate(s.arrays[a]):
                w('_dim(%r, %s.shape[%d], (%s) - (%s) + 1)' % (a, a, k, ub, lb))
    for a in out:
        if a not in inp:
            w('%s = _alloc((%s,), %r)' % (a, ', '.join('(%s) - (%s) + 1' % (ub, lb) for lb, ub in s.arrays[a]), s.types[a]))
    w('f_%s(%s)' % (s.name, ', '.join(s.args)))
    w('return %s' % (', '.join(out) if out else 'None'))
    return '\n'.join(o) + '\n'


def translate(src):
    subs = parse(src)
    txt = {}
    bad = {}
    for n, s in subs.items():
        try:
            txt[n] = emit(s, subs)
        except Unsupported as e:
            bad[n] = str(e)
            txt[n] = 'def %s(*a, **k):\n    _unsupported(%r)\nf_%s = %s\n' % (n, '%s: %s' % (n, e), n, n)
    return '\n\n'.join(txt.values()), bad


# ------------------------------------------------------------------ run time of the translated text

def _check(name, cond):
    c = core.CTX
    e = core.boolexpr(cond)
    if z3.is_true(z3.simplify(e)) or c.entails(e):
        return
    c.obligations.append(core.Obligation('fortran: ' + name, list(c.pc), e))
    c.assume(e)


def _ix(i, n):
    ci, cn = conc(i), conc(n)
    if ci is not None and cn is not None:
        if not 0 <= ci < cn:
            raise IndexError('Fortran subscript out of bounds')
        return i
    _check('subscript in bounds', core.land(mkb(intexpr(i) >= 0), mkb(intexpr(i) < intexpr(n))))
    return i


def _sec(a, b, n):
    _check('section in bounds', core.lor(mkb(intexpr(a) >= intexpr(b)), core.land(mkb(intexpr(a) >= 0), mkb(intexpr(b) <= intexpr(n)))))
    return slice(a, b)


def _b(x):
    if isinstance(x, SymArr):
        x = x.item()
    return x


def _and(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return npf.numpy.logical_and(a, b)
    return core.land(a, b)


def _or(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return npf.numpy.logical_or(a, b)
    return core.lor(a, b)


def _not(a):
    if isinstance(a, SymArr):
        return npf.numpy.logical_not(a)
    return core.lnot(a)


def _isint(x):
    return isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Sym) and x.k == core.I or isinstance(x, SymArr) and x.kind == 'i'


def _div(a, b):
    if _isint(a) and _isint(b):
        raise Unsupported('fortran: integer division')
    return a / b


def _pow(a, b):
    if isinstance(b, float) and b == int(b):
        b = int(b)
    return a ** b


def _dble(x):
    return core.cast(x, 'f') if not isinstance(x, SymArr) else core.cast(x.item(), 'f')


def _alloc(shape, kind):
    return npf.numpy.empty(shape, dtype={'f': float, 'i': int, 'b': bool}[kind])


def _arg(a, nd, kind, isout):
    a = arr.as_arr(a)
    if a.ndim != nd:
        raise ValueError('f2py: rank mismatch')
    if isout:
        if a.kind != kind:
            raise Unsupported('f2py: in/out array of another type is copied')
        if nd > 1 and not a.ford:
            if a.ford is None:
                raise Unsupported('f2py: memory order of an in/out array is not tracked')
            return a.copy()
        return a
    return a.astype({'f': float, 'i': int}[kind]) if a.kind != kind else a


def _scalar(x, kind):
    if kind == 'f':
        return _dble(x)
    if isinstance(x, Sym):
        return core.trunc(x) if x.k == core.R else x
    return int(x)


def _dim(name, a, b):
    if not arr.same_dim(a, b):
        raise ValueError('f2py: extent of %s' % name)


def _dgesv(n, nrhs, a, lda, ipiv, b, ldb, info, var=(True, True)):
    """contract of LAPACK dgesv for a non-singular matrix: b := a^-1 b, a is overwritten by its factors (so both must be
    variables: an expression may share the storage of its operands)"""
    npf.USED.add('LAPACK dgesv (exact solution of a regular system)')
    if not all(var):
        c = core.CTX
        c.obligations.append(core.Obligation('fortran: dgesv overwrites an actual argument that is an expression', list(c.pc), z3.BoolVal(False)))
    b[...] = npf.numpy.linalg.solve(a, b)
    if var[0]:
        a[...] = npf.numpy.empty(a.shape)


def _range3(a, b, s):
    if conc(s) is None:
        raise Unsupported('fortran: symbolic stride')
    return range(a, b + 1, s) if s > 0 else range(a, b - 1, s)


def _unsupported(m):
    raise Unsupported('fortran ' + m)


def _max(*a):
    r = a[0]
    for x in a[1:]:
        r = npf.numpy.maximum(r, x)
    return r


def _min(*a):
    r = a[0]
    for x in a[1:]:
        r = npf.numpy.minimum(r, x)
    return r


def _race(bad):
    c = core.CTX
    npf.USED.add('OpenMP: iterations that write disjoint elements and private variables run as in sequence')
    if bad:
        c.obligations.append(core.Obligation('fortran: parallel iterations share %s' % ', '.join(bad), list(c.pc), z3.BoolVal(False)))


def runtime():
    n = npf.numpy
    d = dict(_race=_race, _ix=_ix, _sec=_sec, _b=_b, _and=_and, _or=_or, _not=_not, _div=_div, _pow=_pow, _dble=_dble, _alloc=_alloc, _arg=_arg,
             _scalar=_scalar, _dim=_dim, _dgesv=_dgesv, _range3=_range3, _unsupported=_unsupported,
             _where=lambda c, a, b: n.where(c, a, b),
             _f_sum=lambda a: n.sum(a), _f_dot_product=lambda a, b: n.dot(a, b), _f_matmul=lambda a, b: n.dot(a, b),
             _f_transpose=lambda a: arr.as_arr(a).T, _f_sqrt=lambda a: n.sqrt(a), _f_dsqrt=lambda a: n.sqrt(a), _f_acos=lambda a: Sym(core.R, core.PI) if isinstance(a, float) and a == -1.0 else n.arccos(a),
             _f_dacos=lambda a: n.arccos(a), _f_cos=lambda a: n.cos(a), _f_sin=lambda a: n.sin(a), _f_abs=lambda a: n.abs(a),
             _f_dabs=lambda a: n.abs(a), _f_exp=lambda a: n.exp(a), _f_dble=lambda a: core.cast(a, 'f'), _f_max=_max, _f_min=_min,
             _f_floor=lambda a: n.floor(a))
    return d


def load(world, name, path):
    src = open(path).read()
    txt, bad = translate(src)
    m = world.execute(name, txt, path + ' (translated)', extra=runtime())
    npf.USED.add('gfortran/f2py: %s is executed as translated by vc/fortran.py' % os.path.basename(path))
    return m


if __name__ == '__main__':
    import sys
    t, b = translate(open(sys.argv[1]).read())
    print(t)
    print(b)
