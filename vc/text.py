"""Texts built from symbolic values: a Rope is a sequence of
     str                 literal text
     Fmt(spec, value)    a conversion of a symbolic value (printf or str.format specification)
     Loop(n, fn, sep)    fn(0) sep fn(1) sep .. fn(n-1), n symbolic
Conversions are not evaluated; contracts compare the value and check that the specification keeps enough digits
(trusted: CPython's conversions print the value to the digits asked for, labels contain no white space)."""
import re
import z3
from . import core, arr, seq
from .core import Sym, Unsupported, ctx, I, R, U, B, mkb, intexpr
from .arr import SymArr, conc
from .seq import SymSeq


class Fmt:
    __slots__ = ('spec', 'value')

    def __init__(self, spec, value):
        self.spec, self.value = spec, value


class Loop:
    __slots__ = ('n', 'fn', 'sep')

    def __init__(self, n, fn, sep=''):
        self.n, self.fn, self.sep = n, fn, sep


class Hole:
    """value of a loop-carried text before the iteration"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Rope:
    _is_rope = True
    __array_ufunc__ = None

    def __init__(self, pieces):
        ps = []
        for p in pieces:
            for q in (p.pieces if isinstance(p, Rope) else [p]):
                if isinstance(q, Sym):
                    q = Fmt('%s', q)
                if isinstance(q, str):
                    if not q:
                        continue
                    if ps and isinstance(ps[-1], str):
                        ps[-1] += q
                        continue
                ps.append(q)
        self.pieces = tuple(ps)

    def __add__(self, o):
        return cat(self, o) if is_text(o) else NotImplemented

    def __radd__(self, o):
        return cat(o, self) if is_text(o) else NotImplemented

    def __mul__(self, n):
        return repeat(self, n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return mod(self, args)

    def __eq__(self, o):
        raise Unsupported('comparison of a symbolic text')
    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __contains__ = __eq__

    def __bool__(self):
        if any(isinstance(p, str) for p in self.pieces):
            return True
        raise Unsupported('truth of a symbolic text')

    def __hash__(self):
        return id(self)

    def __str__(self):
        raise Unsupported('str() of a symbolic text outside verified code')

    def __repr__(self):
        return 'Rope(%s)' % ', '.join(repr(p) if isinstance(p, str) else '<%s>' % p.spec if isinstance(p, Fmt) else type(p).__name__ for p in self.pieces)

    def __len__(self):
        raise Unsupported('length of a symbolic text')
    __iter__ = __getitem__ = __len__

    def __format__(self, spec):
        raise Unsupported('formatting of a symbolic text outside verified code')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            raise Unsupported('str.%s of a symbolic text' % n)
        if hasattr(str, n):
            return f
        raise AttributeError(n)

    def join(self, it):
        return join(self, it)

    def format(self, *a, **k):
        raise Unsupported('format string with symbolic parts')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_text(x):
    return isinstance(x, (str, Rope)) or isinstance(x, Sym) and x.k == U


def is_symtext(x):
    return isinstance(x, Rope) or isinstance(x, Sym) and x.k == U


def plain(r):
    """str when the rope has literal text only"""
    if isinstance(r, Rope) and all(isinstance(p, str) for p in r.pieces):
        return ''.join(r.pieces)
    return r


def cat(*xs):
    return plain(Rope(xs))


def has_sym(x):
    if isinstance(x, (Sym, SymArr, SymSeq, Rope)):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_sym(v) for v in x)
    if isinstance(x, dict):
        return any(has_sym(v) for v in x.values())
    return False


def repeat(s, n):
    c = conc(n)
    if c is not None:
        return cat(*([s] * c))
    return Rope([Loop(_nonneg(n), lambda i: s, '')])


def _nonneg(n):
    if ctx().entails(intexpr(n) >= 0):
        return n
    return core.ite(mkb(intexpr(n) > 0), n, 0)


def join(sep, it):
    if isinstance(it, (SymArr,)):
        raise Unsupported('join over an array')
    if isinstance(it, (SymSeq, seq.SymRange)) and conc(seq.seqlen(it)) is None:
        if not isinstance(sep, str):
            raise Unsupported('symbolic separator')
        f = lambda i: _txt(seq.item(it, i))
        return Rope([Loop(_nonneg(seq.seqlen(it)), f, sep)])
    out = []
    for k, x in enumerate(it):
        if k:
            out.append(sep)
        out.append(_txt(x))
    return cat(*out)


def _txt(x):
    if not is_text(x):
        raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
    return x


PRINTF = re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>[diouxXeEfFgGcrsa%])')


def directives(fmt):
    """-> list of str | (key, spec, conv)"""
    out, pos = [], 0
    for m in PRINTF.finditer(fmt):
        if m.start() > pos:
            if '%' in fmt[pos:m.start()]:
                raise ValueError('unsupported format character')
            out.append(fmt[pos:m.start()])
        if m.group('conv') == '%':
            out.append('%')
        else:
            if '*' in (m.group('width'), m.group('prec')):
                raise Unsupported('format with *')
            out.append((m.group('key'), re.sub(r'\([^)]*\)', '', m.group(0), count=1) if m.group('key') is not None else m.group(0), m.group('conv')))
        pos = m.end()
    if '%' in fmt[pos:]:
        raise ValueError('incomplete format')
    if pos < len(fmt):
        out.append(fmt[pos:])
    return out


def conversion(spec, conv, x):
    x = _scalar(x)
    if not isinstance(x, (Sym, Rope)) and has_sym(x):
        if conv in 'sra':
            return Rope([Hole('text')])
        raise Unsupported('conversion %s of a symbolic object' % spec)
    if isinstance(x, Rope):
        if conv == 's' and spec == '%s':
            return x
        if conv in 'sra':
            raise Unsupported('conversion %s of a symbolic text' % spec)
        raise TypeError('must be real number, not str')
    if isinstance(x, Sym):
        if x.k == U and conv != 's':
            if conv in 'ra':
                raise Unsupported('repr of a label')
            raise TypeError('must be real number, not str')
        if conv in 'dioxXc' and x.k == R:
            if conv in 'di':
                x = core.trunc(x)
            else:
                raise TypeError('an integer is required')
        return Fmt(spec, x)
    return spec % (x,)


def _scalar(x):
    if isinstance(x, SymArr) and (x.ndim == 0 or all(conc(s) == 1 for s in x.shape_)):
        return x.item()
    return x


def ndir(fmt):
    return sum(1 for d in directives(fmt) if not isinstance(d, str))


def mod(fmt, args):
    """fmt % args"""
    fp = [fmt] if isinstance(fmt, str) else list(fmt.pieces)
    if isinstance(args, dict):
        if any(not isinstance(p, str) for p in fp):
            raise Unsupported('symbolic format with a mapping')
        out = []
        for d in directives(fmt if isinstance(fmt, str) else ''.join(fp)):
            if isinstance(d, str):
                out.append(d)
            else:
                if d[0] is None:
                    raise TypeError('not enough arguments for format string')
                out.append(conversion(d[1], d[2], args[d[0]]))
        return cat(*out)
    if isinstance(args, SymSeq):
        n, get = args.n, args.fn
    elif isinstance(args, tuple):
        n, get = len(args), lambda i: seq.item(args, i)
    else:
        n, get = 1, lambda i: args
    pos, out = 0, []
    for p in fp:
        if isinstance(p, str):
            for d in directives(p):
                if isinstance(d, str):
                    out.append(d)
                    continue
                if d[0] is not None:
                    raise TypeError('format requires a mapping')
                if not _truth(pos < n):
                    raise TypeError('not enough arguments for format string')
                out.append(conversion(d[1], d[2], get(pos)))
                pos = pos + 1
        elif isinstance(p, Loop):
            body = plain(p.fn(ctx().fresh('fp', I, plain=True)))
            if not isinstance(body, str):
                raise Unsupported('format repeated with symbolic parts')
            ds, sp = directives(body), directives(p.sep)
            if any(not isinstance(d, str) for d in sp):
                raise Unsupported('directive in the separator')
            k = sum(1 for d in ds if not isinstance(d, str))
            if not _truth(pos + p.n * k <= n):
                raise TypeError('not enough arguments for format string')

            def at(i, ds=ds, k=k, pos=pos):
                r, q = [], 0
                for d in ds:
                    if isinstance(d, str):
                        r.append(d)
                    else:
                        r.append(conversion(d[1], d[2], get(pos + i * k + q)))
                        q += 1
                return cat(*r)
            out.append(Loop(p.n, at, ''.join(sp)))
            pos = pos + p.n * k
        else:
            raise Unsupported('symbolic value in a format string')
    if not _truth(pos == n) and (isinstance(args, (tuple, SymSeq)) or pos == 0):
        raise TypeError('not all arguments converted during string formatting')
    return cat(*out)


def _truth(c):
    if isinstance(c, Sym):
        return ctx().decide(core.boolexpr(c))
    return bool(c)


def vc_mod(a, b):
    if isinstance(a, Rope) or isinstance(a, str) and has_sym(b):
        return mod(a, b)
    return a % b


FIELD = re.compile(r'\{\{|\}\}|\{([A-Za-z_0-9]*)(?:!([rsa]))?(?::([^{}]*))?\}')


def fmt_one(x, conv, spec):
    if has_sym(x):
        x = _scalar(x)
        if conv not in (None, '', 's'):
            raise Unsupported('conversion !%s' % conv)
        if isinstance(x, Rope):
            if spec:
                raise Unsupported('padding of a symbolic text')
            return x
        m = re.fullmatch(r'[<>^ +\-=#0]*\d*,?(\.\d+)?([a-zA-Z]?)', spec or '')
        if not m:
            raise Unsupported('format specification %r' % spec)
        return conversion('%' + (m.group(1) or '') + (m.group(2) or 's'), m.group(2) or 's', x)
    if conv == 'r':
        x = repr(x)
    elif conv == 's':
        x = str(x)
    return format(x, spec or '')


def vc_format(s, a, k):
    if not has_sym(list(a)) and not has_sym(k):
        return s.format(*a, **k)
    out, pos, auto = [], 0, 0
    for m in FIELD.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        key = m.group(1)
        if key == '':
            v = a[auto]
            auto += 1
        elif key.isdigit():
            v = a[int(key)]
        else:
            v = k[key]
        out.append(fmt_one(v, m.group(2), m.group(3)))
    if re.search(r'[{}]', ''.join(x for x in re.split(FIELD, s)[::4] if x)):
        raise Unsupported('format string')
    out.append(s[pos:])
    return cat(*out)


def vc_strcall(o, name, a, k):
    if name == 'join' and isinstance(o, (str, Rope)) and len(a) == 1 and not k:
        x = a[0]
        if not isinstance(x, (SymSeq, seq.SymRange, SymArr, str)):
            x = list(x)
        if isinstance(o, Rope) or isinstance(x, (SymSeq, seq.SymRange, SymArr)) or isinstance(x, list) and any(has_sym(v) for v in x):
            return join(o, x)
        return o.join(x)
    if name == 'format' and isinstance(o, str):
        return vc_format(o, a, k)
    return getattr(o, name)(*a, **k)


def vc_fstr(*parts):
    return cat(*[p if isinstance(p, str) else fmt_one(*p) for p in parts])


def to_str(x):
    """str(x) in verified code"""
    if isinstance(x, Rope) or isinstance(x, Sym) and x.k == U:
        return x
    if isinstance(x, Sym):
        return Rope([Fmt('%s', x)])
    if isinstance(x, SymArr) and x.ndim == 0:
        return to_str(x.item())
    if has_sym(x):
        return Rope([Hole('str()')])       # not readable, messages only
    return str(x)


# ------------------------------------------------------------------ arrays of texts (dtype U)

class TextArr:
    """two-dimensional array of strings; columns listed, rows of any number"""
    __array_ufunc__ = None

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)
        if self.ndim != 2 or conc(self.shape[1]) is None:
            raise Unsupported('array of strings of this shape')
        self.cols = [None] * conc(self.shape[1])

    def __setitem__(self, key, val):
        if not (isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None)):
            raise Unsupported('assignment to an array of strings')
        n = self.shape[0]
        if isinstance(key[1], int):
            if not arr.same_dim(seq.seqlen(val), n):
                raise Unsupported('broadcast into an array of strings')
            self.cols[key[1]] = lambda i: to_str(seq.item(val, i))
            return
        js = list(range(len(self.cols)))[key[1]]
        v = arr.as_arr(val)
        if v.ndim != 2 or conc(v.shape_[1]) != len(js) or not arr.same_dim(v.shape_[0], n):
            raise Unsupported('broadcast into an array of strings')
        f = v.vfn()
        for q, j in enumerate(js):
            self.cols[j] = lambda i, q=q: to_str(f((i, q)))

    def elem(self, i, j):
        j = conc(j)
        if j is None or self.cols[j] is None:
            raise Unsupported('element of an array of strings')
        return self.cols[j](i)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            if isinstance(key[0], slice) or isinstance(key[1], slice):
                raise Unsupported('slice of an array of strings')
            return self.elem(*key)
        return [self.elem(key, j) for j in range(len(self.cols))]

    def flatten(self, order='C'):
        m = len(self.cols)
        if order != 'C':
            raise Unsupported('order')
        return SymSeq(self.shape[0] * m, lambda p: self.elem(p // m, p % m))
    ravel = flatten

    def tolist(self):
        return SymSeq(self.shape[0], lambda i: self[i])

    def __len__(self):
        raise Unsupported('len of an array of strings')


# ------------------------------------------------------------------ lines and tokens

class Rep:
    """n items (lines or tokens), item i given by fn(i)"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class Line:
    def __init__(self, tokens):
        self.tokens = tokens


def _pos(n):
    c = conc(n)
    if c is not None:
        return c >= 1
    return ctx().entails(intexpr(n) >= 1)


def probe(p):
    """text of an arbitrary item of a repetition, for its shape"""
    k = ctx().fresh('tl', I, plain=True)
    return core.under([k.e >= 0, k.e < intexpr(p.n)], lambda: p.fn(k), 'probe')


class _Scanner:
    """text -> [Line | Rep(lines)], blank lines and the amount of white space dropped"""

    def __init__(self):
        self.out, self.toks, self.cur = [], [], []
        self.pending = False          # inside the last line of a repetition: only a line end may follow

    def endtok(self):
        if self.cur:
            self.toks.append(self.cur)
            self.cur = []

    def endline(self):
        self.endtok()
        if self.toks:
            self.out.append(Line(self.toks))
            self.toks = []
        self.pending = False

    def midline(self):
        return bool(self.toks or self.cur or self.pending)

    def feed(self, p):
        if isinstance(p, Rope):
            for q in p.pieces:
                self.feed(q)
        elif isinstance(p, str):
            for t in re.split(r'(\s)', p):
                if t == '':
                    continue
                if t == '\n':
                    self.endline()
                elif t.isspace():
                    self.endtok()
                elif self.pending:
                    raise Unsupported('text after a repetition on the same line')
                else:
                    self.cur.append(t)
        elif isinstance(p, (Fmt, Sym)):
            if self.pending:
                raise Unsupported('text after a repetition on the same line')
            self.cur.append(p if isinstance(p, Fmt) else Fmt('%s', p))
        elif isinstance(p, Loop):
            self.loop(p)
        else:
            raise Unsupported('text depends on loop-carried state')

    def loop(self, p):
        body = probe(p)
        nl = _newline(body), '\n' in p.sep
        if not any(nl):
            # within a line
            if self.pending:
                raise Unsupported('text after a repetition on the same line')

            def toks(i):
                s = _Scanner()
                s.feed(p.fn(i))
                s.endtok()
                return s.toks
            first = str(_first(body) or '')
            sp = p.sep or ' ' * (first[:1].isspace() or str(_last(body) or '')[-1:].isspace())
            if sp == '' or not sp.isspace():
                # items glued by literal text (a,b,c): one token
                self.cur.append(Rep(p.n, lambda i: _Glue(p.fn(i), p.sep)))
                return
            self.endtok()
            self.toks.append(Rep(p.n, toks))
            return
        if not _pos(p.n):
            raise Unsupported('repetition of lines which may be empty')
        lead = str(_first(body) or '')
        starts = lead.startswith('\n')
        tail = str(_last(body) or '')
        if self.midline():
            if not starts:
                raise Unsupported('lines of a repetition continue the line before')
            self.endline()

        def lines(i):
            s = _Scanner()
            s.feed(p.fn(i))
            s.endline()
            return s.out
        if not tail.endswith('\n') and '\n' not in p.sep and not starts:
            raise Unsupported('lines run across the iterations')
        self.out.append(Rep(p.n, lines))
        if not tail.endswith('\n'):
            self.pending = True


class _Glue:
    def __init__(self, rope, sep):
        self.rope, self.sep = rope, sep


def _newline(x):
    if isinstance(x, str):
        return '\n' in x
    if isinstance(x, Rope):
        return any(_newline(p) for p in x.pieces)
    if isinstance(x, Loop):
        return '\n' in x.sep or _newline(probe(x))
    return False


def _first(x):
    x = x.pieces[0] if isinstance(x, Rope) and x.pieces else x
    if isinstance(x, Loop):
        return _first(probe(x))
    return x if isinstance(x, str) else None


def _last(x):
    x = x.pieces[-1] if isinstance(x, Rope) and x.pieces else x
    if isinstance(x, Loop):
        return _last(probe(x))
    return x if isinstance(x, str) else None


def scan(text, comment=None):
    s = _Scanner()
    s.feed(text)
    s.endline()
    return _uncomment(s.out, comment) if comment else s.out


def _uncomment(lines, comment):
    out = []
    for l in lines:
        if isinstance(l, Rep):
            out.append(Rep(l.n, lambda i, l=l: _uncomment(l.fn(i), comment)))
            continue
        ts = []
        for t in l.tokens:
            q = None if isinstance(t, Rep) else next((i for i, p in enumerate(t) if isinstance(p, str) and comment in p), None)
            if q is None:
                ts.append(t)
                continue
            head = t[:q] + [t[q].split(comment)[0]]
            head = [p for p in head if p != '']
            if head:
                ts.append(head)
            break
        if ts:
            out.append(Line(ts))
    return out


# ------------------------------------------------------------------ comparison with a specification

class Mismatch(Exception):
    pass


def digits(spec, value):
    """significant digits kept by a conversion (99: all)"""
    m = PRINTF.fullmatch(spec)
    if not m:
        raise Unsupported('conversion %r' % spec)
    c, p = m.group('conv'), m.group('prec')
    if c in 'sr':
        return 99 if p is None else 0
    if c in 'dioxX':
        return 99 if value.k == I else 0
    p = 6 if p is None else int(p)
    if c in 'eE':
        return p + 1
    if c in 'gG':
        return p
    return -1                      # fixed point: absolute precision


def expand(items, one):
    """repetitions of a known number of items written out"""
    out = []
    for x in items:
        c = conc(x.n) if isinstance(x, Rep) else None
        if c is None:
            out.append(x)
            continue
        for i in range(c):
            out += expand(one(x.fn(i)), one)
    return out


def check_shape(have, want, what):
    """alternation of single items and repetitions of unknown length has to be the same"""
    if len(have) == len(want) and all(isinstance(h, Rep) == isinstance(w, Rep) for h, w in zip(have, want)):
        return
    if any(isinstance(x, Rep) for x in have) and any(isinstance(x, Rep) for x in want):
        raise Unsupported('repetitions of other form than the specification')
    raise Mismatch('%d %s, expected %d' % (len(have), what, len(want)))


def compare(have, want, need, emit, under):
    """emit(value, spec value) for every conversion; raises Mismatch where the shape of the text differs"""
    have = expand(have, lambda x: x)
    want = expand(want, lambda x: [as_line(y) for y in x])
    check_shape(have, want, 'lines or groups of lines')
    for h, w in zip(have, want):
        if isinstance(h, Rep):
            emit(h.n, w.n)
            under(w.n, lambda k: compare(h.fn(k), [as_line(x) for x in w.fn(k)], need, emit, under))
        else:
            tokens(h.tokens, w.tokens, need, emit, under)


def as_line(x):
    if isinstance(x, Rep) or isinstance(x, Line):
        return x
    return Line(list(x))


def tokens(have, want, need, emit, under):
    if len(want) == 1 and want[0] is Ellipsis:
        return
    have = expand(have, lambda x: x)
    want = expand(want, lambda x: [x])
    check_shape(have, want, 'fields')
    for h, w in zip(have, want):
        if isinstance(w, Rep):
            emit(h.n, w.n)
            under(w.n, lambda k: tokens(h.fn(k), [w.fn(k)], need, emit, under))
            continue
        parts = list(w) if isinstance(w, (tuple, list)) else [w]
        ps, hs = [], []
        if len(parts) > 1:
            parts = [str(p) if isinstance(p, int) else p for p in parts]
        for p in parts:
            if isinstance(p, str) and ps and isinstance(ps[-1], str):
                ps[-1] += p
            else:
                ps.append(p)
        for p in h:
            if isinstance(p, str) and hs and isinstance(hs[-1], str):
                hs[-1] += p
            else:
                hs.append(p)
        if len(ps) != len(hs):
            # a number written as literal text
            raise Mismatch('field %r, expected %r' % (hs, ps))
        for a, b in zip(hs, ps):
            part(a, b, need, emit)


def part(a, b, need, emit):
    if isinstance(a, Rep):
        raise Unsupported('glued repetition')
    if isinstance(b, str):
        if isinstance(a, Fmt) and isinstance(a.value, Sym) and a.value.k == U:
            emit(a.value, Sym(U, core.objconst(b)))
            return
        if not isinstance(a, str) or a != b:
            raise Mismatch('%r, expected %r' % (a if isinstance(a, str) else a.spec, b))
        return
    if isinstance(a, str):
        try:
            v = float(a)
        except ValueError:
            raise Mismatch('%r, expected a value' % a)
        emit(int(a) if re.fullmatch(r'[+-]?\d+', a) else v, b)
        return
    v = a.value
    isu = isinstance(v, Sym) and v.k == U
    if isu != (isinstance(b, Sym) and b.k == U):
        raise Mismatch('label and number exchanged')
    if not isu:
        d = digits(a.spec, v)
        if d == -1:
            raise Unsupported('fixed point conversion')
        if d < need:
            raise Mismatch('conversion %s keeps %d digits, %d needed' % (a.spec, d, need))
    emit(v, b)
