from vc.harness import unit
from vc import core
from vc.core import Unsupported
from .spec import *

KIND = ['int', 'float', 'text', 'null']
TYPE = {'int': 'INTEGER', 'float': 'REAL', 'text': 'TEXT', 'null': 'NULL'}


def value(g, name, kind):
    if kind == 'null':
        return None
    if kind == 'int':
        return g.int(name, -2 ** 40, 2 ** 40, samp=(-50, 50))
    if kind == 'float':
        return float(g.real(name, samp=(-1e3, 1e3)))
    return text(g, name, "ab '\";%?,\n", 0, 5)


def same(a, b):
    return type(a) == type(b) and a == b


def rows(db, table, cols):
    """everything the database holds: {rowid: {column: value}}"""
    r = db.conn.execute('select rowid,%s from %s order by rowid' % (','.join(cols), table)).fetchall()
    return {x[0]: dict(zip(cols, x[1:])) for x in r}


def sametab(a, b):
    return list(a) == list(b) and all(list(a[k]) == list(b[k]) and all(same(a[k][c], b[k][c]) for c in a[k]) for k in a)


def database(g, table='tab', empty=True):
    """a table with up to three columns and some rows, entries may be NULL"""
    db = g.call('sql.SQLiteDB', ':memory:', table=table)
    nc, nr = g.int('ncols', 1, 3), g.count('nrows', 0 if empty else 1, 5)
    kinds = [g.choose('kind%d' % c, KIND[:3]) for c in range(nc)]
    cols = ['c%d' % c for c in range(nc)]
    db.create_table([(c, TYPE[k].lower() if g.int('lower%s' % c, 0, 1) else TYPE[k]) for c, k in zip(cols, kinds)])
    for r in range(nr):
        vals = [None if g.int('null%d_%d' % (r, c), 0, 2) == 0 else value(g, 'v%d_%d' % (r, c), kinds[c]) for c in range(nc)]
        db.conn.execute('insert into %s (%s) values (%s)' % (table, ','.join(cols), ','.join('?' * nc)), vals)
    return db, cols, kinds, nr


@unit('C24', ['sql.SQLiteDB.fill_column', 'sql.SQLiteDB.get_max_rowid', 'sql.SQLiteDB.has_column'], mode='bounded', n=700, why='SQLite')
def fill_column(g):
    """values[k] ends up in row start + k; no other cell changes; rows are created only beyond the last one and only if extending"""
    db, cols, kinds, nr = database(g)
    c = g.int('col', 0, len(cols) - 1)
    n = g.count('n', 1, 5)
    start = g.int('start', 1, nr + 2)
    vals = [value(g, 'w%d' % k, kinds[c]) for k in range(n)]
    ext = g.flag('extend')
    over = g.flag('overwrite')
    before = rows(db, 'tab', cols)
    kw = {}
    if not (ext and g.flag('default extend')):
        kw['extend'] = ext
    if over or g.flag('overwrite given'):
        kw['overwrite'] = over
    if start != 1 or g.flag('start given'):
        kw['start'] = start
    if g.flag('table given'):
        kw['table'] = 'tab'
    tgt = range(start, start + n)
    clash = not over and any(r in before and before[r][cols[c]] is not None for r in tgt)
    run = lambda: db.fill_column(cols[c], tuple(vals) if g.flag('tuple') else vals, **kw)
    if not ext and start > nr:
        g.raises('start beyond the table', AssertionError, run)
        g.ensure('untouched', sametab(before, rows(db, 'tab', cols)))
        return
    if clash:
        g.raises('refuses to overwrite', AssertionError, run)
        after = rows(db, 'tab', cols)
        for r in before:
            for k in cols:
                if before[r][k] is not None:
                    g.ensure('no value lost', same(before[r][k], after[r][k]))
        return
    run()
    want = {r: dict(x) for r, x in before.items()}
    for k, r in enumerate(tgt):
        if r in want:
            want[r][cols[c]] = vals[k]
        elif ext:
            want[r] = {q: None for q in cols}
            want[r][cols[c]] = vals[k]
    want = {r: want[r] for r in sorted(want)}
    g.ensure('table', sametab(want, rows(db, 'tab', cols)))
    g.raises('no such column', AssertionError, lambda: db.fill_column('nope', vals))


@unit('C24', ['sql.SQLiteDB.attach_column', 'sql.SQLiteDB.add_column', 'sql.SQLiteDB.add_columns', 'sql.SQLiteDB.get_header', 'sql.find_sqltype', 'sql.fix_sqltype', 'sql.fix_sql_header'],
      mode='bounded', n=500, why='SQLite')
def attach_column(g):
    """a new column of the right type holding the values from row 1 (or start); existing columns unchanged"""
    db, cols, kinds, nr = database(g)
    before = rows(db, 'tab', cols)
    head = db.get_header()
    g.ensure('header', head == [(c, TYPE[k]) for c, k in zip(cols, kinds)])
    kind = g.choose('kind', KIND[:3])
    n = g.count('n', 1, 5)
    vals = [value(g, 'w%d' % k, kind) for k in range(n)]
    kw = {}
    typ = TYPE[kind]
    if g.flag('type given'):
        typ = g.choose('type', ['TEXT', 'REAL', 'INTEGER'] if kind == 'int' and False else [TYPE[kind]])
        kw['sqltype'] = typ.lower() if g.flag('lower') else 'float' if typ == 'REAL' and g.flag('float') else typ
    start = g.int('start', 1, nr + 1)
    if start != 1:
        kw['start'] = start
    ext = g.flag('extend') or start > nr
    if not ext:
        kw['extend'] = False
    if g.flag('table given'):
        kw['table'] = 'tab'
    db.attach_column('new', vals, **kw)
    g.ensure('header extended', db.get_header() == head + [('new', typ)])
    g.ensure('has_column', db.has_column('new') and not db.has_column('ne') and all(db.has_column(c) for c in cols))
    allc = cols + ['new']
    want = {r: dict(x, new=None) for r, x in before.items()}
    for k in range(n):
        r = start + k
        if r in want:
            want[r]['new'] = vals[k]
        elif ext:
            want[r] = dict({c: None for c in cols}, new=vals[k])
    g.ensure('table', sametab(want, rows(db, 'tab', allc)))
    g.raises('present already', AssertionError, lambda: db.attach_column('new', vals))
    g.ensure('still the same', sametab(want, rows(db, 'tab', allc)))
    vals2 = [value(g, 'z%d' % k, kind) for k in range(min(n, max(nr, 1)))]
    db.attach_column('new', vals2, overwrite=True)
    for k, v in enumerate(vals2):
        want.setdefault(k + 1, {c: None for c in allc})['new'] = v
    g.ensure('overwritten', sametab(want, rows(db, 'tab', allc)))
    db.add_columns([('x1', 'text'), ('new', 'text'), ('x2', 'float')])
    g.ensure('columns added once', db.get_header() == head + [('new', typ), ('x1', 'TEXT'), ('x2', 'REAL')])
    g.ensure('values kept', sametab(want, rows(db, 'tab', allc)))


@unit('C24', ['sql.SQLiteDB.get_dict', 'sql.SQLiteDB.get_list1d', 'sql.SQLiteDB.get_array1d', 'sql.SQLiteDB.get_array', 'sql.SQLiteDB.get_single', 'sql.SQLiteDB.has_table', 'sql.SQLiteDB.set_table', 'sql.SQLiteDB.get_table'],
      mode='bounded', n=500, why='SQLite')
def read_back(g):
    """dictionaries, lists, arrays and single values hold the stored values in row order"""
    import numpy as np
    db, cols, kinds, nr = database(g)
    b = rows(db, 'tab', cols)
    pick = cols[::-1] if g.flag('reversed') else cols
    d = db.get_dict('select %s from tab order by rowid' % ','.join(pick))
    g.ensure('dict', list(d) == pick and all(len(d[c]) == nr and all(same(d[c][i], b[r][c]) for i, r in enumerate(b)) for c in pick))
    c = cols[g.int('col', 0, len(cols) - 1)]
    col = [b[r][c] for r in b]
    l = db.get_list1d('select %s from tab order by rowid' % c)
    g.ensure('list', isinstance(l, list) and len(l) == nr and all(same(x, y) for x, y in zip(l, col)))
    a = db.get_array1d('select %s from tab order by rowid' % c)
    g.ensure('array', a.shape == (nr,) and all(x == y for x, y in zip(a.tolist(), np.array(col).tolist())))
    every = [b[r][q] for r in b for q in cols]
    l = db.get_list1d('select %s from tab order by rowid' % ','.join(cols))
    g.ensure('all, row by row', len(l) == len(every) and all(same(x, y) for x, y in zip(l, every)))
    if nr:
        m = db.get_array('select %s from tab order by rowid' % ','.join(cols))
        g.ensure('2d array', m.shape == (nr, len(cols)) and np.array_equal(m, np.array([[b[r][q] for q in cols] for r in b])) or m.dtype.kind == 'O' and (m == np.array([[b[r][q] for q in cols] for r in b])).all() or m.dtype.kind == 'f')
        k = g.int('row', 1, nr)
        g.ensure('single', same(db.get_single('select %s from tab where rowid==?' % c, (k,)), b[k][c]))
        g.raises('nothing', AssertionError, lambda: db.get_single('select %s from tab where rowid==?' % c, (nr + 9,)))
        if nr > 1:
            g.raises('not unique', AssertionError, lambda: db.get_single('select %s from tab' % c))
    g.ensure('has_table', db.has_table('tab') and not db.has_table('other'))
    g.ensure('table', db.get_table() == 'tab')
    db.create_table([('a', 'float')], table='other')
    g.ensure('second table', db.has_table('other') and db.get_header('other') == [('a', 'REAL')] and not db.has_column('a') and db.has_column('a', table='other'))
    db.set_table('other')
    g.ensure('set_table', db.get_header() == [('a', 'REAL')] and sametab(b, rows(db, 'tab', cols)))


@unit('C24', ['sql.SQLiteDB.get_single', 'sql.SQLiteDB.get_list1d', 'sql.find_sqltype'], mode='bounded', n=60, why='SQLite')
def binary(g):
    """binary values (BLOB) are stored and returned like any other"""
    n = g.count('n', 1, 4)
    vals = [bytes(g.int('b%d_%d' % (i, k), 0, 255, samp=(0, 255)) for k in range(g.int('l%d' % i, 0, 4))) for i in range(n)]
    typ = g.choose('type', [bytes, memoryview])
    db = g.call('sql.SQLiteDB', ':memory:', table='tab')
    db.create_table([('a', 'integer')])
    db.attach_column('b', [typ(v) for v in vals])
    g.ensure('type', db.get_header() == [('a', 'INTEGER'), ('b', 'BLOB')])
    g.ensure('list', db.get_list1d('select b from tab order by rowid') == vals)
    g.ensure('single', db.get_single('select b from tab where rowid==1') == vals[0])
    g.ensure('dict', db.get_dict('select b from tab order by rowid') == {'b': vals})


@unit('C24', ['sql.makedb', 'sql.sql_matrix', 'sql.sql_column', 'sql.SQLEntry', 'sql.SQLiteDB.create_table', 'sql.SQLiteDB.finish'], mode='bounded', n=300, why='SQLite')
def makedb(g):
    """named lists -> one row each, column types of the first row; append adds rows below, also of a subset of the columns"""
    import sqlite3, os
    nc, nr = g.int('ncols', 1, 4), g.count('nrows', 1, 5)
    kinds = [g.choose('k%d' % c, KIND[:3]) for c in range(nc)]
    cols = ['c%d' % c for c in range(nc)]
    L = [[value(g, 'v%d_%d' % (r, c), kinds[c]) for c in range(nc)] for r in range(nr)]
    with Scratch():
        fn = 'foo' + g.choose('suffix', ['.db', '.sqlite3', '.sqlite', '.dat'])
        kw = {}
        table = 'foo'
        if fn.endswith('.dat') or g.flag('table given'):
            table = kw['table'] = 'calc'
        mode = g.choose('mode', ['default', 'w', 'a'])
        if mode != 'default':
            kw['mode'] = mode
        L0 = [list(r) for r in L]
        dct = lambda: sqlite3.connect(fn).execute('select %s from %s order by rowid' % (','.join(cols), table)).fetchall()
        eq = lambda a, b: len(a) == len(b) and all(len(x) == len(y) and all(same(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))
        g.call('sql.makedb', fn, L, cols, **kw)
        g.ensure('one row for each', eq(dct(), L0))
        con = sqlite3.connect(fn)
        g.ensure('types', [x[1:3] for x in con.execute('pragma table_info(%s)' % table)] == [(c, TYPE[k]) for c, k in zip(cols, kinds)])
        con.close()
        g.ensure('lists kept', L == L0)
        nr2 = g.int('nrows2', 1, 3)
        sub = [c for c in range(nc) if g.int('sub%d' % c, 0, 1)] or [0]
        if g.flag('shuffled'):
            sub = sub[::-1]
        M = [[value(g, 'u%d_%d' % (r, c), kinds[c]) for c in sub] for r in range(nr2)]
        wr = g.flag('second run overwrites')
        kw2 = dict(kw, mode='w' if wr else 'a', close=False)
        db = g.call('sql.makedb', fn, M, [cols[c] for c in sub], **kw2)
        if wr:
            got = db.conn.execute('select %s from %s order by rowid' % (','.join(cols[c] for c in sub), table)).fetchall()
            g.ensure('rewritten', eq(got, M))
        else:
            full = [[dict(zip(sub, r)).get(c) for c in range(nc)] for r in M]
            got = db.conn.execute('select %s from %s order by rowid' % (','.join(cols), table)).fetchall()
            g.ensure('appended', eq(got, L0 + full))
            g.raises('unknown column', AssertionError, lambda: g.call('sql.makedb', fn, [[1]], ['zz'], table=table))
            w = {'int': 'x', 'float': 1, 'text': 2}[kinds[0]]
            g.raises('type differs', AssertionError, lambda: g.call('sql.makedb', fn, [[w]], [cols[0]], table=table))
        db.finish()
        g.raises('names and lists differ', AssertionError, lambda: g.call('sql.makedb', 'x.db', L, cols + ['q']))


@unit('C24', ['sql.sql_column', 'sql.sql_matrix', 'sql.SQLEntry'], mode='bounded', n=200, why='SQLite value types')
def entries(g):
    """entries keep key, type, database value and file value"""
    kind = g.choose('kind', KIND[:3])
    n = g.count('n', 1, 5)
    vals = [value(g, 'v%d' % i, kind) for i in range(n)]
    f = lambda x: str(x) + '!'
    r = g.call('sql.sql_column', 'key', vals, fileval_func=f)
    g.ensure('column', len(r) == n and all(e.key == 'key' and e.sqltype == TYPE[kind] and same(e.sqlval, v) and e.fileval == f(v) for e, v in zip(r, vals)))
    r = g.call('sql.sql_column', 'key', vals, sqlval_func=f)
    g.ensure('sqlval_func', all(e.sqltype == 'TEXT' and e.sqlval == f(v) and same(e.fileval, v) for e, v in zip(r, vals)))
    r = g.call('sql.sql_column', 'key', vals, sqltype='blob')
    g.ensure('type given', all(e.sqltype == 'BLOB' and same(e.sqlval, v) for e, v in zip(r, vals)))
    g.raises('mixed types', AssertionError, lambda: g.call('sql.sql_column', 'key', [1, 'a']))
    rows_ = [[v, i, 'x%d' % i] for i, v in enumerate(vals)]
    m = g.call('sql.sql_matrix', rows_, colnames=['a', 'b', 'c'], fileval_funcs={'b': f}, sqlval_funcs={'c': f})
    g.ensure('matrix', len(m) == n and all([e.key for e in r] == ['a', 'b', 'c'] and [e.sqltype for e in r] == [TYPE[kind], 'INTEGER', 'TEXT'] and
                                           same(r[0].sqlval, x[0]) and r[1].sqlval == x[1] and r[1].fileval == f(x[1]) and r[2].sqlval == f(x[2]) and r[2].fileval == x[2]
                                           for r, x in zip(m, rows_)))
    m = g.call('sql.sql_matrix', rows_, header=[('p', 'text'), ('q', 'real'), ('r', 'blob')])
    g.ensure('header', all([e.key for e in r] == ['p', 'q', 'r'] and [e.sqltype for e in r] == ['TEXT', 'REAL', 'BLOB'] for r in m))
    g.raises('too few names', AssertionError, lambda: g.call('sql.sql_matrix', rows_, colnames=['a']) if False else g.call('sql.sql_matrix', rows_, header=[('a', 'text')]))
    e = g.call('sql.SQLEntry', sqlval=vals[0])
    g.ensure('entry', e.sqltype == TYPE[kind] and same(e.fileval, vals[0]) and e.key is None)
    e = g.call('sql.SQLEntry', sqlval=vals[0], fileval=0, sqltype='float', key='k')
    g.ensure('file value 0', e.fileval == 0 and e.sqltype == 'REAL' and e.key == 'k')


@unit('C24', ['sql.SQLiteDB.get_max_rowid'], mode='bounded', n=200, why='SQLite')
def max_rowid(g):
    """the largest row number in use, also when rows were removed"""
    db, cols, kinds, nr = database(g)
    for r in range(1, nr + 1):
        if g.int('del%d' % r, 0, 1):
            db.execute('delete from tab where rowid=?', (r,))
    have = list(rows(db, 'tab', cols))
    g.require(bool(have))
    g.ensure('largest', (db.get_max_rowid('tab') if g.flag('table given') else db.get_max_rowid()) == max(have))


class GhostDB:
    """what sqlite3 does with the statements used here, for a table of any number of rows (rowids 1..n, no gaps): one array of
    values and one of NULL flags per column. Rows of the table are 1..mx; a new row must not exist yet."""

    def __init__(self, g, table, cols, mx, cap):
        self.g, self.table, self.cols, self.mx = g, table, list(cols), mx
        self.val = {c: g.reals('val_' + c, (cap,)) for c in cols}
        self.null = {c: g.bools('null_' + c, (cap,)) for c in cols}
        self.here = g.array((cap,), lambda r: r < mx, 'b').copy()
        self.added = {}
        self.res = []
        self.description = None

    def commit(self):
        pass

    close = commit

    def fetchall(self):
        return self.res

    def fetchone(self):
        return self.res[0] if self.res else None

    def __iter__(self):
        return iter(self.res)

    def execute(self, cmd, args=()):
        import re
        g = self.g
        cmd = ' '.join(cmd.split())

        def m(pat):
            return re.fullmatch(pat.replace(' ', r'\s+').replace('TAB', self.table), cmd, re.I)
        self.res = []
        if m(r'pragma table_info ?\( ?TAB ?\)'.replace(' ?', r'\s*')):
            self.res = [(k, c, 'REAL', 0, None, 0) for k, c in enumerate(self.cols)]
        elif m(r'select max\(rowid\) from TAB'):
            empty = self.mx == 0
            self.res = [(None if (g.c.decide(core.boolexpr(empty)) if isinstance(empty, core.Sym) else empty) else self.mx,)]
        elif m(r'select (\w+) from TAB where rowid ?={1,2} ?\?'.replace(' ?=', r'\s*=').replace('} ?', r'}\s*')):
            c = m(r'select (\w+) from TAB where rowid\s*={1,2}\s*\?').group(1)
            r = args[0] - 1
            if not bool(self.here[r]):
                return self
            self.res = [(None if bool(self.null[c][r]) else self.val[c][r],)]
        elif m(r'update TAB set (\w+)\s*=\s*\? where rowid\s*={1,2}\s*\?'):
            c = m(r'update TAB set (\w+)\s*=\s*\? where rowid\s*={1,2}\s*\?').group(1)
            r = args[1] - 1
            if bool(self.here[r]):
                self.val[c][r] = args[0]
                self.null[c][r] = False
        elif m(r'insert into TAB \(rowid,\s*(\w+)\) values \(\?,\s*\?\)'):
            c = m(r'insert into TAB \(rowid,\s*(\w+)\) values \(\?,\s*\?\)').group(1)
            r = args[0] - 1
            g.ensure('new row', r >= self.mx)
            self.here[r] = True
            for q in self.cols:
                self.null[q][r] = q != c
            self.val[c][r] = args[1]
        else:
            raise Unsupported('statement outside the SQLite model: ' + cmd)
        return self


@unit('C24', ['sql.SQLiteDB.fill_column', 'sql.SQLiteDB.get_max_rowid', 'sql.SQLiteDB.has_column', 'sql.SQLiteDB.get_single'], n=200,
      fork={'case': 6}, assume=['sqlite3: the statements of fill_column on a table without gaps (GhostDB); numbers'])
def fill_rows(g):
    """any number of rows and values: values[k] ends up in row start + k, everything else is kept"""
    mx, n, start = g.int('rows', 0, samp=(0, 6)), g.dim('n', 1, samp=(1, 6)), g.int('start', 1, samp=(1, 8))
    cap = g.dim('cap', 1, samp=(20, 21))
    # (overwrite=False on existing rows reads what the loop may have written: fill_column, bounded)
    where, ext, over = g.choose('case', [('existing rows', False, True), ('existing rows', True, True), ('new rows', True, False),
                                         ('new rows', True, True), ('empty table', True, False), ('empty table', True, True)])
    if where == 'existing rows':
        g.require(start + n - 1 <= mx)
    elif where == 'new rows':
        g.require(g.land(mx >= 1, start == mx + 1, start + n - 1 <= cap))
    else:
        g.require(g.land(mx == 0, start == 1, n <= cap))
    g.require(mx <= cap)
    new = g.reals('new', (n,))
    if g.sym:
        db = object.__new__(g.attr('sql.SQLiteDB'))
        gh = GhostDB(g, 'tab', ['a', 'b'], mx, cap)
        db.cur = db.conn = gh
        db.table = 'tab'
    else:
        db = g.call('sql.SQLiteDB', ':memory:', table='tab')
        db.conn.execute('create table tab (a REAL, b REAL)')
        vs, ns = [g.reals('val_' + c, (cap,)) for c in 'ab'], [g.bools('null_' + c, (cap,)) for c in 'ab']
        for r in range(mx):
            db.conn.execute('insert into tab (a,b) values (?,?)', [None if q[r] else float(v[r]) for v, q in zip(vs, ns)])
    if g.sym:
        v0, n0 = {c: g.snap(gh.val[c]) for c in 'ab'}, {c: g.snap(gh.null[c]) for c in 'ab'}
    else:
        v0, n0 = dict(zip('ab', vs)), dict(zip('ab', ns))
    kw = {'extend': ext, 'overwrite': over, 'start': start} if g.flag('all given') or not ext or over else {'start': start}
    db.fill_column('b', g.seqof(n, lambda k: new[k] if g.sym else float(new[k])), **kw)
    hit = lambda r: g.land(r >= start - 1, r < start - 1 + n)
    if g.sym:
        g.forall('rows', (cap,), lambda r: gh.here[r] == g.lor(r < mx, hit(r)))
        g.forall('written', (n,), lambda k: g.land(gh.val['b'][start - 1 + k] == new[k], g.lnot(gh.null['b'][start - 1 + k])))
        g.forall('others kept', (cap,), lambda r: g.lor(hit(r), g.land(gh.val['b'][r] == v0['b'][r], gh.null['b'][r] == n0['b'][r])))
        g.forall('other columns kept', (cap,), lambda r: g.lor(r >= mx, g.land(gh.val['a'][r] == v0['a'][r], gh.null['a'][r] == n0['a'][r])))
        g.forall('other columns of new rows NULL', (cap,), lambda r: g.implies(g.land(r >= mx, hit(r)), gh.null['a'][r]))
    else:
        want = {}
        for r in range(max(mx, start + n - 1)):
            want[r + 1] = {c: None if r >= mx or n0[c][r] else float(v0[c][r]) for c in 'ab'}
            if start - 1 <= r < start - 1 + n:
                want[r + 1]['b'] = float(new[r - start + 1])
        g.ensure('table', sametab(want, rows(db, 'tab', ['a', 'b'])))
