from vc.harness import unit
from .spec import *
from .c26 import capture, subst
from .c24 import same

KINDS = {'a': 'int', 'b': 'float', 'c': 'text', 'dd': 'int', 'ecut': 'text'}
MACH = ['local', 'h1', 'cluster']


class Guard:
    """deletions outside the scratch directory are refused, whatever the code asks for"""

    def __init__(self, g, root):
        import os, shutil
        self.root = os.path.realpath(root)
        self.common = g.mod('common')
        self.saved = [(os, 'remove'), (os, 'unlink'), (os, 'rmdir'), (shutil, 'rmtree'), (self.common, 'system')]

    def ok(self, p):
        import os
        q = os.path.realpath(p)
        if not q.startswith(self.root + os.sep):
            raise RuntimeError('refused: %r is outside the scratch directory' % p)

    def __enter__(self):
        self.orig = [(o, n, getattr(o, n)) for o, n in self.saved]
        for o, n, f in self.orig[:4]:
            def w(p, *a, _f=f, **k):
                if not (k.get('dir_fd') or isinstance(p, int)):
                    self.ok(p)
                return _f(p, *a, **k)
            setattr(o, n, w)

        def system(call, *a, _f=self.orig[4][2], **k):
            w = call.split() if isinstance(call, str) else list(call)
            if w[:2] != ['rm', '-r'] and w[:1] != ['cp']:
                raise RuntimeError('refused: %r' % (call,))
            for p in w[1:]:
                if not p.startswith('-'):
                    self.ok(p)
            return _f(call, *a, **k)
        self.common.system = system

    def __exit__(self, *a):
        for o, n, f in self.orig:
            setattr(o, n, f)


def tree(top='.'):
    import os
    r = {}
    for d, _, fs in os.walk(top):
        r[d] = None
        for f in fs:
            p = os.path.join(d, f)
            r[p] = open(p, 'rb').read()
    return r


def under(t, d):
    return {p: v for p, v in t.items() if p == d or p.startswith(d + '/')}


def free(t, name):
    k = 0
    while '%s.%d' % (name, k) in t:
        k += 1
    return '%s.%d' % (name, k)


def show(v):
    return v if isinstance(v, str) else '%.16e' % v if isinstance(v, float) else repr(v)


def machine(g, name, k):
    """machine with its own sub command, scratch and home and a job file template"""
    T, M = g.attr('batch.FileTemplate'), g.attr('batch.Machine')
    job = ['job', 'job.' + name, 'run'][g.int('job' + k, 0, 2)]
    txt = 'on %s cmd=XXXSUBCMD scr=XXXSCRATCH home=XXXHOME i=XXXIDX %s\n' % (name, ['', 'XXXA XXXC', 'XXXREVISION'][g.int('jobtxt' + k, 0, 2)])
    att = {'subcmd': 'qsub-' + k, 'scratch': '/scr/' + k, 'home': None if g.flag('nohome' + k) else '/home/' + k}
    if g.flag('machine by filename ' + k):
        import os
        d = 'templ/' + k
        os.makedirs(d, exist_ok=True)
        open(d + '/' + job, 'w').write(txt)
        m = M(hostname=name, filename=d + '/' + job, **att)
    else:
        m = M(hostname=name, template=T(basename=job, txt=txt), **att)
    return m, (name, att, job, txt)


def params(g, k, sets):
    """parameter sets: entries (possibly nested, possibly incomplete), database value and text for the inputs"""
    S = g.attr('sql.SQLEntry')
    names = [n for n in KINDS if g.int('use_%s%s' % (n, k), 0, 2) > 0] or ['a']
    out, want = [], []
    for j in range(sets):
        lst, w = [], {}
        for n in names:
            if len(names) > 1 and g.int('drop_%s%s_%d' % (n, k, j), 0, 7) == 0 and w:
                continue
            nm = '%s%s_%d' % (n, k, j)
            v = {'int': lambda: g.int(nm, -999, 999, samp=(-99, 999)), 'float': lambda: float(g.real(nm, samp=(-9, 99))),
                 'text': lambda: text(g, nm, 'abx \'%_', 0, 4)}[KINDS[n]]()
            fv = text(g, nm + 'f', 'uvw\n', 1, 4) if g.int('fv' + nm, 0, 3) == 0 else None
            e = S(key=n, sqlval=v, fileval=fv)
            lst.append([e] if g.int('nest' + nm, 0, 4) == 0 else e)
            w[n] = (v, v if fv is None else fv)
        out.append(lst)
        want.append(w)
    return out, want


def rowsof(fn, tab):
    import sqlite3
    c = sqlite3.connect(fn)
    c.row_factory = sqlite3.Row
    r = [dict(x) for x in c.execute('select * from %s order by rowid' % tab)]
    c.close()
    return r


PLACE = ['XXXA', 'XXXB', 'XXXC', 'XXXDD', 'XXXECUT', 'XXXIDX', 'XXXREVISION', 'XXXSTUDY_NAME', 'XXXCALC_NAME', 'XXXSUBCMD', 'XXXHOME']


@unit('C25', ['batch.ParameterStudy.write_input', 'batch.Calculation', 'batch.Machine', 'batch.FileTemplate.writesql'], mode='bounded', n=300,
      why='files and SQLite', tmax=120)
def study(g):
    """over a history of studies: one new directory per machine and parameter set, one row per set, earlier ones untouched"""
    import os
    T, P = g.attr('batch.FileTemplate'), g.attr('batch.ParameterStudy')
    with Scratch() as root, Guard(g, root):
        calc_root = ['.', 'work', 'wo/rk'][g.int('root', 0, 2)]
        tab = ['calc', 'tab2'][g.int('table', 0, 1)]
        prefix = ['calc', 'run'][g.int('prefix', 0, 1)]
        dbn = ['calc.db', 'x.sqlite'][g.int('dbname', 0, 1)]
        dbfn = os.path.normpath(os.path.join(calc_root, dbn))
        at = lambda *p: './' + os.path.normpath(os.path.join(calc_root, *p))
        table = []
        for s in range(g.count('studies', 1, 3, 5)):
            k = 's%d' % s
            nm = g.int('nmach' + k, 1, 2)
            first = g.int('mach' + k, 0, 2)
            ms = [machine(g, MACH[(first + i) % 3], k + 'm%d' % i) for i in range(nm)]
            temps, tw = [], []
            for t in range(g.int('ntempl' + k, 1, 2)):
                parts = []
                for i in range(g.int('parts%s%d' % (k, t), 1, 6)):
                    q = g.int('part%s%d_%d' % (k, t, i), 0, len(PLACE) + 2)
                    parts.append(PLACE[q] if q < len(PLACE) else text(g, 'fill%s%d_%d' % (k, t, i), 'xy =%\n', 1, 4))
                txt = ' '.join(parts)
                name = ['pw.in', 'in.2'][t]
                if g.flag('templ from file %s%d' % (k, t)):
                    os.makedirs('calc.templ', exist_ok=True)
                    open('calc.templ/' + name, 'w').write(txt)
                    temps.append(T(basename=name))
                else:
                    temps.append(T(basename=name, txt=txt))
                tw.append((name, txt))
            sets = g.count('sets' + k, 1, 3, 13)
            plist, want = params(g, k, sets)
            sname = ['st', 'name%d' % s][g.int('sname' + k, 0, 1)]
            mode = g.choose('mode' + k, ['a', 'a', 'w', 'default'])
            kw = {} if mode == 'default' else {'mode': mode}
            if not g.flag('backup' + k):
                kw['backup'] = False
            if not g.flag('excl' + k):
                kw['excl'] = False
            if g.flag('sleep' + k):
                kw['sleep'] = 3
            mlist = [m for m, _ in ms]
            study = P(machines=mlist[0] if nm == 1 and g.flag('single' + k) else mlist, templates=temps, params_lst=plist, study_name=sname,
                      db_name=dbn, db_table=tab, calc_root=calc_root, calc_dir_prefix=prefix)
            before = tree()
            capture(lambda: study.write_input(**kw))
            after = tree()
            g.ensure('templates list kept', study.templates == temps and len(temps) == len(tw))
            # model
            exp = dict(before)
            d = ''
            for p in os.path.normpath(calc_root).split('/'):
                d = os.path.join(d, p)
                exp['./' + d if d != '.' else '.'] = None
            db = './' + dbfn
            had = db in before
            new = mode == 'w' or not had
            if had and kw.get('backup', True):
                exp[free(before, db)] = before[db]
            base = 0 if new else max(r['idx'] for r in table) + 1
            rev = 0 if new else max(r['revision'] for r in table) + 1
            if new:
                table = []
            old = [r['idx'] for r in table]
            for m, (host, att, job, jtxt) in ms:
                cd = at(prefix + '_' + host)
                if cd in exp:
                    if kw.get('backup', True):
                        dst = free(exp, cd)
                        exp.update({dst + p[len(cd):]: v for p, v in under(exp, cd).items()})
                    if mode == 'w':
                        for p in under(exp, cd):
                            del exp[p]
                exp[cd] = None
                run = 'here=$(pwd)\n'
                for j, w in enumerate(want):
                    i = base + j
                    exp[cd + '/%d' % i] = None
                    rules = {'XXX' + n.upper(): show(f) for n, (v, f) in w.items()}
                    rules.update({'XXXIDX': str(i), 'XXXREVISION': str(rev), 'XXXSTUDY_NAME': sname, 'XXXCALC_NAME': sname + '_run%d' % i})
                    rules.update({'XXX' + n.upper(): show(v) for n, v in att.items()})
                    for name, txt in tw + [(job, jtxt)]:
                        exp[cd + '/%d/%s' % (i, name)] = subst(txt, rules).encode()
                    run += 'cd %d && %s %s && cd $here && sleep %d\n' % (i, att['subcmd'], job, kw.get('sleep', 0))
                exp[cd + '/run.sh'] = run.encode()
            for j, w in enumerate(want):
                row = {n: v for n, (v, f) in w.items()}
                row.update(idx=base + j, revision=rev, study_name=sname, calc_name=sname + '_run%d' % (base + j), hostname=','.join(x[1][0] for x in ms))
                table.append(row)
            if kw.get('excl', True) and rev > 0:
                exp[at('excl_push')] = '\n'.join(map(str, old)).encode()
            exp.pop(db, None)
            dbnow = after.pop(db, None)
            g.ensure('database', dbnow is not None)
            g.ensure('no other files or directories', sorted(after) == sorted(exp))
            for p in exp:
                g.ensure('content', after.get(p) == exp[p], )
            got = rowsof(dbfn, tab)
            g.ensure('one row per parameter set', len(got) == len(table))
            cols = set(c for r in got for c in r)
            g.ensure('columns', cols >= set(c for r in table for c in r))
            for r, w in zip(got, table):
                for c in cols:
                    g.ensure('row', same(r[c], w.get(c)))
            g.ensure('one index per calculation', len({r['idx'] for r in got}) == len(got))
            # the user removes earlier calculations from the table
            while len(table) > 1 and g.int('delete%s_%d' % (k, len(table)), 0, 3) == 0:
                import sqlite3
                r = table.pop(g.int('deleted%s_%d' % (k, len(table)), 0, len(table) - 2))
                c = sqlite3.connect(dbfn)
                c.execute('delete from %s where idx=?' % tab, (r['idx'],))
                c.commit()
                c.close()


@unit('C25', ['batch.Calculation.write_input', 'batch.Calculation.get_sql_record'], mode='bounded', n=150, why='files')
def calculations(g):
    """inputs of every calculation hold its own parameters and machine only, whatever was written before"""
    import os
    T, C, S = g.attr('batch.FileTemplate'), g.attr('batch.Calculation'), g.attr('sql.SQLEntry')
    with Scratch() as root, Guard(g, root):
        shared = [T(basename='in', txt='a=XXXA b=XXXB')]
        exp = {'.': None}
        objs = []
        for c in range(g.count('ncalc', 1, 4)):
            k = 'c%d' % c
            kw, files, rules = {}, [], {}
            if g.flag('mach' + k):
                m, (host, att, job, jtxt) = machine(g, MACH[g.int('m' + k, 0, 2)], k)
                kw['machine'] = m
                files.append((job, jtxt))
                rules.update({'XXX' + n.upper(): show(v) for n, v in att.items()})
            if g.flag('templ' + k):
                kw['templates'] = shared
                files.append(('in', shared[0].txt))
            w = {}
            if g.flag('par' + k):
                w = {'a': g.int('a' + k, -99, 99), 'b': text(g, 'b' + k, 'xyz', 0, 3)}
                kw['params'] = [S(key=n, sqlval=v) for n, v in w.items()]
                rules.update({'XXX' + n.upper(): show(v) for n, v in w.items()})
            objs.append((C(calc_dir='d/%d' % c, **kw), w, files, rules, c))
        pre = tree()
        exp = dict(pre)
        exp['./d'] = None
        for o, w, files, rules, c in objs:
            capture(o.write_input)
            exp['./d/%d' % c] = None
            for name, txt in files:
                exp['./d/%d/%s' % (c, name)] = subst(txt, rules).encode()
            g.ensure('inputs', tree() == exp)
            rec = o.get_sql_record()
            g.ensure('record', {n: e.sqlval for n, e in rec.items()} == w)
        g.ensure('list of templates kept', len(shared) == 1)
