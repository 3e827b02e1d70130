from vc.harness import unit
from .spec import *


def subst(txt, rules):
    """left to right, every occurrence of a key replaced once (keys do not overlap)"""
    out, i = [], 0
    while i < len(txt):
        for k, v in rules.items():
            if txt.startswith(k, i):
                out.append(v)
                i += len(k)
                break
        else:
            out.append(txt[i])
            i += 1
    return ''.join(out)


def reader(g, name):
    """random value and its text"""
    k = g.choose(name + ' kind', ['str', 'int', 'float', 'none', 'list'])
    if k == 'str':
        v = text(g, name, "ab% (){}\\\n'1", 0, 6)
        return v, v
    v = {'int': lambda: g.int(name, -999, 999, samp=(-999, 999)), 'float': lambda: float(g.real(name, samp=(-1e3, 1e3))),
         'none': lambda: None, 'list': lambda: [1, 'a']}[k]()
    return v, '%.16e' % v if k == 'float' else repr(v)


def template(g, keys, fill="xy \n%@{}()\\_.0"):
    """text with placeholders (repeated, adjacent, missing) and other text in between"""
    n = g.int('parts', 0, 9)
    parts = []
    for i in range(n):
        k = g.int('part%d' % i, 0, len(keys) + 1)
        parts.append(keys[k] if k < len(keys) else text(g, 'fill%d' % i, fill, 0, 5))
    return ''.join(parts)


PH = [lambda k: 'XXX' + k.upper(), lambda k: '@%s@' % k, lambda k: '<%s>' % k, lambda k: '$' + k, lambda k: '{{%s}}.*' % k]


def capture(fn):
    import io, contextlib
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        r = fn()
    return r, b.getvalue()


def independent(keys, texts):
    """no key occurs in another key or in inserted text, nor can arise across borders"""
    if any(a != b and (a in b or any(a.endswith(b[:i]) or b.endswith(a[:i]) for i in range(1, min(len(a), len(b)) + 1) if False)) for a in keys for b in keys):
        return False
    return not any(k in t for k in keys for t in texts)


@unit('C26', ['common.template_replace'], mode='bounded', n=1500, why='text')
def text_mode(g):
    """every occurrence of every key becomes the text of its value; all other characters stay"""
    nk = g.int('nkeys', 1, 4)
    func = PH[g.int('style', 0, len(PH) - 1)]
    keys = [func(k) for k in ['foo', 'bar', 'p0', 'q'][:nk]]
    conv = g.flag('conv')
    vals, texts = zip(*[reader(g, 'v%d' % i) for i in range(nk)])
    if not conv:
        vals = texts
    rules = dict(zip(keys, vals))
    txt = template(g, keys)
    want = subst(txt, dict(zip(keys, texts)))
    # sequential and simultaneous replacement agree for keys that stay apart
    g.require(independent(keys, texts) and not any(k in p for k in keys for p in [want]))
    r0 = dict(rules)
    kw = {'conv': True} if conv else {}
    if g.flag('quiet'):
        kw.update(warn_mult_found=False, warn_not_found=False, disp=False)
    out, said = capture(lambda: g.call('common.template_replace', txt, rules, mode='txt', **kw))
    g.ensure('text', isinstance(out, str) and out == want)
    if 'disp' in kw:
        g.ensure('silent', said == '')
    else:
        for k in keys:
            g.ensure('reports missing keys', ('key not found: %s\n' % k in said) == (k not in txt))
            g.ensure('reports repeated keys', ("key '%s' found %i times" % (k, txt.count(k)) in said) == (txt.count(k) > 1))
    g.ensure('rules kept', rules == r0)
    g.ensure('no rules', capture(lambda: g.call('common.template_replace', txt, {}, mode='txt'))[0] == txt)


@unit('C26', ['common.template_replace'], mode='bounded', n=1000, why='text')
def dict_mode(g):
    """Python format placeholders: txt % dct, with the formats given in the text"""
    nk = g.int('nkeys', 1, 4)
    names = ['foo', 'bar', 'p0', 'foob'][:nk]
    rules, fm = {}, {}
    for i, n in enumerate(names):
        k = g.choose('kind%d' % i, ['i', 'e', 's', 'f'])
        rules[n] = g.int('i%d' % i, -99, 999, samp=(-99, 999)) if k == 'i' else text(g, 's%d' % i, 'ab%()s1', 0, 5) if k == 's' else float(g.real('r%d' % i, samp=(-50, 50)))
        fm[n] = {'i': ['%i', '%04d'], 'e': ['%.16e', '%.3g'], 's': ['%s', '%8s'], 'f': ['%f', '%10.4f']}[k]
    parts, want = [], []
    for i in range(g.int('parts', 0, 8)):
        k = g.int('part%d' % i, 0, nk + 1)
        if k < nk:
            f = fm[names[k]][g.int('fmt%d' % i, 0, 1)]
            parts.append('%(' + names[k] + ')' + f[1:])
            want.append(f % rules[names[k]])
        else:
            t = text(g, 'fill%d' % i, 'xyz (){}\n', 0, 5)
            parts.append(t)
            want.append(t)
    txt, r0 = ''.join(parts), dict(rules)
    kw = {} if g.flag('default mode') else {'mode': 'dct'}
    out, said = capture(lambda: g.call('common.template_replace', txt, rules, **kw))
    g.ensure('text', out == ''.join(want))
    for n in names:
        ph = '%(' + n + ')'
        g.ensure('reports missing keys', ('key not found: %s\n' % ph in said) == (ph not in txt))
    g.ensure('rules kept', rules == r0)
    g.raises('unknown key', KeyError, lambda: capture(lambda: g.call('common.template_replace', txt + '%(nope)s', rules)))
    g.raises('mode', Exception, lambda: g.call('common.template_replace', txt, rules, mode='x'))
    g.raises('old argument order', ValueError, lambda: g.call('common.template_replace', rules, txt))
    g.raises('strings only', Exception, lambda: capture(lambda: g.call('common.template_replace', 'AAA', {'AAA': 1}, mode='txt')))


@unit('C26', ['common.file_template_replace', 'common.file_read', 'common.file_write', 'common.file_readlines'], mode='bounded', n=250, why='files')
def files(g):
    """the file holds the replaced text, the copy the old one"""
    import os
    keys = ['@foo@', '@b@']
    vals = [reader(g, 'v%d' % i)[1] for i in range(2)]
    txt = template(g, keys)
    want = subst(txt, dict(zip(keys, vals)))
    g.require(independent(keys, vals) and not any(k in want for k in keys))
    with Scratch():
        g.call('common.file_write', 'f.txt', txt)
        g.ensure('written', open('f.txt').read() == txt and g.call('common.file_read', 'f.txt') == txt)
        g.ensure('lines', ''.join(g.call('common.file_readlines', 'f.txt')) == txt)
        bak = g.choose('bak', [None, '.bak', '~'])
        kw = {} if bak is None else {'bak': bak}
        capture(lambda: g.call('common.file_template_replace', 'f.txt', dict(zip(keys, vals)), mode='txt', **kw))
        g.ensure('replaced', open('f.txt').read() == want)
        g.ensure('files', sorted(os.listdir('.')) == sorted(['f.txt'] + (['f.txt' + bak] if bak else [])))
        if bak:
            g.ensure('backup', open('f.txt' + bak).read() == txt)


@unit('C26', ['batch.FileTemplate.write', 'batch.FileTemplate.writesql', 'batch.FileTemplate.__init__'], mode='bounded', n=400, why='files')
def file_template(g):
    """target: the template text with the placeholders of all (or the given) keys replaced; keys=[]: a plain copy"""
    import os
    nk = g.int('nkeys', 1, 3)
    names = ['foo', 'bar', 'qux'][:nk]
    fi = g.int('style', -1, 3)
    func = PH[max(fi, 0)]
    vals, texts = zip(*[reader(g, 'v%d' % i) for i in range(nk)])
    ph = [func(n) for n in names]
    txt = template(g, ph)
    with Scratch():
        os.makedirs('templ/d')
        os.makedirs('out')
        how = g.choose('source', ['filename', 'basename', 'txt'])
        kw = {} if fi < 0 else {'func': func}
        if how == 'filename':
            kw['filename'] = 'templ/d/a.in'
        else:
            kw['basename'] = 'a.in'
            kw['templ_dir'] = 'templ/d'
        if how == 'txt':
            kw['txt'] = txt
        else:
            open('templ/d/a.in', 'w').write(txt)
        sel = g.choose('keys', ['none', 'some', 'empty'])
        if how == 'txt' and sel == 'empty':
            return
        use = names
        if sel == 'some':
            use = names[:g.int('use', 1, nk)]
            kw['keys'] = list(use)
        elif sel == 'empty':
            use = kw['keys'] = []
        rules = {func(n): t for n, t in zip(names, texts) if n in use}
        want = subst(txt, rules)
        g.require(independent(list(rules), list(rules.values())) and not any(k in want for k in rules))
        T = g.call('batch.FileTemplate', **kw)
        g.ensure('names', T.basename == 'a.in' and T.templ_dir == 'templ/d' and T.filename == 'templ/d/a.in')
        S = g.attr('sql.SQLEntry')
        mode = g.choose('mode', ['dct', 'sql', 'writesql'])
        dct = dict(zip(names, vals))
        if mode != 'dct':
            if any(isinstance(v, list) or v is None for v in vals):
                return
            file = g.flag('fileval')
            dct = {n: S(sqlval='database' if file else v, fileval=v if file else None) for n, v in dct.items()}
        if mode == 'writesql':
            run = lambda: T.writesql(dct, calc_dir='out')
        else:
            run = lambda: T.write(dct, calc_dir='out', **({} if mode == 'dct' else {'mode': 'sql'}))
        run()
        g.ensure('target', os.listdir('out') == ['a.in'] and open('out/a.in').read() == want)
        if how != 'txt':
            g.ensure('template kept', open('templ/d/a.in').read() == txt)
        run()
        g.ensure('again', open('out/a.in').read() == want)
    g.raises('both names', AssertionError, lambda: g.call('batch.FileTemplate', basename='a', filename='b/a'))


@unit('C26', ['common.backup'], mode='bounded', n=300, why='files')
def backup(g):
    """copy to <name><prefix><first free number>; nothing existing is touched, whatever numbers are taken"""
    import os
    isdir = g.flag('directory')
    pre = g.choose('prefix', [None, '.', '_', '.bak'])
    p = pre or '.'
    n = g.int('runs', 1, 4)

    def tree():
        r = {}
        for d, _, fs in os.walk('.'):
            r[d] = None
            for f in fs:
                r[os.path.join(d, f)] = open(os.path.join(d, f)).read()
        return r
    with Scratch():
        name = g.choose('name', ['calc', 'calc.db', 'a.0', 'sub/calc'])
        os.makedirs('sub')
        content = text(g, 'content', 'ab\n ', 0, 8)
        if isdir:
            os.makedirs(name + '/in/ner')
            open(name + '/in/x', 'w').write(content)
        else:
            open(name, 'w').write(content)
        for k in range(4):
            t = g.int('taken%d' % k, 0, 3)
            if t == 1:
                open('%s%s%d' % (name, p, k), 'w').write('keep %d' % k)
            elif t == 2:
                os.makedirs('%s%s%d' % (name, p, k))
        for i in range(n):
            before = tree()
            k = 0
            while os.path.lexists('%s%s%d' % (name, p, k)):
                k += 1
            g.call('common.backup', name, **({} if pre is None else {'prefix': pre}))
            after = tree()
            g.ensure('nothing touched', all(after.get(f, 0) == v for f, v in before.items()))
            dst = os.path.join('.', '%s%s%d' % (name, p, k))
            new = {f: v for f, v in after.items() if f not in before}
            src = os.path.join('.', name)
            want = {dst + f[len(src):]: v for f, v in before.items() if f == src or f.startswith(src + '/')}
            g.ensure('copy', new == want)
            if not isdir:
                open(name, 'a').write('+')
            else:
                open(name + '/in/y%d' % i, 'w').write('z')
        before = tree()
        g.call('common.backup', 'does not exist')
        g.ensure('missing source', tree() == before)
