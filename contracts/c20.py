from vc.harness import unit
from .spec import *
from .c26 import capture

SYM = ['H', 'Al', 'Si', 'Na', 'O', 'Ca']
EPS = 3e-16
EPSD = 2.0 ** -52


def numbers(g, shape):
    """coordinates of all magnitudes, zeros, exact values"""
    import numpy as np
    r = np.random.RandomState(g.int('seed', 0, 10 ** 6, samp=(0, 10 ** 6)))
    kind = g.int('values', 0, 3)
    x = r.uniform(-3, 3, size=shape)
    if kind == 1:
        x = x * 10.0 ** r.randint(-20, 9, size=shape)
    if kind == 2:
        x = np.round(x, 1)
    if kind == 3:
        x = np.where(r.randint(0, 3, size=shape) == 0, 0.0, x * 1e3)
    return x


def cells(g, n):
    import numpy as np
    r = np.random.RandomState(g.int('cell seed', 0, 10 ** 6, samp=(0, 10 ** 6)))
    out = []
    while len(out) < n:
        c = r.uniform(-5, 5, size=(3, 3)) if g.flag('triclinic') else np.diag(r.uniform(1, 9, size=3))
        if np.linalg.det(c) > 1:
            out.append(c)
    return np.array(out)


def syms(g, n):
    return [SYM[g.int('sy%d' % k, 0, len(SYM) - 1)] for k in range(n)]


def near(a, b, rel=1e-14, tol=EPS):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b) + tol))


def floats(line):
    return [float(x) for x in line.split()]


def makestruct(g, form=None):
    n = g.count('natoms', 1, 6)
    sy, X, C = syms(g, n), numbers(g, (n, 3)), cells(g, 1)[0]
    how = form or g.choose('given', ['coords', 'frac', 'const'])
    if how == 'coords':
        kw = dict(coords=X, cell=C)
    elif how == 'frac':
        kw = dict(coords_frac=X, cell=C)
    else:
        c = g.mod('crys').cell2cc(C)
        kw = dict(coords_frac=X, cryst_const=c)
    return g.call('crys.Structure', symbols=sy, **kw), sy, n


def maketraj(g):
    """structure or trajectory; forces or not; returns object, symbols, coords (t,n,3), cell (t,3,3), forces or None"""
    n = g.count('natoms', 1, 6)
    t = g.count('steps', 1, 4)
    sy = syms(g, n)
    F = numbers(g, (t, n, 3)) if g.flag('forces') else None
    if t > 1:
        F = None if F is None else F[::-1].copy()
    X, C = numbers(g, (t, n, 3)) * 1.5, cells(g, t)
    single = t == 1 and g.flag('structure')
    pick = (lambda a: a[0]) if single else (lambda a: a)
    kw = dict(symbols=sy, coords=pick(X), cell=pick(C))
    if F is not None:
        kw['forces'] = pick(F)
    o = g.call('crys.Structure' if single else 'crys.Trajectory', **kw)
    return o, sy, X, C, F


def written(g, fn, *a, **k):
    """content of the file after the call; nothing else is written"""
    import os
    before = set(os.listdir('.'))
    path = ['out.txt', './out.txt', 'sub/out.txt'][g.int('path', 0, 2)]
    if path[:3] == 'sub':
        os.mkdir('sub')
    g.call(fn, path, *a, **k)
    s = open(path).read()
    return s, path


def keeps(g, o, fn):
    """the object is not changed by writing it"""
    import numpy as np
    before = {k: np.array(v, copy=True) for k, v in o.__dict__.items() if isinstance(v, np.ndarray)}
    r = fn()
    g.ensure('object kept', all(np.array_equal(v, getattr(o, k)) for k, v in before.items()))
    return r


@unit('C20', ['io.write_xyz', 'pwscf.atpos_str_fast', 'crys.struct2traj'], mode='bounded', n=300, why='text output')
def xyz(g):
    """for each step: number of atoms, comment line, one line per atom"""
    with Scratch():
        o, sy, X, C, F = maketraj(g)
        kw = {'name': 'mol a'} if g.flag('name') else {}
        s, _ = keeps(g, o, lambda: written(g, 'io.write_xyz', o, **kw))
        n, t = len(sy), len(X)
        L = s.split('\n')
        g.ensure('ends with the last atom', s.endswith('\n') and len(L) == t * (n + 2) + 1)
        for k in range(t):
            b = L[k * (n + 2):(k + 1) * (n + 2)]
            g.ensure('atoms', int(b[0]) == n)
            g.ensure('name', kw.get('name', 'pwtools_dummy_mol_name') in b[1])
            for i in range(n):
                w = b[2 + i].split()
                g.ensure('symbol', w[0] == sy[i])
                g.ensure('coordinates', near([float(x) for x in w[1:]], X[k, i]))


@unit('C20', ['io.write_axsf', 'pwscf.atpos_str_fast', 'common.str_arr'], mode='bounded', n=300, why='text output')
def axsf(g):
    """ANIMSTEPS, CRYSTAL; for each step PRIMVEC, cell, PRIMCOORD, number of atoms, one line per atom with forces in Ha/Angstrom"""
    with Scratch():
        o, sy, X, C, F = maketraj(g)
        s, _ = keeps(g, o, lambda: written(g, 'io.write_axsf', o))
        n, t = len(sy), len(X)
        L = [x for x in s.split('\n') if x.strip()]
        g.ensure('lines', len(L) == 2 + t * (n + 6))
        g.ensure('head', L[0].split() == ['ANIMSTEPS', str(t)] and L[1].strip() == 'CRYSTAL')
        fac = 1.0 / 27.211386
        for k in range(t):
            b = L[2 + k * (n + 6):2 + (k + 1) * (n + 6)]
            g.ensure('PRIMVEC', b[0].split() == ['PRIMVEC', str(k + 1)])
            g.ensure('cell', near([floats(x) for x in b[1:4]], C[k]))
            g.ensure('PRIMCOORD', b[4].split() == ['PRIMCOORD', str(k + 1)] and b[5].split() == [str(n), '1'])
            for i in range(n):
                w = b[6 + i].split()
                v = [float(x) for x in w[1:]]
                g.ensure('symbol', w[0] == sy[i])
                g.ensure('columns', len(v) == (3 if F is None else 6))
                g.ensure('coordinates', near(v[:3], X[k, i]))
                if F is not None:
                    g.ensure('forces', near(v[3:], F[k, i] * fac, rel=1e-6))


def decomment(s):
    return [x.split('/')[0].strip() for x in s.split('\n') if x.split('/')[0].strip()]


@unit('C20', ['io.wien_sgroup_input', 'io.write_wien_sgroup'], mode='bounded', n=200, why='text output')
def sgroup(g):
    """lattice type, cell constants, number of atoms, for each atom fractional coordinates and name"""
    with Scratch():
        st, sy, n = makestruct(g)
        kw = {'lat_symbol': g.choose('lat', ['P', 'F', 'I', 'C', 'A'])} if g.flag('lattice given') else {}
        s = keeps(g, st, lambda: g.call('io.wien_sgroup_input', st, **kw))
        f, _ = written(g, 'io.write_wien_sgroup', st, **kw)
        g.ensure('file', f == s)
        L = decomment(s)
        g.ensure('lines', len(L) == 3 + 2 * n)
        g.ensure('lattice', L[0] == kw.get('lat_symbol', 'P'))
        g.ensure('cell constants', near(floats(L[1]), st.cryst_const))
        g.ensure('atoms', int(L[2]) == n)
        for i in range(n):
            g.ensure('coordinates', near(floats(L[3 + 2 * i]), st.coords_frac[i]))
            g.ensure('symbol', L[4 + 2 * i] == sy[i])


@unit('C20', ['lammps.struct_str', 'io.write_lammps', 'common.str_arr'], mode='bounded', n=250, why='text output')
def lammps(g):
    """box lengths and tilts of the cell in standard orientation, one record per atom in order with type and coordinates, masses per type"""
    import numpy as np, math, os
    with Scratch():
        st, sy, n = makestruct(g)
        s = keeps(g, st, lambda: g.call('lammps.struct_str', st))
        kw = {'symbolsbasename': 'sym.txt'} if g.flag('symbols name') else {}
        f, path = written(g, 'io.write_lammps', st, **kw)
        strip = lambda x: x.split('\n')[1:]                  # first line: comment with the date
        g.ensure('file', strip(f) == strip(s))
        g.ensure('symbols file', open(os.path.join(os.path.dirname(path), kw.get('symbolsbasename', 'lmp.struct.symbols'))).read().split() == sy)
        types = sorted(set(sy))
        L = [x.strip() for x in s.split('\n')[1:] if x.strip()]
        g.ensure('sections', 'Atoms' in L and 'Masses' in L)
        ia, im = L.index('Atoms'), L.index('Masses')
        head = {' '.join(x.split()[k:]): x.split()[:k] for x in L[:min(ia, im)] for k in [len([w for w in x.split() if w[:1] in '-0123456789.'])]}
        g.ensure('counts', head['atoms'] == [str(n)] and head['atom types'] == [str(len(types))])
        cm = np.array([[float(x) for x in r] for r in cell_of_cc(Num, st.cryst_const)])
        sc = np.abs(cm).max()
        for k, ax in enumerate('xyz'):
            lo, hi = [float(x) for x in head['%slo %shi' % (ax, ax)]]
            g.ensure('box ' + ax, lo == 0 and abs(hi - cm[k, k]) <= 1e-10 * sc)
        g.ensure('tilts', near([float(x) for x in head['xy xz yz']], [cm[1, 0], cm[2, 0], cm[2, 1]], 1e-10, 1e-10 * sc))
        end = im if im > ia else len(L)
        A = L[ia + 1:end]
        g.ensure('one line per atom', len(A) == n)
        X = np.dot(st.coords_frac, cm)
        for i in range(n):
            w = A[i].split()
            g.ensure('atom id and type', w[:2] == [str(i + 1), str(types.index(sy[i]) + 1)])
            g.ensure('coordinates', near([float(x) for x in w[2:]], X[i], 1e-10, 1e-10 * sc + 1e-12 * np.abs(st.coords_frac[i]).max() * sc))
        M = L[im + 1:(ia if ia > im else len(L))]
        pt = g.mod('atomic_data').pt
        g.ensure('masses', [x.split()[0] for x in M] == [str(k + 1) for k in range(len(types))]
                 and all(abs(float(x.split()[1]) - pt[y]['mass']) <= 1e-5 * pt[y]['mass'] for x, y in zip(M, types)))


class Num:
    import math as _m
    pi, sin, cos, sqrt = _m.pi, staticmethod(_m.sin), staticmethod(_m.cos), staticmethod(_m.sqrt)


@unit('C20', ['io.write_cif', 'io.read_cif'], mode='bounded', n=60, why='text output through PyCifRW', tmax=60)
def cif(g):
    """read back: same constants, fractional coordinates, symbols"""
    import numpy as np
    with Scratch():
        st, sy, n = makestruct(g)
        g.require(bool(np.all((st.cryst_const[3:] > 20) & (st.cryst_const[3:] < 160))))
        s, path = keeps(g, st, lambda: capture(lambda: written(g, 'io.write_cif', st))[0])
        import re
        val = lambda k: float(re.search(r'^_cell_%s\s+(\S+)' % k, s, re.M).group(1))
        names = ['length_a', 'length_b', 'length_c', 'angle_alpha', 'angle_beta', 'angle_gamma']
        g.ensure('cell constants', near([val(k) for k in names], st.cryst_const))
        c = capture(lambda: g.mod('io').read_cif(path))[0]
        g.ensure('symbols', list(c.symbols) == sy)
        g.ensure('coordinates', near(c.coords_frac, st.coords_frac))
        g.ensure('read back constants', near(c.cryst_const[3:], st.cryst_const[3:], 1e-10) and near(c.cryst_const[:3], st.cryst_const[:3], 1e-10))


@unit('C20', ['pwscf.atpos_str', 'pwscf.atpos_str_fast', 'common.str_arr', 'common.fix_eps'], mode='bounded', n=400, why='text output')
def atpos(g):
    """one line per atom: symbol and all columns (eps: smaller values become zero)"""
    import numpy as np
    n, m = g.count('n', 1, 6), g.int('columns', 3, 6)
    sy = syms(g, n)
    X = numbers(g, (n, m))
    if g.int('ints', 0, 5) == 0:
        X = np.round(X).astype(int)
    if g.int('lists', 0, 3) == 0:
        arg = X.tolist()
    else:
        arg = X
    x0 = np.array(X, copy=True)
    kw, eps = {}, EPS
    if g.flag('eps given'):
        eps = g.choose('eps', [1e-3, 0.5, -1.0])
        kw['eps'] = eps
    sep = None
    if g.flag('delim given'):
        kw['delim'] = g.choose('delim', [' ', ' | '])
        sep = kw['delim'].strip() or None
    rel = 1e-14
    if g.flag('fmt given'):
        kw['fmt'] = '%.4e'
        rel = 1e-4
    s = g.call('pwscf.atpos_str', sy, arg, **kw)
    L = s.rstrip('\n').split('\n')
    want = np.where(np.abs(X) <= eps, 0.0, X) if eps > 0 else X
    g.ensure('lines', len(L) == n)
    for i in range(n):
        w = [x.strip() for x in L[i].split(sep)]
        g.ensure('symbol', w[0] == sy[i])
        g.ensure('columns', near([float(x) for x in w[1:]], want[i], rel, EPS if eps > 0 else 0))
    f = g.call('pwscf.atpos_str_fast', sy, X).rstrip('\n').split('\n')
    g.ensure('fast: lines', len(f) == n)
    for i in range(n):
        w = f[i].split()
        g.ensure('fast: symbol', w[0] == sy[i])
        g.ensure('fast: columns', near([float(x) for x in w[1:]], X[i]))
    g.ensure('input kept', np.array_equal(X, x0))
    g.raises('symbols and rows', AssertionError, lambda: g.call('pwscf.atpos_str', sy + ['H'], X))


@unit('C20', ['common.str_arr'], mode='bounded', n=400, why='text output')
def str_arr(g):
    """one line per row, numbers read back are those written"""
    import numpy as np
    nd = g.int('ndim', 1, 2)
    shape = tuple(g.count('s%d' % k, 1, 5) for k in range(nd))
    X = numbers(g, shape)
    x0 = X.copy()
    eps = g.choose('eps', [None, -1.0, 0.0, 0.1])
    kw = {} if eps is None else {'eps': eps}
    dl = g.choose('delim', [None, ' ', ',', ', '])
    if dl is not None:
        kw['delim'] = dl
    s = g.call('common.str_arr', X.tolist() if g.flag('list') else X, **kw)
    rows = [[float(x) for x in r.split((dl or '').strip() or None)] for r in s.split('\n')]
    want = np.atleast_2d(X)
    e = EPS if eps is None else eps
    if e > 0:
        want = np.where(np.abs(want) <= e, 0.0, want)
    g.ensure('numbers', near(rows, want, 1e-15, EPS if e > 0 else 0))
    f = g.call('common.str_arr', X, fmt='%.3f', delim=' ')
    g.ensure('format', f == '\n'.join(' '.join('%.3f' % (0.0 if abs(x) <= np.finfo(float).eps else x) for x in r) for r in np.atleast_2d(X)))
    g.ensure('input kept', np.array_equal(X, x0))
    g.raises('rank 3', ValueError, lambda: g.call('common.str_arr', np.zeros((2, 2, 2))))


def triple(g, name, lo, hi):
    """sequence of three integers of several types"""
    import numpy as np
    v = [g.int('%s%d' % (name, k), lo, hi) for k in range(3)]
    return v, [list, tuple, np.array][g.int(name + ' type', 0, 2)](v)


@unit('C20', ['pwscf.kpoints_str', 'pwscf.kpoints_str_pwin', 'pwscf.kpoints_str_pwin_full', 'pwscf.atspec_str', 'common.seq2str'], mode='bounded', n=400, why='text output')
def blocks(g):
    """k-point and species blocks"""
    v, a = triple(g, 'k', 1, 12)
    if g.int('gamma point', 0, 4) == 0:
        v, a = [1, 1, 1], type(a)([1, 1, 1]) if not hasattr(a, 'dtype') else a * 0 + 1
    b = g.choose('base', [None, 'q', 'nr'])
    s = g.call('pwscf.kpoints_str', a, **({} if b is None else {'base': b}))
    g.ensure('kpoints_str', s.replace(' ', '') == ','.join('%s%d=%d' % (b or 'nk', k + 1, v[k]) for k in range(3)))
    kw, sh = {}, [0, 0, 0]
    if g.flag('shift given'):
        sh, x = triple(g, 'shift', 0, 1)
        kw['shift'] = x
    first = g.call('pwscf.kpoints_str_pwin', a, **kw)
    g.ensure('kpoints_str_pwin', first.split() == [str(x) for x in v + sh])
    g.ensure('again', g.call('pwscf.kpoints_str_pwin', a, **kw) == first)
    gm = g.choose('gamma', [None, True, False])
    f = g.call('pwscf.kpoints_str_pwin_full', a, **dict(kw, **({} if gm is None else {'gamma': gm})))
    L = f.strip().split('\n')
    if v == [1, 1, 1] and gm is not False:
        g.ensure('gamma', f.split() == ['K_POINTS', 'gamma'])
    else:
        g.ensure('automatic', L[0].split() == ['K_POINTS', 'automatic'] and L[1].split() == [str(x) for x in v + sh] and len(L) == 2)
    g.ensure('gamma by name', g.call('pwscf.kpoints_str_pwin_full', 'gamma').split() == ['K_POINTS', 'gamma'])
    n = g.count('n', 1, 4)
    sy = syms(g, n)
    m = [g.choose('mt%d' % k, [1.0, '2.5', 26.9815, 12]) for k in range(n)]
    pp = ['%s_%d.UPF' % (y, k) for k, y in enumerate(sy)]
    L = g.call('pwscf.atspec_str', sy, m, pp).strip().split('\n')
    g.ensure('species lines', [x.split() for x in L] == [[y, str(w), p] for y, w, p in zip(sy, m, pp)])
    g.raises('species lengths', AssertionError, lambda: g.call('pwscf.atspec_str', sy, m + [1.0], pp))


# ------------------------------------------------------------------ proofs: text as a rope of conversions (vc/text.py)

def zeroed(g, x, eps):
    return g.ite(g.lor(x > eps, x < -eps), x, 0.0)


@unit('C20', ['common.str_arr', 'common.fix_eps'])
def str_arr_text(g):
    """one line per row, every number in order with at least 17 digits; values up to eps become zero"""
    nd = g.choose('ndim', [1, 2])
    dims = tuple(g.dim('n%d' % k) for k in range(nd))
    a = g.reals('a', dims, samp=(-3, 3))
    a0 = g.snap(a)
    kw, eps = {}, EPSD
    how = g.choose('eps', ['default', 'positive', 'off'])
    if how == 'positive':
        eps = g.real('eps', 0, samp=(0, 2))
        g.require(eps > 0)
        kw['eps'] = eps
    if how == 'off':
        kw['eps'] = -1.0
    d = g.choose('delim', [None, ' ', '\t'])
    if d is not None:
        kw['delim'] = d
    t = g.call('common.str_arr', a, **kw)
    f = (lambda *ix: a0[ix]) if how == 'off' else (lambda *ix: zeroed(g, a0[ix], eps))
    if nd == 1:
        g.text('text', t, [[g.rep(dims[0], lambda i: f(i))]], digits=17)
    else:
        g.text('text', t, [g.rep(dims[0], lambda i: [[g.rep(dims[1], lambda j: f(i, j))]])], digits=17)
    g.unchanged('input unchanged', a, a0)


@unit('C20', ['pwscf.atpos_str', 'common.str_arr', 'common.fix_eps'])
def atpos_text(g):
    """one line per atom: symbol, all columns of that atom"""
    n, m = g.dim('n'), g.dim('m')
    sy = g.labels('sy', n)
    a = g.reals('a', (n, m), samp=(-3, 3))
    a0 = g.snap(a)
    kw, eps = {}, EPSD
    if g.flag('eps off'):
        kw['eps'] = -1.0
        eps = None
    t = g.call('pwscf.atpos_str', sy, a, **kw)
    f = (lambda i, j: a0[i, j]) if eps is None else (lambda i, j: zeroed(g, a0[i, j], eps))
    g.text('text', t, [g.rep(n, lambda i: [[sy[i], g.rep(m, lambda j: f(i, j))]])], digits=17)
    g.unchanged('input unchanged', a, a0)


@unit('C20', ['pwscf.atpos_str_fast'])
def atpos_fast_text(g):
    """one line per atom: symbol, all columns of that atom"""
    n, m = g.dim('n'), g.choose('m', [1, 2, 3, 6])
    sy = g.labels('sy', n)
    a = g.reals('a', (n, m), samp=(-3, 3))
    a0 = g.snap(a)
    t = g.call('pwscf.atpos_str_fast', sy, a)
    g.text('text', t, [g.rep(n, lambda i: [[sy[i], g.rep(m, lambda j: a0[i, j])]])], digits=17)
    g.unchanged('input unchanged', a, a0)


class out:
    """content of the file a writer writes"""

    def __init__(self, g):
        self.g, self.box = g, []

    def __enter__(self):
        if self.g.sym:
            self.g.override('common.file_write', lambda fn, txt: self.box.append((fn, txt)))
        else:
            self.dir = Scratch()
            self.dir.__enter__()
        return self

    def __exit__(self, *a):
        if not self.g.sym:
            self.dir.__exit__(*a)

    def call(self, fn, *a, also=(), **k):
        self.g.call(fn, 'out.txt', *a, **k)
        if self.g.sym:
            self.g.ensure('files', sorted(f for f, _ in self.box) == sorted(('out.txt',) + also))
            return dict(self.box)['out.txt']
        with open('out.txt') as fd:
            return fd.read()


def object_for_text(g):
    """structure or trajectory with its attributes as C06 establishes them; get_traj by its contract (C07.get_traj)"""
    n = g.dim('natoms')
    single = g.flag('structure')
    t = 1 if single else g.dim('nstep')
    lead = () if single else (t,)
    sy = g.labels('symbols', n)
    X, C = g.reals('coords', lead + (n, 3), samp=(-9, 9)), g.reals('cell', lead + (3, 3), samp=(-5, 5))
    if not g.sym:
        for c in C.reshape(-1, 3, 3):
            invertible(g, c)
    kw = dict(coords=X, cell=C)
    if g.flag('forces given'):
        kw['forces'] = g.reals('forces', lead + (n, 3), samp=(-9, 9))
    S = {k: g.snap(v) for k, v in kw.items()}
    if g.sym:
        o = g.call('crys.Structure' if single else 'crys.Trajectory', set_all_auto=False, symbols=sy, **kw)
        o.natoms = n
        if single:
            def get_traj(nstep):
                g.ensure('one step', nstep == 1)
                T = g.call('crys.Trajectory', set_all_auto=False, symbols=sy, **{k: g.array((1,) + v.shape, lambda s, *ix, v=v: v[ix]) for k, v in kw.items()})
                T.natoms, T.nstep = n, 1
                return T
            o.get_traj = get_traj
        else:
            o.nstep = t
    else:
        o = g.call('crys.Structure' if single else 'crys.Trajectory', symbols=sy, **kw)
    at = lambda k: (lambda s, *ix: S[k][ix]) if single else (lambda s, *ix: S[k][(s,) + ix])
    return o, n, t, sy, {k: at(k) for k in S}, S


@unit('C20', ['io.write_xyz', 'crys.struct2traj', 'pwscf.atpos_str_fast', 'crys.Structure.get_traj'])
def xyz_text(g):
    """for each step in order: number of atoms, comment line, one line per atom with its symbol and coordinates"""
    o, n, t, sy, at, S = object_for_text(g)
    nm = g.choose('name', [None, 'mol'])
    with out(g) as f:
        s = f.call('io.write_xyz', o, **({} if nm is None else {'name': nm}))
    nm = nm or 'pwtools_dummy_mol_name'
    g.text('text', s, [g.rep(t, lambda k: [[n], [(nm, '.', k + 1)], g.rep(n, lambda i: [[sy[i]] + [at['coords'](k, i, q) for q in range(3)]])])])
    g.unchanged('coordinates kept', o.coords, S['coords'])


@unit('C20', ['io.write_axsf', 'crys.struct2traj', 'pwscf.atpos_str_fast', 'common.str_arr', 'common.fix_eps'])
def axsf_text(g):
    """number of steps; for each step its cell, number of atoms, one line per atom with coordinates (and forces in Ha/Angstrom)"""
    o, n, t, sy, at, S = object_for_text(g)
    with out(g) as f:
        s = f.call('io.write_axsf', o)
    K = g.mod('constants')
    fac = g.toreal(K.eV) / g.toreal(K.Ha)
    row = lambda k, i: [sy[i]] + [at['coords'](k, i, q) for q in range(3)] + ([at['forces'](k, i, q) * fac for q in range(3)] if 'forces' in S else [])
    g.text('text', s, [['ANIMSTEPS', t], ['CRYSTAL'],
                       g.rep(t, lambda k: [['PRIMVEC', k + 1]] + [[zeroed(g, at['cell'](k, r, q), EPSD) for q in range(3)] for r in range(3)]
                             + [['PRIMCOORD', k + 1], [n, '1'], g.rep(n, lambda i: [row(k, i)])])])
    for k in S:
        g.unchanged(k + ' kept', getattr(o, k), S[k])


@unit('C20', ['io.wien_sgroup_input', 'io.write_wien_sgroup'])
def sgroup_text(g):
    """cell constants, number of atoms, for each atom its fractional coordinates and its name"""
    n = g.dim('natoms')
    sy = g.labels('symbols', n)
    X, C = g.reals('coords_frac', (n, 3), samp=(-2, 2)), g.reals('cell', (3, 3), samp=(-5, 5))
    if g.sym:
        cc = g.reals('cc', (6,))
        o = g.call('crys.Structure', set_all_auto=False, symbols=sy, coords_frac=X, cell=C, cryst_const=cc)
        o.natoms = n
    else:
        invertible(g, C)
        o = g.call('crys.Structure', symbols=sy, coords_frac=X, cell=C)
        cc = o.cryst_const
    lat = g.choose('lattice', [None, 'F'])
    with out(g) as f:
        s = f.call('io.write_wien_sgroup', o, **({} if lat is None else {'lat_symbol': lat}))
    g.text('text', s, [[lat or 'P'], [cc[q] for q in range(6)], [n], g.rep(n, lambda i: [[X[i, q] for q in range(3)], [sy[i]]])], comment='/')


@unit('C20', ['pwscf.kpoints_str', 'pwscf.kpoints_str_pwin', 'pwscf.kpoints_str_pwin_full', 'pwscf.atspec_str', 'common.seq2str'])
def blocks_text(g):
    """k-point and species blocks: every number and name in order"""
    v, sh = [g.int('k%d' % q, 1, samp=(1, 4)) for q in range(3)], [g.int('shift%d' % q, 0, 1) for q in range(3)]
    base = g.choose('base', ['nk', 'q'])
    what = g.choose('block', ['kpoints', 'shifted', 'plain', 'card', 'species', 'sequence'])
    if what == 'kpoints':
        s = g.call('pwscf.kpoints_str', v, **({} if base == 'nk' else {'base': base}))
        g.text('text', s, [[(base + '1=', v[0], ',%s2=' % base, v[1], ',%s3=' % base, v[2])]])
    elif what == 'shifted':
        g.text('text', g.call('pwscf.kpoints_str_pwin', v, shift=sh), [v + sh])
    elif what == 'plain':
        g.text('text', g.call('pwscf.kpoints_str_pwin', v), [v + ['0', '0', '0']])
    elif what == 'card':
        gamma = g.flag('gamma')
        s = g.call('pwscf.kpoints_str_pwin_full', v, shift=sh, gamma=gamma)
        one = g.land(v[0] == 1, v[1] == 1, v[2] == 1)
        if gamma and one:
            g.text('text', s, [['K_POINTS', 'gamma']])
        else:
            g.text('text', s, [['K_POINTS', 'automatic'], v + sh])
    elif what == 'species':
        n = g.dim('n')
        sy, pp = g.labels('symbols', n), g.labels('pseudo', n, alphabet=('a.UPF', 'b.UPF'))
        m = g.reals('masses', (n,), samp=(1, 200))
        s = g.call('pwscf.atspec_str', sy, m, pp)
        g.text('text', s, [g.rep(n, lambda i: [[sy[i], m[i], pp[i]]])])
    else:
        n = g.dim('n')
        a = g.reals('a', (n,), samp=(-3, 3))
        g.text('text', g.call('common.seq2str', a), [[g.rep(n, lambda i: a[i])]])


class Order:
    """species number of each symbol"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, sy):
        return self.f(sy)


@unit('C20', ['lammps.struct_str', 'io.write_lammps', 'common.str_arr', 'common.fix_eps'])
def lammps_text(g):
    """numbers of atoms and species, box and tilts of the cell in standard orientation, one record per atom in order with
    number, species and coordinates, one mass per species.  Symbolically, the copy in standard orientation is known by its
    class invariant (C06: set_all)"""
    n = g.dim('natoms')
    uniq = g.choose('species', [['Al'], ['H', 'O'], ['Al', 'Ca', 'Si']])
    sy = g.labels('symbols', n, alphabet=tuple(uniq))
    if g.sym:
        Structure = g.mod('crys').Structure
        X, C = g.reals('coords', (n, 3)), g.reals('cell', (3, 3))
        from vc import core
        import z3
        F = z3.Function('species', core.OBJ, z3.IntSort())
        f = lambda y: core.Sym(core.I, F(y.e))
        src = g.call('crys.Structure', set_all_auto=False, symbols=sy, coords=g.reals('given coords', (n, 3)), cell=g.reals('given cell', (3, 3)),
                     cryst_const=g.reals('cc', (6,)), coords_frac=g.reals('cf', (n, 3)))
        o = g.call('crys.Structure', set_all_auto=False, symbols=sy, cryst_const=src.cryst_const, coords_frac=src.coords_frac)
        src.copy = lambda: o

        def set_all():
            g.ensure('cell and coordinates derived anew', o.cell is None and o.coords is None)
            o.natoms, o.symbols_unique, o.order, o.coords, o.cell = n, list(uniq), Order(f), X, C
        o.set_all = set_all
    else:
        X, C = g.reals('coords', (n, 3), samp=(-9, 9)), g.reals('cell', (3, 3), samp=(-5, 5))
        invertible(g, C)
        g.require(set(sy) == set(uniq))
        src = g.call('crys.Structure', symbols=sy, coords=X, cell=C)
        t = src.copy()
        t.cell = t.coords = None
        t.set_all()
        X, C, f = t.coords, t.cell, lambda s: uniq.index(s) + 1
    with out(g) as fl:
        s = fl.call('io.write_lammps', src, also=('lmp.struct.symbols',))
        y = dict(fl.box)['lmp.struct.symbols'] if g.sym else open('lmp.struct.symbols').read()
    g.text('symbols file', y, [g.rep(n, lambda i: [[sy[i]]])])
    z = lambda x: zeroed(g, x, 1e-13)
    pt = g.mod('atomic_data').pt
    g.text('text', s, [[...], [n, 'atoms'], [len(uniq), 'atom', 'types'], ['0.0', C[0, 0], 'xlo', 'xhi'], ['0.0', C[1, 1], 'ylo', 'yhi'],
                       ['0.0', C[2, 2], 'zlo', 'zhi'], [z(C[1, 0]), z(C[2, 0]), z(C[2, 1]), 'xy', 'xz', 'yz'], ['Atoms'],
                       g.rep(n, lambda i: [[i + 1, f(sy[i])] + [z(X[i, q]) for q in range(3)]]), ['Masses']]
           + [[k + 1, '%g' % pt[y]['mass']] for k, y in enumerate(uniq)], digits=14)
