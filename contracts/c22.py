from vc.harness import unit
from .spec import *
from .c26 import capture

# factors to eV, Angstrom, eV/Angstrom, GPa, Angstrom/fs, fs (CODATA values, independent of pwtools.constants)
RY, BOHR, HA = 13.6056919, 0.529177209, 27.2113838
THART, TRYD = 0.02418884326, 0.04837768652
QE = {'energy': RY, 'length': BOHR, 'forces': RY / BOHR, 'stress': 0.1}
CPMD = {'energy': HA, 'length': BOHR, 'forces': HA / BOHR, 'stress': 0.1}
CP2K = {'energy': HA, 'forces': HA / BOHR}
LMP = {'stress': 1e-4, 'velocity': 1e-3, 'time': 1e3}
AUV = BOHR / THART
DEFAULTS = {
    'CifFile': {}, 'PDBFile': {},
    'PwSCFOutputFile': QE, 'PwMDOutputFile': dict(QE, time=TRYD), 'PwVCMDOutputFile': dict(QE, time=TRYD),
    'CpmdSCFOutputFile': CPMD, 'CpmdMDOutputFile': dict(CPMD, time=THART, velocity=AUV),
    'Cp2kSCFOutputFile': CP2K, 'Cp2kMDOutputFile': dict(CP2K, stress=1e-4, velocity=AUV), 'Cp2kRelaxOutputFile': dict(CP2K, stress=1e-4, velocity=AUV),
    'Cp2kDcdMDOutputFile': dict(CP2K, stress=1e-4, velocity=AUV),
    'LammpsTextMDOutputFile': LMP, 'LammpsDcdMDOutputFile': LMP,
}
UNITS = {'length': ['cell', 'coords'], 'energy': ['etot', 'ekin'], 'stress': ['stress'], 'forces': ['forces'], 'temperature': ['temperature'],
         'velocity': ['velocity'], 'time': ['timestep']}


def close(a, b, tol=1e-5):
    return abs(float(a) - b) <= tol * abs(b)


def state(mod):
    """everything stored on the parser classes"""
    import copy
    return {c.__name__: {k: copy.deepcopy(v) for k, v in vars(c).items() if isinstance(v, (dict, list, int, float, str, tuple, type(None))) and k[:2] != '__'}
            for c in vars(mod).values() if isinstance(c, type) and c.__module__ == mod.__name__}


@unit('C22', ['parse.StructureFileParser.__init__', 'parse.PwMDOutputFile.__init__', 'parse.CpmdMDOutputFile.__init__', 'parse.Cp2kMDOutputFile.__init__',
              'parse.LammpsTextMDOutputFile.__init__', 'crys.UnitsHandler.update_units'], fork={'class': 13})
def construct(g):
    """units of a parser: those of the code, overridden by the user's; frame: no class and no argument changes, so no history can matter"""
    mod = g.mod('parse')
    name = g.choose('class', list(DEFAULTS))
    user = {}
    for k in UNITS:
        if k in g.choose('user', ['', 'length energy', 'stress velocity time', 'forces temperature stress']).split():
            user[k] = g.real('unit_' + k, samp=(g.frac(1, 2), 3))
            if g.sym:
                g.require(user[k] > 0)
    given = dict(user)
    before = state(mod)
    C = g.attr('parse.' + name)
    p = C(units=user) if user or g.flag('units given') else C()
    for k in UNITS:
        if k in given:
            g.ensure('user unit wins', g.close(p.units[k], given[k]))
        else:
            g.ensure('unit of the code', close(p.units[k], DEFAULTS[name].get(k, 1.0)))
    g.ensure('argument kept', list(user) == list(given) and all(user[k] is given[k] for k in given))
    g.ensure('classes kept', state(mod) == before)
    q = C()
    for k in UNITS:
        g.ensure('next parser', close(q.units[k], DEFAULTS[name].get(k, 1.0)))
    g.ensure('own units', q.units is not p.units)
    g.raises('unknown unit', Exception, lambda: C(units={'foo': 1.0}))


def stub(g, base, attrs):
    """parser whose getters return the given values"""
    C = g.attr('parse.' + base)
    d = {'get_' + k: (lambda v: lambda self: v)(v) for k, v in attrs.items()}

    def init(self, **kw):
        C.__init__(self, **kw)
        self.attr_lst = list(attrs)
        self.init_attr_lst()
    d['__init__'] = init
    for k in list(UNITS) and ['cell', 'coords', 'coords_frac', 'symbols', 'forces', 'stress', 'etot', 'cryst_const', 'natoms', 'volume', 'pressure', 'ekin',
                              'temperature', 'velocity', 'timestep']:
        d.setdefault(k, None)
    return type('Stub', (C,), d)


@unit('C22', ['parse.StructureFileParser.get_cont', 'parse.StructureFileParser.parse', 'parse.StructureFileParser.get_struct', 'parse.TrajectoryFileParser.get_traj'],
      fork={'base': 2, 'user units': 7})
def container(g):
    """what the getters found times the factor, once, however often and from however many parsers it is requested"""
    base = g.choose('base', ['StructureFileParser', 'TrajectoryFileParser'])
    traj = base[0] == 'T'
    n = g.dim('n')
    pre = (g.dim('steps', lo=3),) if traj else ()
    raw = {'coords': g.reals('coords', pre + (n, 3), samp=(-4, 4)), 'cell': g.reals('cell', (3, 3) if g.flag('fixed cell') else pre + (3, 3), samp=(-4, 4)),
           'forces': g.reals('forces', pre + (n, 3)), 'stress': g.reals('stress', pre + (3, 3))}
    if traj:
        raw.update(etot=g.reals('etot', pre), velocity=g.reals('velocity', pre + (n, 3)), timestep=g.real('timestep', lo=0.1))
    else:
        raw['etot'] = g.real('etot')
    u = {}
    for k in g.choose('user units', ['length', 'energy', 'stress', 'forces', 'velocity', 'time', 'length energy' ]).split():
        u[k] = g.real('unit_' + k, samp=(g.frac(1, 2), 3))
        g.require(u[k] > 0)
    S = {k: g.snap(v) if hasattr(v, 'shape') else v for k, v in raw.items()}
    C = stub(g, base, raw)
    p = C(units=u)
    auto = False
    kw = {'auto_calc': False}

    def check(tag, c):
        for unit, names in UNITS.items():
            for a in names:
                if a in raw:
                    A, R = getattr(c, a), S[a]
                    f = u.get(unit, 1)
                    if not getattr(R, 'shape', ()):
                        g.ensure(tag + a, g.close(A, R * f))
                    elif a == 'cell' and traj and len(R.shape) == 2:
                        g.shape(tag + a, A, pre + (3, 3))
                        g.forall(tag + a, pre + (3, 3), lambda t, i, j: g.close(A[t, i, j], R[i, j] * f))
                    else:
                        g.shape(tag + a, A, R.shape)
                        g.forall(tag + a, R.shape, lambda *ix: g.close(A[tuple(ix)], R[tuple(ix)] * f))
    get = g.choose('get', ['get_cont', 'get_struct or get_traj'])
    name = 'get_cont' if get == 'get_cont' else 'get_traj' if traj else 'get_struct'
    c1 = getattr(p, name)(**kw)
    check('', c1)
    c2 = getattr(p, name)(**kw)
    check('again: ', c2)
    check('first still: ', c1)
    for k, v in raw.items():
        if hasattr(v, 'shape'):
            g.unchanged('parsed %s kept' % k, v, S[k])
    c3 = C(units=u).get_cont(**kw)
    check('other parser: ', c3)
    g.raises('units are applied by the container', NotImplementedError, p.apply_units)
    if traj:
        g.raises('no struct', NotImplementedError, p.get_struct)


@unit('C22', ['parse.PwSCFOutputFile.get_coords', 'parse.PwSCFOutputFile.get_cell', 'parse.PwSCFOutputFile.get_stress', 'parse.PwSCFOutputFile.get_forces',
              'parse.PwSCFOutputFile.get_etot', 'base.FlexibleGetters.raw_slice_get'])
def pw_scf(g):
    """start coordinates and cell in alat units become Bohr; first step's values; forces of the first natoms lines"""
    p = g.attr('parse.PwSCFOutputFile')()
    n, m, t = g.dim('n'), g.dim('more', lo=0), g.dim('steps')
    a = g.real('alat', lo=0.1)
    X, Cl = g.reals('coords', (n, 3)), g.reals('cell', (3, 3))
    F, St, E = g.reals('forces', (t, n + m, 3)), g.reals('stress', (t, 3, 3)), g.reals('etot', (t,))
    SX, SC, SF, SS, SE = map(g.snap, (X, Cl, F, St, E))
    p._coords_symbols = {'coords': X, 'symbols': ['H']}
    p._cell_2d, p.alat, p.natoms = Cl, a, n
    p._forces_raw, p._stress_raw, p._etot_raw = F, St, E
    c = p.get_coords()
    g.shape('coords shape', c, (n, 3))
    g.forall('coords', (n, 3), lambda i, j: g.close(c[i, j], SX[i, j] * a))
    b = p.get_cell()
    g.forall('cell', (3, 3), lambda i, j: g.close(b[i, j], SC[i, j] * a))
    f, s, e = p.get_forces(), p.get_stress(), p.get_etot()
    g.shape('forces shape', f, (n, 3))
    g.forall('forces', (n, 3), lambda i, j: g.close(f[i, j], SF[0, i, j]))
    g.forall('stress', (3, 3), lambda i, j: g.close(s[i, j], SS[0, i, j]))
    e0 = e if not getattr(e, 'shape', ()) else e[0]
    g.ensure('etot', g.close(e0, SE[0]))
    for x, y in ((X, SX), (Cl, SC), (F, SF), (St, SS), (E, SE)):
        g.unchanged('parsed data kept', x, y)


@unit('C22', ['parse.PwMDOutputFile.get_coords', 'parse.PwMDOutputFile.get_coords_frac', 'parse.PwMDOutputFile.get_cell'], fork={'coords unit': 5, 'cell unit': 5})
def pw_md(g):
    """coordinates and cell of every block in Bohr by the unit named in the block header"""
    p = g.attr('parse.PwMDOutputFile')()
    n, t = g.dim('n'), g.dim('steps')
    a = g.real('alat', lo=0.1)
    X, Cl = g.reals('coords', (t, n, 3)), g.reals('cell', (t, 3, 3))
    S, SC = g.snap(X), g.snap(Cl)
    cu = g.choose('coords unit', ['bohr', None, 'alat', 'angstrom', 'crystal'])
    lu = g.choose('cell unit', ['bohr', 'alat', 'angstrom', None, 'alat=', ])
    ang = 1 / BOHR
    near = lambda x, y: g.land(x - y <= 1e-5 * g.abs(y), y - x <= 1e-5 * g.abs(y))
    p._coords, p.alat, p.natoms, p._cell_3d = X, a, n, Cl
    p.get_coords_unit = lambda: cu
    p.get_cell_unit = lambda: lu if lu != 'alat=' else 'alat'
    fac = None
    if lu == 'alat=':
        fac = g.reals('factors', (t,))
    p._get_cell_3d_factors = lambda: fac
    c, f = p.get_coords(), p.get_coords_frac()
    if cu is None:
        g.ensure('no unit: nothing', c is None)
    elif cu == 'crystal':
        g.ensure('fractional only', c is None)
        g.forall('coords_frac', (t, n, 3), lambda k, i, j: g.close(f[k, i, j], S[k, i, j]))
    else:
        w = {'bohr': 1, 'alat': a, 'angstrom': ang}[cu]
        g.ensure('cartesian only', f is None)
        g.forall('coords', (t, n, 3), lambda k, i, j: near(c[k, i, j], S[k, i, j] * w))
    b = p.get_cell()
    w = {'bohr': lambda k: 1, 'alat': lambda k: a, None: lambda k: a, 'angstrom': lambda k: ang, 'alat=': lambda k: fac[k]}[lu]
    g.forall('cell', (t, 3, 3), lambda k, i, j: near(b[k, i, j], SC[k, i, j] * w(k)))
    g.unchanged('parsed coords kept', X, S)
    g.unchanged('parsed cell kept', Cl, SC)


@unit('C22', ['parse.PwMDOutputFile._match_nstep', 'parse.PwMDOutputFile.get_stress', 'parse.PwMDOutputFile.get_etot', 'parse.PwMDOutputFile.get_forces'])
def pw_match(g):
    """as many entries as there are coordinate blocks, dropping those of the initial run"""
    p = g.attr('parse.PwMDOutputFile')()
    n, t, ex = g.dim('n'), g.dim('steps'), g.dim('extra', lo=0)
    p._coords, p.natoms = g.reals('coords', (t, n, 3)), n
    F, St, E = g.reals('forces', (t + ex, 2 * n, 3)), g.reals('stress', (t + ex, 3, 3)), g.reals('etot', (t + ex,))
    p._forces_raw, p._stress_raw, p._etot_raw = F, St, E
    f, s, e = p.get_forces(), p.get_stress(), p.get_etot()
    g.shape('forces shape', f, (t, n, 3))
    g.shape('etot shape', e, (t,))
    g.forall('forces', (t, n, 3), lambda k, i, j: g.close(f[k, i, j], F[k + ex, i, j]))
    g.forall('stress', (t, 3, 3), lambda k, i, j: g.close(s[k, i, j], St[k + ex, i, j]))
    g.forall('etot', (t,), lambda k: g.close(e[k], E[k + ex]))
    q = g.attr('parse.PwMDOutputFile')()
    q._coords, q.natoms = p._coords, n
    q._get_forces_raw = q._get_stress_raw = q._get_etot_raw = lambda: None
    g.ensure('nothing found', q.get_forces() is None and q.get_stress() is None and q.get_etot() is None)


@unit('C22', ['parse.Cp2kMDOutputFile._cp2k_repack_arr', 'parse.Cp2kMDOutputFile.get_stress', 'parse.Cp2kMDOutputFile.get_cell', 'parse.Cp2kMDOutputFile.get_volume',
              'parse.Cp2kMDOutputFile.get_ekin', 'parse.Cp2kMDOutputFile.get_etot', 'parse.Cp2kMDOutputFile.get_econst', 'parse.Cp2kMDOutputFile.get_temperature'])
def cp2k_md(g):
    """columns of the cell, stress and energy files"""
    p = g.attr('parse.Cp2kMDOutputFile')()
    t = g.dim('steps')
    Cl, St, E = g.reals('cell', (t, 12)), g.reals('stress', (t, 11)), g.reals('ener', (t, 7))
    SC, SS, SE = map(g.snap, (Cl, St, E))
    p._cell_file_arr, p._stress_file_arr, p._ener_file_arr = Cl, St, E
    c, s, v = p.get_cell(), p.get_stress(), p.get_volume()
    g.shape('cell shape', c, (t, 3, 3))
    g.shape('stress shape', s, (t, 3, 3))
    g.forall('cell', (t,), lambda k: g.land(*[g.close(c[k, i, j], SC[k, 2 + 3 * i + j]) for i in range(3) for j in range(3)]))
    g.forall('stress', (t,), lambda k: g.land(*[g.close(s[k, i, j], SS[k, 2 + 3 * i + j]) for i in range(3) for j in range(3)]))
    g.forall('volume', (t,), lambda k: g.close(v[k], SC[k, 11]))
    for a, col in (('ekin', 2), ('temperature', 3), ('etot', 4), ('econst', 5)):
        x = getattr(p, 'get_' + a)()
        g.shape(a + ' shape', x, (t,))
        g.forall(a, (t,), lambda k: g.close(x[k], SE[k, col]))


@unit('C22', ['parse.LammpsTextMDOutputFile.get_stress', 'parse.LammpsTextMDOutputFile.get_cryst_const', 'parse.LammpsTextMDOutputFile.get_etot',
              'parse.LammpsTextMDOutputFile.get_ekin', 'parse.LammpsTextMDOutputFile.get_volume', 'crys.voigt2tensor3d'])
def lammps_thermo(g):
    """columns of the thermo output"""
    p = g.attr('parse.LammpsTextMDOutputFile')()
    t = g.dim('steps')
    V = 'xx yy zz xy xz yz'.split()
    CC = 'Cella Cellb Cellc CellAlpha CellBeta CellGamma'.split()
    names = ['P' + v for v in V] + CC + ['PotEng', 'KinEng', 'Temp', 'Volume']
    p._thermo_dct = D = {k: g.reals(k, (t,)) for k in names}
    s, cc = p.get_stress(), p.get_cryst_const()
    g.shape('stress shape', s, (t, 3, 3))
    g.shape('cryst_const shape', cc, (t, 6))
    for i in range(3):
        for j in range(3):
            w = D['P' + 'xyz'[min(i, j)] + 'xyz'[max(i, j)]]
            g.forall('stress', (t,), lambda k: g.close(s[k, i, j], w[k]))
    for q, nm in enumerate(CC):
        g.forall('cryst_const', (t,), lambda k: g.close(cc[k, q], D[nm][k]))
    for a, nm in (('etot', 'PotEng'), ('ekin', 'KinEng'), ('temperature', 'Temp'), ('volume', 'Volume')):
        x = getattr(p, 'get_' + a)()
        g.forall(a, (t,), lambda k: g.close(x[k], D[nm][k]))
    p._thermo_dct = {k: v for k, v in D.items() if k not in ('Pyz', 'CellBeta', 'PotEng')}
    g.ensure('not written: nothing', p.get_stress() is None and p.get_cryst_const() is None and p.get_etot() is None)


def num(g, name, lo=-9, hi=9, d=6):
    return round(float(g.real(name, samp=(lo, hi))), d)


def arr(g, name, shape, lo=-9, hi=9, d=6):
    import numpy as np
    return np.round(np.asarray(g.reals(name, shape, samp=(lo, hi)), float), d)


def rows(a, fmt='%15.8f', pre=''):
    return ''.join(pre + ' '.join(fmt % x for x in r) + '\n' for r in a)


def expect(g, tag, c, want, names=None, tol=2e-6):
    """attributes of the container"""
    import numpy as np
    for k, v in want.items():
        x = getattr(c, k)
        if v is None:
            g.ensure(tag + k + ' absent', x is None)
        elif k == 'symbols':
            g.ensure(tag + k, list(x) == list(v))
        else:
            v = np.asarray(v, float)
            g.ensure(tag + k + ' shape', np.shape(x) == v.shape)
            g.ensure(tag + k, bool(np.all(np.abs(np.asarray(x) - v) <= tol * np.abs(v) + 1e-12)))


def factors(g, name):
    """default factors, some overridden by the user"""
    d = {k: DEFAULTS[name].get(k, 1.0) for k in UNITS}
    kw = {}
    if g.flag('user units'):
        u = {k: 0.5 + abs(num(g, 'uf_' + k)) for k in g.choose('which', ['length', 'energy stress', 'time velocity forces length']).split()}
        kw['units'] = u
        d.update(u)
    return d, kw


SYM = ['H', 'Al', 'Si', 'Na', 'O']


def other(g):
    """some parsers are used in between"""
    P = g.mod('parse')
    for i in range(g.int('others', 0, 3)):
        n = list(DEFAULTS)[g.int('other%d' % i, 0, len(DEFAULTS) - 1)]
        getattr(P, n)(**({'units': {'length': 3.0, 'stress': 7.0}} if g.flag('other units %d' % i) else {}))


def parse_twice(g, name, fn, kw, want, get):
    import numpy as np
    other(g)
    C = g.attr('parse.' + name)
    p = C(fn, **kw) if fn is not None else C(**kw)
    c = capture(lambda: getattr(p, get)())[0]
    expect(g, '', c, want)
    other(g)
    expect(g, 'again: ', capture(lambda: getattr(p, get)())[0], want)
    expect(g, 'new parser: ', capture(lambda: getattr(C(fn, **kw), get)())[0], want)


def pw_start(g, n, sy, alat, cell, X):
    s = '     lattice parameter (a_0)   = %12.4f  a.u.\n     number of atoms/cell      = %12d\n     number of k points=    8\n' % (alat, n)
    s += '     crystal axes: (cart. coord. in units of %s)\n' % ['a_0', 'alat'][g.int('qe version', 0, 1)]
    s += ''.join('               a(%d) = ( %s )  \n' % (i + 1, ' '.join('%11.6f' % x for x in cell[i])) for i in range(3)) + '\n'
    s += '     site n.     atom                  positions (a_0 units)\n'
    s += ''.join('        %2d           %s  tau(%3d) = ( %s  )\n' % (i + 1, sy[i], i + 1, ' '.join('%12.7f' % x for x in X[i])) for i in range(n)) + '\n'
    return s


def pw_step(n, E, F, S, press, nscf=9):
    s = '!    total energy              = %16.8f Ry\n     estimated scf accuracy    <          1.0E-09 Ry\n\n' % E
    s += '     convergence has been achieved in %3d iterations\n\n     Forces acting on atoms (Ry/au):\n\n' % nscf
    s += ''.join('     atom %3d type  1   force = %s\n' % (i + 1, ' '.join('%13.8f' % x for x in F[i])) for i in range(n))
    s += '\n     Total force =     0.028531     Total SCF correction =     0.000001\n\n'
    s += '          total   stress  (Ry/bohr**3)                   (kbar)     P=%8.2f\n' % press
    s += ''.join('%14.8f%14.8f%14.8f  %s\n' % (1.5, 2.5, 3.5, ' '.join('%10.2f' % x for x in S[i])) for i in range(3)) + '\n'
    return s


@unit('C22', ['parse.PwSCFOutputFile', 'parse.PwSCFOutputFile.get_alat'], mode='bounded', n=60, why='text files', tmax=60)
def pw_scf_file(g):
    """generated SCF output: all attributes in standard units"""
    n = g.count('n', 1, 4, 12)
    sy = [SYM[g.int('sy%d' % i, 0, 4)] for i in range(n)]
    alat, cell, X = round(5 + abs(num(g, 'alat')), 4), arr(g, 'cell', (3, 3)), arr(g, 'X', (n, 3))
    vol = abs(__import__('numpy').linalg.det(cell))
    g.require(vol > 0.5)
    F, S, E = arr(g, 'F', (n, 3)), arr(g, 'S', (3, 3), -90, 90, 2), num(g, 'E', -900, 0)
    found = g.flag('forces and stress')
    txt = pw_start(g, n, sy, alat, cell, X)
    txt += pw_step(n, E, F, S, -3.5) if found else '!    total energy              = %16.8f Ry\n' % E
    f, kw = factors(g, 'PwSCFOutputFile')
    al = alat
    if g.flag('no alat'):
        kw['use_alat'] = False
        al = 1.0
    L = f['length'] * al
    with Scratch():
        open('pw.out', 'w').write(txt)
        want = {'cell': cell * L, 'coords': X * L, 'symbols': sy, 'etot': E * f['energy'], 'natoms': n, 'volume': vol * L ** 3,
                'forces': F * f['forces'] if found else None, 'stress': S * f['stress'] if found else None}
        parse_twice(g, 'PwSCFOutputFile', 'pw.out', kw, want, 'get_struct')


@unit('C22', ['parse.PwMDOutputFile', 'parse.PwMDOutputFile._get_block_header_unit', 'parse.PwMDOutputFile._get_cell_3d_factors'], mode='bounded', n=80, why='text files', tmax=80)
def pw_md_file(g):
    """generated MD / relax output with all unit conventions of the block headers"""
    import numpy as np
    n, t = g.count('n', 1, 4, 12), g.count('steps', 3, 5)
    sy = [SYM[g.int('sy%d' % i, 0, 4)] for i in range(n)]
    alat, cell, X0 = round(5 + abs(num(g, 'alat')), 4), arr(g, 'cell', (3, 3)), arr(g, 'X0', (n, 3))
    g.require(abs(np.linalg.det(cell)) > 0.5)
    X = arr(g, 'X', (t, n, 3))
    md = g.flag('initial run not repeated')          # md: ATOMIC_POSITIONS printed for steps 1..; extra first SCF block
    ex = 1 if md else 0
    F, S, E = arr(g, 'F', (t + ex, n, 3)), arr(g, 'S', (t + ex, 3, 3), -90, 90, 2), arr(g, 'E', (t + ex,), -900, 0)
    T, K = arr(g, 'T', (t,), 10, 900, 4), arr(g, 'K', (t,), 0, 5)
    dt = round(20 + abs(num(g, 'dt')), 2)
    cu = g.choose('coords unit', ['(alat)', '(angstrom)', '(bohr)', '(crystal)', '{alat}', 'alat'])
    vc = g.choose('cell blocks', [None, '(alat)', '(alat= )', '(bohr)', '(angstrom)', ''])
    C = arr(g, 'C', (t, 3, 3)) + 3 * np.eye(3)
    fac = np.round(alat * (np.ones(t) if g.flag('constant alat') else 1 + 0.01 * np.arange(t)), 8)
    txt = pw_start(g, n, sy, alat, cell, X0)
    txt += '     Time step             = %8.2f a.u.,  7.2567 femto-seconds\n' % dt
    for i in range(t + ex):
        txt += pw_step(n, E[i], F[i], S[i], -1.25)
        k = i - ex if md else i
        if k < 0:
            continue
        if vc is not None:
            txt += ('CELL_PARAMETERS %s\n' % (vc if vc != '(alat= )' else '(alat= %12.8f)' % fac[k])) + rows(C[k], '%14.9f') + '\n'
        txt += 'ATOMIC_POSITIONS %s\n' % cu + ''.join('%-3s %s\n' % (sy[i], ' '.join('%14.9f' % x for x in X[k][i])) for i in range(n)) + '\n\n'
        txt += '     kinetic energy (Ekin) = %14.8f Ry\n     temperature           = %16.8f K \n\n' % (K[k], T[k])
    f, kw = factors(g, 'PwMDOutputFile')
    al = alat
    if g.flag('no alat'):
        kw['use_alat'] = False
        al = 1.0
    cub = cu.strip('(){}')
    xf = {'alat': al, 'angstrom': 1 / BOHR, 'bohr': 1.0, 'crystal': None}[cub]
    if vc is None:
        Cw = np.array([cell * al] * t)
    else:
        Cw = C * {'(alat)': al, '': al, '(bohr)': 1.0, '(angstrom)': 1 / BOHR,
                  '(alat= )': (fac[:, None, None] if 'use_alat' not in kw else 1.0)}[vc]
    g.require(min(abs(np.linalg.det(x)) for x in Cw) > 0.2)
    L = f['length']
    want = {'cell': Cw * L, 'symbols': sy, 'etot': E[ex:] * f['energy'], 'ekin': K * f['energy'], 'natoms': n, 'forces': F[ex:] * f['forces'],
            'stress': S[ex:] * f['stress'], 'temperature': T * f['temperature'], 'timestep': dt * f['time'], 'nstep': t}
    if xf is None:
        want['coords_frac'] = X
    else:
        want['coords'] = X * xf * L
    with Scratch():
        open('pw.out', 'w').write(txt)
        parse_twice(g, 'PwMDOutputFile', 'pw.out', kw, want, 'get_traj')


@unit('C22', ['parse.Cp2kMDOutputFile', 'parse.Cp2kMDOutputFile._cp2k_xyz2arr', 'parse.Cp2kSCFOutputFile'], mode='bounded', n=60, why='text files', tmax=60)
def cp2k_files(g):
    """generated CP2K MD and SCF output, MD and SCF stress in different units, in any order"""
    import numpy as np, os
    n, t = g.count('n', 1, 4, 12), g.count('steps', 3, 5)
    sy = [SYM[g.int('sy%d' % i, 0, 4)] for i in range(n)]
    cell = arr(g, 'cell', (t, 3, 3)) + 4 * np.eye(3)
    g.require(min(abs(np.linalg.det(x)) for x in cell) > 0.2)
    S = arr(g, 'S', (t, 3, 3), -9e4, 9e4)
    X, F, V = arr(g, 'X', (t, n, 3)), arr(g, 'F', (t, n, 3)), arr(g, 'V', (t, n, 3))
    ener = arr(g, 'ener', (t, 7), -50, 500)
    dt = round(0.5 + abs(num(g, 'dt')), 2)
    has = {k: g.flag('has ' + k) for k in ('frc', 'vel', 'stress')}

    def xyz(A):
        return ''.join('%8d\n i = %8d, time = %12.3f, E = %20.10f\n' % (n, k, 0.5 * k, -23.5) +
                       ''.join(' %-3s %s\n' % (sy[i], ' '.join('%19.10f' % x for x in A[k, i])) for i in range(n)) for k in range(t))
    scf = g.flag('scf')
    with Scratch():
        os.mkdir('d')
        cols = lambda A: np.concatenate((np.array([[k, 0.5 * k] for k in range(t)]), A), axis=1)
        head = '#   Step   Time [fs]   more\n'
        open('d/PROJECT-1.cell', 'w').write(head + rows(cols(np.concatenate((cell.reshape(t, 9), np.abs(np.linalg.det(cell))[:, None]), axis=1)), '%18.10f'))
        open('d/PROJECT-1.ener', 'w').write(head + rows(ener, '%18.9f'))
        if has['stress']:
            open('d/PROJECT-1.stress', 'w').write(head + rows(cols(S.reshape(t, 9)), '%20.10f'))
        open('d/PROJECT-pos-1.xyz', 'w').write(xyz(X))
        if has['frc']:
            open('d/PROJECT-frc-1.xyz', 'w').write(xyz(F))
        if has['vel']:
            open('d/PROJECT-vel-1.xyz', 'w').write(xyz(V))
        frc = ''.join(' ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n' +
                      ''.join('%7d      1      %-4s %s\n' % (i + 1, sy[i], ' '.join('%18.10f' % x for x in F[k, i])) for i in range(n)) +
                      ' SUM OF ATOMIC FORCES           0.1    0.1  0.2     0.3\n\n' for k in range(t))
        open('d/cp2k.out', 'w').write(' GLOBAL| Run type                              MD\n MD| Number of Time Steps            %d\n MD| Time Step [fs]          %8.2f\n'
                                      '                      Number of atoms: %9d\n' % (t, dt, n) + ('' if has['frc'] else frc))
        sf = arr(g, 'SF', (n, 3))
        SS, SE = arr(g, 'SS', (3, 3)), num(g, 'SE', -90, -1)
        open('scf.out', 'w').write(' GLOBAL| Run type                             ENERGY_FORCE\n ENERGY| Total FORCE_EVAL ( QS ) energy (a.u.):              %.12f\n\n\n'
                                   ' ATOMIC FORCES in [a.u.]\n\n # Atom   Kind   Element          X              Y              Z\n' % SE +
                                   ''.join('%7d      1      %-4s %s\n' % (i + 1, sy[i], ' '.join('%14.8f' % x for x in sf[i])) for i in range(n)) +
                                   ' SUM OF ATOMIC FORCES           0.1    0.1  0.2     0.3\n\n' +
                                   (' STRESS TENSOR [GPa]\n\n            X               Y               Z\n' +
                                    ''.join('  %s %s\n' % ('XYZ'[i], ' '.join('%15.8f' % x for x in SS[i])) for i in range(3)) + '\n' if has['stress'] else ''))

        def one(which):
            if which == 'scf':
                f, kw = factors(g, 'Cp2kSCFOutputFile')
                parse_twice(g, 'Cp2kSCFOutputFile', 'scf.out', kw, {'etot': SE * f['energy'], 'forces': sf * f['forces'], 'symbols': sy, 'natoms': n,
                                                                    'stress': SS * f['stress'] if has['stress'] else None}, 'get_struct')
            else:
                f, kw = factors(g, 'Cp2kMDOutputFile')
                want = {'coords': X * f['length'], 'cell': cell * f['length'], 'symbols': sy, 'natoms': n, 'etot': ener[:, 4] * f['energy'], 'ekin': ener[:, 2] * f['energy'],
                        'temperature': ener[:, 3] * f['temperature'], 'forces': F * f['forces'], 'stress': S * f['stress'] if has['stress'] else None,
                        'timestep': dt * f['time'], 'nstep': t}
                if has['vel']:
                    want['velocity'] = V * f['velocity']
                parse_twice(g, 'Cp2kMDOutputFile', 'd/cp2k.out', kw, want, 'get_traj')
        for w in (['scf', 'md', 'scf'] if scf else ['md', 'scf', 'md']):
            one(w)


@unit('C22', ['parse.LammpsTextMDOutputFile', 'parse.LammpsTextMDOutputFile.get_cell', 'parse.LammpsTextMDOutputFile.get_symbols'], mode='bounded', n=60,
      why='text files', tmax=60)
def lammps_files(g):
    """generated LAMMPS log and dump, any column order, triclinic box bounds"""
    import numpy as np, os
    n, t = g.count('n', 1, 4, 12), g.count('steps', 3, 5)
    ty = [g.int('ty%d' % i, 1, 2) for i in range(n)]
    cols = 'id type xu yu zu fx fy fz vx vy vz xsu ysu zsu'.split()
    swap = g.int('swap', 0, len(cols) - 3)
    cols = cols[:2] + cols[2 + swap:] + cols[2:2 + swap]
    D = {c: arr(g, c, (t, n)) for c in cols[2:] + ['xu']}
    th = 'Step Temp Volume Cella Cellb Cellc CellAlpha CellBeta CellGamma KinEng PotEng TotEng Press Pxx Pyy Pzz Pxy Pxz Pyz CPU'.split()
    sw = g.int('thswap', 0, 5)
    th = th[:1] + th[1 + sw:] + th[1:1 + sw]
    H = {c: arr(g, 'th' + c, (t,), 40, 90) for c in th}
    box = []
    cell = np.zeros((t, 3, 3))
    for k in range(t):
        lo = [num(g, 'lo%d%d' % (k, i)) for i in range(3)]
        ln = [1 + abs(num(g, 'len%d%d' % (k, i))) for i in range(3)]
        xy, xz, yz = [num(g, 'tilt%d%d' % (k, i), -2, 2) for i in range(3)]
        cell[k] = [[ln[0], 0, 0], [xy, ln[1], 0], [xz, yz, ln[2]]]
        c = cell[k]
        corners = [(a + b, d) for a in (0, xy) for b in (0, xz) for d in (0, yz)]
        box.append([[lo[0] + min(a for a, d in corners), lo[0] + ln[0] + max(a for a, d in corners), xy],
                    [lo[1] + min(0, yz), lo[1] + ln[1] + max(0, yz), xz], [lo[2], lo[2] + ln[2], yz]])
    dt = 0.0005 * g.int('dt', 1, 9)
    how = g.choose('symbols', ['file', 'order', 'log'])
    names = {1: 'Al', 2: 'N'}
    f, kw = factors(g, 'LammpsTextMDOutputFile')
    with Scratch():
        os.mkdir('d')
        log = 'LAMMPS\n' + ('dump_modify dump_xyz element Al N\n' if how == 'log' else '') + 'timestep %g\n\n' % dt + ' '.join(th) + ' \n'
        log += ''.join(' '.join('%d' % k if c == 'Step' else '%14.8f' % H[c][k] for c in th) + ' \n' for k in range(t)) + 'Loop time of 0.17 on 1 procs\n'
        open('d/log.lammps', 'w').write(log)
        dump = ''
        for k in range(t):
            dump += 'ITEM: TIMESTEP\n%d\nITEM: NUMBER OF ATOMS\n%d\nITEM: BOX BOUNDS xy xz yz pp pp pp\n' % (k, n) + rows(box[k], '%.10g')
            dump += 'ITEM: ATOMS %s \n' % ' '.join(cols)
            dump += ''.join(' '.join(str(i + 1) if c == 'id' else str(ty[i]) if c == 'type' else '%.8g' % D[c][k, i] for c in cols) + ' \n' for i in range(n))
        open('d/lmp.out.dump', 'w').write(dump)
        if how == 'file':
            open('d/lmp.struct.symbols', 'w').write('\n'.join(names[x] for x in ty))
        elif how == 'order':
            kw['order'] = {'Al': 1, 'N': 2}
        st = np.array([[H['P' + 'xyz'[min(i, j)] + 'xyz'[max(i, j)]] for j in range(3)] for i in range(3)]).transpose(2, 0, 1)
        v3 = lambda a, b, c: np.array([D[a], D[b], D[c]]).transpose(1, 2, 0)
        cc = np.array([H[c] for c in 'Cella Cellb Cellc CellAlpha CellBeta CellGamma'.split()]).T.copy()
        cc[:, :3] *= f['length']
        want = {'coords': v3('xu', 'yu', 'zu') * f['length'], 'coords_frac': v3('xsu', 'ysu', 'zsu'), 'forces': v3('fx', 'fy', 'fz') * f['forces'],
                'velocity': v3('vx', 'vy', 'vz') * f['velocity'], 'stress': st * f['stress'], 'etot': H['PotEng'] * f['energy'], 'ekin': H['KinEng'] * f['energy'],
                'temperature': H['Temp'] * f['temperature'], 'timestep': dt * f['time'], 'cell': cell * f['length'], 'cryst_const': cc,
                'symbols': [names[x] for x in ty], 'natoms': n, 'volume': H['Volume'], 'nstep': t}
        parse_twice(g, 'LammpsTextMDOutputFile', 'd/log.lammps', kw, want, 'get_traj')


@unit('C22', ['parse.CpmdMDOutputFile', 'parse.CpmdSCFOutputFile'], mode='bounded', n=60, why='text files', tmax=60)
def cpmd_files(g):
    """generated CPMD trajectory, energy, cell and stress files"""
    import numpy as np, os
    n, t = g.count('n', 1, 4, 12), g.count('steps', 3, 5)
    sy = [SYM[g.int('sy%d' % i, 0, 4)] for i in range(n)]
    ncol = g.choose('energies', [6, 8, 9])
    order = {9: 'nfi ekinc ekinh tempp eks eclassic eham dis tcpu', 8: 'nfi ekinc tempp eks eclassic eham dis tcpu', 6: 'nfi tempp eks eclassic dis tcpu'}[ncol].split()
    En = arr(g, 'En', (t, ncol), 1, 500)
    have_f, have_cell, have_stress = g.flag('forces'), g.flag('cell file'), g.flag('stress file')
    A = arr(g, 'A', (t, n, 9))
    cell0 = arr(g, 'cell0', (3, 3)) + 4 * np.eye(3)
    cell = arr(g, 'cell', (t, 3, 3)) + 4 * np.eye(3)
    g.require(min(abs(np.linalg.det(x)) for x in [cell0] + list(cell)) > 0.2)
    S = arr(g, 'S', (t, 3, 3), -90, 90)
    dt = float(g.int('dt', 1, 9))
    frac = arr(g, 'frac', (n, 3), 0, 1)
    f, kw = factors(g, 'CpmdMDOutputFile')
    with Scratch():
        os.mkdir('d')
        open('d/cpmd.out', 'w').write(' TIME STEP FOR IONS:                              %10.4f\n' % dt)
        open('d/GEOMETRY', 'w').write(rows(A[0][:, :6], '%20.12f'))
        open('d/GEOMETRY.scale', 'w').write(' CELL MATRIX (BOHR)\n' + rows(cell0, '%20.12f') + '\n\n SCALED ATOMIC COORDINATES\n' +
                                            ''.join(' '.join('%20.12f' % x for x in frac[i]) + '   %s  %d\n' % (sy[i], i + 1) for i in range(n)))
        open('d/ENERGIES', 'w').write(rows(En, '%16.10f'))
        nc = 9 if have_f else 6
        open('d/' + ('FTRAJECTORY' if have_f else 'TRAJECTORY'), 'w').write(''.join(
            ('  <<<<<<  NEW DATA  >>>>>>\n' if k == 2 else '') + ''.join('%6d ' % k + ' '.join('%18.10f' % x for x in A[k, i, :nc]) + '\n' for i in range(n)) for k in range(t)))
        if have_cell:
            open('d/CELL', 'w').write(''.join('   CELL PARAMETERS at Step: %8d\n' % k + rows(np.concatenate((cell[k], cell[k] * 0.1), axis=1)) for k in range(t)))
        if have_stress:
            open('d/STRESS', 'w').write(''.join('   TOTAL STRESS TENSOR (kB): Step: %8d\n' % k + rows(S[k]) for k in range(t)))
        col = {k: En[:, i] for i, k in enumerate(order)}
        want = {'coords': A[..., :3] * f['length'], 'velocity': A[..., 3:6] * f['velocity'], 'forces': A[..., 6:] * f['forces'] if have_f else None,
                'cell': (cell if have_cell else np.array([cell0] * t)) * f['length'], 'stress': S * f['stress'] if have_stress else None,
                'etot': col['eks'] * f['energy'], 'ekin': col['eclassic'] * f['energy'], 'temperature': col['tempp'] * f['temperature'],
                'timestep': dt * f['time'], 'natoms': n, 'symbols': sy, 'nstep': t}
        parse_twice(g, 'CpmdMDOutputFile', 'd/cpmd.out', kw, want, 'get_traj')


@unit('C22', ['parse.CifFile', 'parse.PDBFile'], mode='bounded', n=60, why='text files', tmax=60)
def cif_pdb(g):
    """generated CIF (fractional or Cartesian, with error digits) and PDB files"""
    import numpy as np
    n = g.count('n', 1, 4, 12)
    sy = [SYM[g.int('sy%d' % i, 0, 4)] for i in range(n)]
    X = arr(g, 'X', (n, 3), -9, 9, 3)
    cc = np.array([round(4 + abs(num(g, 'cc%d' % i)), 3) for i in range(3)] + [round(80 + num(g, 'an%d' % i), 2) for i in range(3)])
    kind = g.choose('kind', ['cif', 'cif', 'pdb'])
    f, kw = factors(g, 'CifFile')
    cw = cc.copy()
    cw[:3] *= f['length']
    with Scratch():
        if kind == 'pdb':
            txt = 'TITLE     some_random_atoms\nCRYST1 %s %s P 1           1\nMODEL        1\n' % (' '.join('%8.3f' % x for x in cc[:3]), ' '.join('%6.2f' % x for x in cc[3:]))
            txt += ''.join('%-6s%5d  %-3s %s  %4d    %s  1.00  0.00\n' % (['ATOM', 'HETATM'][g.int('het%d' % i, 0, 1)], i + 1, sy[i].upper() if g.flag('upper') else sy[i],
                           ['   ', 'HOH'][g.int('res%d' % i, 0, 1)], i + 1, ''.join('%8.3f' % x for x in X[i])) for i in range(n)) + 'END\n'
            open('a.pdb', 'w').write(txt)
            parse_twice(g, 'PDBFile', 'a.pdb', kw, {'coords': X * f['length'], 'symbols': sy, 'cryst_const': cw}, 'get_struct')
            return
        cart = g.flag('cartesian')
        err = g.flag('error digits')
        e = '(3)' if err else ''
        v = 'Cartn' if cart else 'fract'
        txt = 'data_foo\n' + ''.join('_cell_length_%s %.3f%s\n' % (a, x, e) for a, x in zip('abc', cc)) + ''.join('_cell_angle_%s %.2f\n' % (a, x) for a, x in zip(['alpha', 'beta', 'gamma'], cc[3:]))
        lab = g.choose('labels', ['label', 'type', 'both'])
        cols = (['_atom_site_label'] if lab != 'type' else []) + (['_atom_site_type_symbol'] if lab != 'label' else [])
        txt += '\nloop_\n' + '\n'.join(cols + ['_atom_site_%s_%s' % (v, a) for a in 'xyz']) + '\n'
        for i in range(n):
            w = ([sy[i] + str(i + 1)] if lab != 'type' else []) + ([sy[i] + '2+'] if lab != 'label' else [])
            txt += ' '.join(w + ['%.3f%s' % (x, e) for x in X[i]]) + '\n'
        open('a.cif', 'w').write(txt)
        want = {'symbols': sy, 'cryst_const': cw}
        if cart:
            want['coords'] = X * f['length']
        else:
            want['coords_frac'] = X
        parse_twice(g, 'CifFile', 'a.cif', kw, want, 'get_struct')
