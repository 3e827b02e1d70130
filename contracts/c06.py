from vc.harness import unit
from .spec import *

SY = ['O', 'H', 'H']


def units(g, case, traj):
    """declared factors; missing keys default to one"""
    keys = {'none': [], 'length': ['length'], 'other': ['energy', 'stress', 'forces'], 'traj': ['time', 'velocity', 'temperature']}[case]
    u = {k: g.real('unit_' + k, samp=(g.frac(1, 2), 3)) for k in keys}
    if g.sym:
        for v in u.values():
            g.require(v > 0)
    return u


def scaled(g, ob, u, given, snaps, names):
    for a, unit in names:
        if a in given:
            f = u.get(unit, 1)
            S, A = snaps[a], getattr(ob, a)
            if len(getattr(S, 'shape', ())) == 0:
                g.ensure(a, g.close(A, S * f))
                continue
            g.shape(a + ' shape', A, S.shape)
            g.forall(a, S.shape, lambda *ix: g.close(A[tuple(ix)], S[tuple(ix)] * f))


@unit('C06', ['crys.Structure.__init__', 'crys.Structure.set_all', 'crys.UnitsHandler._apply_units_raw', 'crys.UnitsHandler.update_units',
              'crys.Structure.get_coords', 'crys.Structure.get_coords_frac', 'crys.Structure.get_cell', 'crys.Structure.get_cryst_const',
              'crys.Structure.get_volume', 'crys.Structure.get_pressure', 'crys.Structure.get_natoms', 'crys.Structure.get_mass'],
      fork={'pos': 3, 'box': 3, 'unit': 3})
def structure(g):
    """every derived attribute from every way of giving the positions and the cell; units once"""
    pos = g.choose('pos', ['coords', 'coords_frac', 'both'])
    box = g.choose('box', ['cell', 'cryst_const', 'both'])
    uc = g.choose('unit', ['none', 'length', 'other'])
    u = units(g, uc, False)
    n = g.dim('n')
    kw = {}
    if pos != 'coords_frac':
        kw['coords'] = g.reals('coords', (n, 3), samp=(-4, 4))
    if pos != 'coords':
        kw['coords_frac'] = g.reals('coords_frac', (n, 3), samp=(-2, 2))
    if box != 'cryst_const':
        kw['cell'] = g.reals('cell', (3, 3), samp=(-4, 4))
        invertible(g, kw['cell'])
    if box != 'cell':
        kw['cryst_const'] = g.reals('cc', (6,), samp=(1, 9))
        if not g.sym:
            kw['cryst_const'][3:] = 60 + 5 * kw['cryst_const'][3:]
        else:
            cc_valid(g, kw['cryst_const'])
    kw['forces'] = g.reals('forces', (n, 3))
    kw['stress'] = g.reals('stress', (3, 3))
    kw['etot'] = g.real('etot')
    own = g.flag('own volume and pressure') if uc != 'none' else False
    if own:
        kw['volume'], kw['pressure'] = g.real('volume'), g.real('pressure')
    S = {k: g.snap(v) if hasattr(v, 'shape') else v for k, v in kw.items()}
    ob = g.call('crys.Structure', units=u if u or g.flag('empty unit dict') else None, **kw)
    L = u.get('length', 1)
    scaled(g, ob, u, kw, S, [('cell', 'length'), ('coords', 'length'), ('coords_frac', None), ('forces', 'forces'), ('stress', 'stress'),
                             ('etot', 'energy'), ('volume', None), ('pressure', None)])
    g.ensure('natoms', ob.natoms == n)
    for k, v in kw.items():
        if hasattr(v, 'shape'):
            g.unchanged('input %s kept' % k, v, S[k])
    if 'cryst_const' in kw:
        for k in range(6):
            g.ensure('cryst_const %d' % k, g.close(ob.cryst_const[k], S['cryst_const'][k] * (L if k < 3 else 1)))
    else:
        g.eq('cryst_const', ob.cryst_const, g.call('crys.cell2cc', ob.cell))
    if 'cell' not in kw:
        g.eq('cell', ob.cell, g.call('crys.cc2cell', ob.cryst_const))
    if not own:
        g.ensure('volume', g.close(ob.volume, g.abs(det(ob.cell))))
        g.ensure('pressure', g.close(ob.pressure, (ob.stress[0, 0] + ob.stress[1, 1] + ob.stress[2, 2]) / 3))
    if pos == 'coords_frac':
        for k in range(3):
            g.forall('coords %d' % k, (n,), lambda i: g.close(ob.coords[i, k], g.sum(lambda a: ob.coords_frac[i, a] * ob.cell[a, k], 3)))
    if pos == 'coords':
        g.shape('coords_frac shape', ob.coords_frac, (n, 3))
        g.eq('coords_frac', ob.coords_frac, g.call('crys._flib.cart2frac', ob.coords, ob.cell))


@unit('C06', ['crys.Trajectory.__init__', 'crys.Structure._extend', 'crys.Structure._extend_cell', 'crys.Structure._extend_cc', 'crys.Structure.get_nstep'],
      fork={'pos': 2, 'box': 6, 'unit': 3})
def trajectory(g):
    """the same per step; constant cells repeated for every step"""
    pos = g.choose('pos', ['coords', 'coords_frac'])
    box = g.choose('box', ['cell', 'cell1', 'cell3d', 'cc', 'cc1', 'cc2d'])
    uc = g.choose('unit', ['none', 'length', 'other'])
    u = units(g, uc, True)
    n, nt = g.dim('n'), g.dim('nt')
    kw = {pos: g.reals('positions', (nt, n, 3), samp=(-4, 4))}
    sh = {'cell': (3, 3), 'cell1': (1, 3, 3), 'cell3d': (nt, 3, 3), 'cc': (6,), 'cc1': (1, 6), 'cc2d': (nt, 6)}[box]
    key = 'cell' if box.startswith('cell') else 'cryst_const'
    kw[key] = g.reals('box', sh, samp=(-4, 4) if key == 'cell' else (2, 8))
    if key == 'cryst_const' and not g.sym:
        kw[key][..., 3:] = 60 + 5 * kw[key][..., 3:]
    row = (lambda A, t: A) if len(sh) == (2 if key == 'cell' else 1) else (lambda A, t: A[0]) if sh[0] == 1 and box.endswith('1') else (lambda A, t: A[t])
    if key == 'cell' and not g.sym:
        import numpy
        g.require(abs(numpy.linalg.det(kw[key])).min() > .1)
    kw['forces'] = g.reals('forces', (nt, n, 3))
    kw['stress'] = g.reals('stress', (nt, 3, 3))
    kw['etot'] = g.reals('etot', (nt,))
    S = {k: g.snap(v) for k, v in kw.items()}
    seen = traj_kernel(g)
    ob = g.call('crys.Trajectory', units=u or None, **kw)
    L = u.get('length', 1)
    scaled(g, ob, u, kw, S, [('coords', 'length'), ('coords_frac', None), ('forces', 'forces'), ('stress', 'stress'), ('etot', 'energy')])
    g.ensure('natoms', ob.natoms == n)
    g.ensure('nstep', ob.nstep == nt)
    for k, v in kw.items():
        g.unchanged('input %s kept' % k, v, S[k])
    g.shape('cell shape', ob.cell, (nt, 3, 3))
    g.shape('cryst_const shape', ob.cryst_const, (nt, 6))
    if key == 'cell':
        for i in range(3):
            for j in range(3):
                g.forall('cell %d%d' % (i, j), (nt,), lambda t: g.close(ob.cell[t, i, j], row(S['cell'], t)[i, j] * L))
        g.eq('cryst_const', ob.cryst_const, g.call('crys.cell2cc3d', ob.cell))
    else:
        for k in range(6):
            g.forall('cc %d' % k, (nt,), lambda t: g.close(ob.cryst_const[t, k], row(S[key], t)[k] * (L if k < 3 else 1)))
        g.eq('cell', ob.cell, g.call('crys.cc2cell3d', ob.cryst_const))
    g.forall('volume', (nt,), lambda t: g.close(ob.volume[t], g.abs(det3(lambda i, j: ob.cell[t, i, j]))))
    g.forall('pressure', (nt,), lambda t: g.close(ob.pressure[t], (ob.stress[t, 0, 0] + ob.stress[t, 1, 1] + ob.stress[t, 2, 2]) / 3))
    g.shape('volume shape', ob.volume, (nt,))
    g.shape('pressure shape', ob.pressure, (nt,))
    if pos == 'coords_frac':
        for k in range(3):
            g.forall('coords %d' % k, (nt, n), lambda t, i: g.close(ob.coords[t, i, k], g.sum(lambda a: ob.coords_frac[t, i, a] * ob.cell[t, a, k], 3)))
    elif g.sym:
        g.ensure('cart2frac_traj called once', len(seen) == 1)
        g.eq('cart2frac_traj of coords', seen[0][0], ob.coords)
        g.eq('cart2frac_traj with cell', seen[0][1], ob.cell)
        g.eq('coords_frac', ob.coords_frac, seen[0][2])
    else:
        g.eq('coords_frac', ob.coords_frac, g.call('crys._flib.cart2frac_traj', ob.coords, ob.cell))


@unit('C06', ['crys.velocity_traj', 'crys.Structure.get_velocity', 'crys.Structure.get_ekin', 'crys.Structure.get_temperature', 'crys.Structure.get_time',
              'crys.Structure.get_mass'], fork={'given': 4}, assume=['kinetic energy: three atoms O, H, H in the proof; arbitrary symbols bounded'])
def kinetics(g):
    """velocity, kinetic energy, temperature, time axis; explicit values scaled and kept"""
    given = g.choose('given', [(), ('velocity',), ('ekin',), ('velocity', 'ekin', 'temperature')])
    u = units(g, 'traj', True) if g.flag('units') else {}
    nt = g.dim('nt')
    n = 3
    dt = g.real('dt', samp=(g.frac(1, 2), 3))
    g.require(dt > 0)
    kw = {'coords': g.reals('coords', (nt, n, 3), samp=(-4, 4)), 'timestep': dt, 'symbols': list(SY)}
    if 'velocity' in given:
        kw['velocity'] = g.reals('velocity', (nt, n, 3))
    if 'ekin' in given:
        kw['ekin'] = g.reals('ekin', (nt,))
    if 'temperature' in given:
        kw['temperature'] = g.reals('temperature', (nt,))
    S = {k: g.snap(v) if hasattr(v, 'shape') and k != 'timestep' else v for k, v in kw.items()}
    ob = g.call('crys.Trajectory', units=u or None, **kw)
    D = dt * u.get('time', 1)
    g.ensure('timestep', g.close(ob.timestep, D))
    g.shape('time shape', ob.time, (nt,))
    g.forall('time', (nt,), lambda t: g.close(ob.time[t], t * D))
    scaled(g, ob, u, kw, S, [('velocity', 'velocity'), ('ekin', 'energy'), ('temperature', 'temperature'), ('coords', 'length')])
    X = ob.coords
    v = ob.velocity
    if 'velocity' not in given:
        if g.sym:
            few = not g.c.decide(lift_ge(g, nt, 3))
        else:
            few = nt < 3
        if few:
            g.ensure('no velocity', v is None)
        else:
            g.shape('velocity shape', v, (nt, n, 3))
            for k in range(3):
                g.forall('velocity %d' % k, (nt, n), lambda t, i: g.close(v[t, i, k], g.ite(t == 0, (X[2, i, k] - X[0, i, k]) / (2 * D),
                         g.ite(t == nt - 1, (X[nt - 1, i, k] - X[nt - 3, i, k]) / (2 * D), mid(g, X, t, i, k, nt) / (2 * D)))))
    c = g.mod('constants')
    m = [g.mod('atomic_data').pt[s]['mass'] for s in SY]
    for i in range(n):
        g.ensure('mass %d' % i, g.close(ob.mass[i], m[i]))
    f = (c.Angstrom / c.fs) ** 2 * c.amu / c.eV
    if v is None and 'ekin' not in given:
        g.ensure('no ekin', ob.ekin is None and ob.temperature is None)
        return
    if 'ekin' not in given:
        g.shape('ekin shape', ob.ekin, (nt,))
        g.forall('ekin', (nt,), lambda t: g.close(ob.ekin[t], sum(m[i] * v[t, i, k] * v[t, i, k] for i in range(n) for k in range(3)) / 2 * f))
    if 'temperature' not in given:
        g.forall('temperature', (nt,), lambda t: g.close(ob.temperature[t], ob.ekin[t] * c.eV / n / c.kb * 2 / 3))


def traj_kernel(g):
    """cart2frac_traj by its contract (C02): here only what it is called with and that its result is used"""
    seen = []
    if g.sym:
        def kernel(coords, cell):
            r = g.callee('_flib.cart2frac_traj', (coords, cell), coords.shape, lambda r: [])
            seen.append((coords, cell, r))
            return r
        g.override('_flib.cart2frac_traj', kernel)
    return seen


def ccok(g, cc):
    ca, cb, cg = [g.cos(rad(g, cc[3 + k])) for k in range(3)]
    return g.land(*[cc[k] > g.frac(1, 10) for k in range(3)], *[cc[3 + k] > 5 for k in range(3)], *[cc[3 + k] < 175 for k in range(3)],
                  1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > g.frac(1, 100))


def mid(g, X, t, i, k, nt):
    if g.sym:
        return X.elem(t + 1, i, k) - X.elem(t - 1, i, k)
    return X[t + 1, i, k] - X[t - 1, i, k] if 0 < t < nt - 1 else 0.


def lift_ge(g, a, b):
    from vc import core
    return core.boolexpr(a >= b)


GET = ['cell', 'coords', 'coords_frac', 'cryst_const', 'etot', 'forces', 'pressure', 'stress', 'volume', 'natoms', 'symbols', 'mass', 'znucl',
       'order', 'typat', 'ntypat', 'nspecies', 'symbols_unique', 'znucl_unique', 'mass_unique']
TGET = GET + ['ekin', 'temperature', 'timestep', 'velocity', 'nstep', 'time']
OPS = ['set_all', 'apply_units', 'set_all_twice']


@unit('C06', ['base.FlexibleGetters.try_set_attr', 'base.FlexibleGetters.set_all', 'crys.UnitsHandler.apply_units'], fork={'op': len(GET) + 3},
      assume=['three atoms O, H, H in the proof; arbitrary objects bounded'])
def history_structure(g):
    """inductive step over histories: any getter, set_all or unit call on a complete object changes nothing"""
    traj = False
    u = {'length': 3, 'energy': 5, 'stress': 7, 'forces': 11, 'time': 13, 'velocity': 17, 'temperature': 19}
    n = 3
    lead = (g.dim('nt', lo=3),) if traj else ()
    kw = dict(coords=g.reals('coords', lead + (n, 3)), cell=g.reals('cell', lead + (3, 3)), symbols=list(SY),
              forces=g.reals('forces', lead + (n, 3)), stress=g.reals('stress', lead + (3, 3)),
              etot=g.reals('etot', lead) if traj else g.real('etot'))
    if not g.sym:
        import numpy
        g.require(abs(numpy.linalg.det(kw['cell'])).min() > .1)
    elif traj:
        traj_kernel(g)
    else:
        invertible(g, kw['cell'])
    if traj:
        kw['timestep'] = g.real('dt', samp=(1, 2))
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', units=u, **kw)
    before = {a: getattr(ob, a) for a in ob.attr_lst}
    snaps = {a: g.snap(v) for a, v in before.items() if hasattr(v, 'shape') and len(v.shape) > 0}
    op = g.choose('op', (TGET if traj else GET) + OPS)
    if op == 'set_all_twice':
        ob.set_all()
        ob.set_all()
    elif op in OPS:
        getattr(ob, op)()
    else:
        r = getattr(ob, 'get_' + op)()
        if op == 'time':
            g.eq('value', r, before[op])
        elif op in ('order', 'typat', 'ntypat', 'nspecies', 'symbols_unique', 'znucl_unique', 'mass_unique', 'mass', 'znucl', 'natoms', 'nstep'):
            g.ensure('value', eqv(r, before[op]))
        else:
            g.ensure('value', r is before[op])
    for a in ob.attr_lst:
        g.ensure('kept %s' % a, getattr(ob, a) is before[a])
        if a in snaps:
            g.unchanged('value of %s' % a, before[a], snaps[a])


@unit('C06', ['base.FlexibleGetters.try_set_attr', 'base.FlexibleGetters.set_all', 'crys.UnitsHandler.apply_units'], fork={'op': len(TGET) + 3},
      assume=['three atoms O, H, H in the proof; arbitrary objects bounded'])
def history_trajectory(g):
    """inductive step over histories: any getter, set_all or unit call on a complete object changes nothing"""
    traj = True
    u = {'length': 3, 'energy': 5, 'stress': 7, 'forces': 11, 'time': 13, 'velocity': 17, 'temperature': 19}
    n = 3
    lead = (g.dim('nt', lo=3),) if traj else ()
    kw = dict(coords=g.reals('coords', lead + (n, 3)), cell=g.reals('cell', lead + (3, 3)), symbols=list(SY),
              forces=g.reals('forces', lead + (n, 3)), stress=g.reals('stress', lead + (3, 3)),
              etot=g.reals('etot', lead) if traj else g.real('etot'))
    if not g.sym:
        import numpy
        g.require(abs(numpy.linalg.det(kw['cell'])).min() > .1)
    elif traj:
        traj_kernel(g)
    else:
        invertible(g, kw['cell'])
    if traj:
        kw['timestep'] = g.real('dt', samp=(1, 2))
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', units=u, **kw)
    before = {a: getattr(ob, a) for a in ob.attr_lst}
    snaps = {a: g.snap(v) for a, v in before.items() if hasattr(v, 'shape') and len(v.shape) > 0}
    op = g.choose('op', (TGET if traj else GET) + OPS)
    if op == 'set_all_twice':
        ob.set_all()
        ob.set_all()
    elif op in OPS:
        getattr(ob, op)()
    else:
        r = getattr(ob, 'get_' + op)()
        if op == 'time':
            g.eq('value', r, before[op])
        elif op in ('order', 'typat', 'ntypat', 'nspecies', 'symbols_unique', 'znucl_unique', 'mass_unique', 'mass', 'znucl', 'natoms', 'nstep'):
            g.ensure('value', eqv(r, before[op]))
        else:
            g.ensure('value', r is before[op])
    for a in ob.attr_lst:
        g.ensure('kept %s' % a, getattr(ob, a) is before[a])
        if a in snaps:
            g.unchanged('value of %s' % a, before[a], snaps[a])


def eqv(a, b):
    import numpy
    if isinstance(a, numpy.ndarray):
        return isinstance(b, numpy.ndarray) and a.shape == b.shape and bool((a == b).all())
    return a == b


@unit('C06', ['crys.Structure.copy'], fork={'traj': 2, 'side': 2})
def copy(g):
    """a copy has the same attributes and shares no array"""
    traj = g.choose('traj', [False, True])
    n = 3
    lead = (g.dim('nt', lo=3),) if traj else ()
    kw = dict(coords_frac=g.reals('coords_frac', lead + (n, 3)), cell=g.reals('cell', lead + (3, 3)), symbols=list(SY),
              forces=g.reals('forces', lead + (n, 3)), stress=g.reals('stress', lead + (3, 3)))
    if traj:
        kw['timestep'] = g.real('dt', samp=(1, 2))
    ob = g.call('crys.Trajectory' if traj else 'crys.Structure', **kw)
    snaps = {a: g.snap(getattr(ob, a)) for a in ob.attr_lst if hasattr(getattr(ob, a), 'shape') and len(getattr(ob, a).shape) > 0}
    cp = ob.copy()
    g.ensure('type', bool(cp.is_traj) == traj and bool(cp.is_struct) != traj)
    for a in ob.attr_lst:
        v, w = getattr(ob, a), getattr(cp, a)
        if a in snaps:
            g.ensure('other object %s' % a, w is not v)
            g.unchanged('equal %s' % a, w, snaps[a])
        elif hasattr(v, 'e'):
            g.ensure('equal %s' % a, g.close(v, w))
        else:
            g.ensure('equal %s' % a, eqv(v, w))
            g.ensure('not shared %s' % a, w is not v or not isinstance(v, (list, dict)))
    # writing to one leaves the other alone
    a, b = (ob, cp) if g.choose('side', [0, 1]) else (cp, ob)
    for nm in snaps:
        A = getattr(a, nm)
        A[...] = 0 * A[...] + 5
    for nm in snaps:
        g.unchanged('independent %s' % nm, getattr(b, nm), snaps[nm])


@unit('C06', ['crys.UnitsHandler.update_units', 'crys.Structure.__init__'])
def rejects(g):
    """unknown unit keys and unknown attributes are rejected"""
    cls = g.choose('class', ['crys.Structure', 'crys.Trajectory'])
    g.raises('unknown unit', Exception, lambda: g.call(cls, units={g.choose('key', ['lengths', 'pressure', 'coords']): 2.0}))
    g.raises('unknown attribute', AssertionError, lambda: g.call(cls, **{g.choose('attr', ['natoms', 'foo', 'mass']): 1}))


@unit('C06', ['base.FlexibleGetters.check_set_attr', 'crys.Structure.get_*', 'crys.UnitsHandler.apply_units'], mode='bounded',
      why='arbitrary symbols, arbitrary subsets of supplied attributes, random histories', n=400)
def lazy_history(g):
    """set_all_auto=False, units applied, then any order of getters: same values as eager construction"""
    import numpy as np
    traj = g.flag('traj')
    n, nt = g.int('n', 1, 6), g.int('nt', 1, 5)
    lead = (nt,) if traj else ()
    sy = g.labels('symbols', n, alphabet=('H', 'O', 'Ca', 'Si', 'Al', 'N'))
    cell = g.reals('cell', lead + (3, 3), samp=(-4, 4))
    g.require(abs(np.linalg.det(cell)).min() > .2)
    kw = {}
    if g.flag('symbols'):
        kw['symbols'] = sy
    if g.flag('frac'):
        kw['coords_frac'] = g.reals('cf', lead + (n, 3))
    else:
        kw['coords'] = g.reals('co', lead + (n, 3))
    how = g.int('box', 0, 2)
    if how == 0:
        kw['cell'] = cell
    elif how == 1:
        kw['cryst_const'] = g.call('crys.cell2cc3d' if traj else 'crys.cell2cc', cell)
    elif traj:
        kw['cell'] = cell[0]
    for nm, sh in (('forces', lead + (n, 3)), ('stress', lead + (3, 3)), ('etot', lead), ('pressure', lead), ('volume', lead)):
        if g.flag(nm):
            kw[nm] = g.reals('v_' + nm, sh) if sh else g.real('v_' + nm)
    if traj:
        if g.flag('dt'):
            kw['timestep'] = g.real('v_dt', samp=(1, 3))
        for nm, sh in (('velocity', (nt, n, 3)), ('ekin', (nt,)), ('temperature', (nt,))):
            if g.flag(nm):
                kw[nm] = g.reals('v_' + nm, sh)
    u = {k: g.real('u_' + k, samp=(1, 4)) for k in ('length', 'energy', 'stress', 'forces', 'temperature', 'velocity', 'time') if g.flag('has_' + k)}
    cls = 'crys.Trajectory' if traj else 'crys.Structure'
    orig = {k: np.array(v) for k, v in kw.items() if k != 'symbols'}
    ref = g.call(cls, units=u, **kw)
    ob = g.call(cls, set_all_auto=False, units=u, **kw)
    first = g.choose('first', ['apply_units', '_extend_arrays_apply_units', 'set_all'])
    getattr(ob, first)()
    if first == 'apply_units' and traj and how == 2:
        ob._extend()
    attrs = list(ref.attr_lst)
    for k in range(g.int('nops', 5, 60)):
        a = attrs[g.int('op%d' % k, 0, len(attrs) - 1)]
        w = g.int('kind%d' % k, 0, 9)
        if w == 0:
            ob.set_all()
        elif w == 1:
            ob.apply_units()
        elif w < 6:
            ob.check_set_attr(a)
        else:
            r = ob.get_return_attr(a)
            g.ensure('get %s' % a, eqn(r, getattr(ref, a)))
    ob.set_all()
    for a in attrs:
        g.ensure('final %s' % a, eqn(getattr(ob, a), getattr(ref, a)))
    for k, v in orig.items():
        g.ensure('input %s kept' % k, eqn(np.array(kw[k]), v))
    dep = {'coords': 'length', 'cell': 'length', 'forces': 'forces', 'stress': 'stress', 'etot': 'energy', 'ekin': 'energy',
           'temperature': 'temperature', 'velocity': 'velocity', 'timestep': 'time'}
    for k in orig:
        if k == 'cryst_const':
            f = np.array([u.get('length', 1)] * 3 + [1] * 3)
        else:
            f = u.get(dep.get(k), 1)
        v = getattr(ref, k)
        w = orig[k] * f
        if k == 'cell' and traj and how == 2:
            w = np.array([w] * nt)
        g.ensure('explicit %s' % k, eqn(np.array(v), w))
    if 'symbols' in kw:
        pt = g.mod('atomic_data').pt
        us = sorted(set(sy))
        order = {s: i + 1 for i, s in enumerate(us)}
        Z = g.mod('atomic_data').numbers
        want = dict(symbols=sy, symbols_unique=us, order=order, typat=[order[s] for s in sy], ntypat=len(us), nspecies={s: sy.count(s) for s in us},
                    znucl=[Z[s] for s in sy], znucl_unique=[Z[s] for s in us], natoms=n)
        for k, v in want.items():
            g.ensure('statistics %s' % k, getattr(ref, k) == v)
        ma = np.array([pt[s]['mass'] for s in sy])
        g.ensure('mass', np.allclose(ref.mass, ma))
        g.ensure('mass_unique', np.allclose(ref.mass_unique, [pt[s]['mass'] for s in us]))
        if traj and ref.velocity is not None and 'ekin' not in kw:
            c = g.mod('constants')
            e = (ref.velocity ** 2 * ma[None, :, None]).sum(axis=(1, 2)) / 2 * (c.Angstrom / c.fs) ** 2 * c.amu / c.eV
            g.ensure('ekin', np.allclose(ref.ekin, e))
            if 'temperature' not in kw:
                g.ensure('temperature', np.allclose(ref.temperature, e * c.eV / n / c.kb * 2 / 3))
    if 'stress' in kw and 'pressure' not in kw:
        g.ensure('pressure', np.allclose(ref.pressure, np.trace(ref.stress, axis1=-2, axis2=-1) / 3))
    if ref.cell is not None:
        g.ensure('coords', np.allclose(ref.coords, np.einsum('...ia,...ak->...ik', ref.coords_frac, ref.cell), atol=1e-8))
        if 'volume' not in kw:
            g.ensure('volume', np.allclose(ref.volume, abs(np.linalg.det(ref.cell))))
    else:
        g.ensure('nothing invented', ref.cell is None and (ref.volume is None or 'volume' in kw) and ref.cryst_const is None)


def eqn(a, b):
    import numpy as np
    if a is None or b is None:
        return a is b
    if isinstance(a, (np.ndarray, float)):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12)
    return type(a) == type(b) and a == b


@unit('C06', ['crys.Structure', 'crys.Trajectory', 'crys.velocity_traj'], mode='bounded', n=150, why='array element types are below the model (all numbers are reals)')
def integers(g):
    """containers built from integer typed arrays hold the values of those built from floats"""
    import numpy as np
    traj = g.flag('traj')
    nt, n = g.int('nt', 3, 6), g.int('n', 1, 4)
    lead = (nt,) if traj else ()
    kw = {g.choose('position', ['coords', 'coords_frac']): g.ints('pos', lead + (n, 3), samp=(-4, 5)), 'symbols': ['H', 'O', 'Ca', 'H'][:n]}
    if g.flag('cell'):
        kw['cell'] = g.ints('cell', lead + (3, 3), samp=(-2, 3)) + 6 * np.eye(3, dtype=int)
    else:
        cc = g.ints('cc', lead + (6,), samp=(3, 8))
        cc[..., 3:] = 80 + 3 * cc[..., 3:]
        kw['cryst_const'] = cc
    for nm, sh in [('forces', lead + (n, 3)), ('stress', lead + (3, 3)), ('etot', lead), ('velocity', lead + (n, 3) if traj else None)]:
        if sh and g.flag(nm):
            kw[nm] = g.ints('v_' + nm, sh, samp=(-5, 6))
    u = {k: g.real('u_' + k, samp=(.3, 3)) for k in ('length', 'energy', 'forces', 'stress', 'velocity') if g.flag('unit ' + k)}
    if traj:
        kw['timestep'] = g.choose('timestep', [1, 2, 1.5])
    old = {k: np.copy(v) for k, v in kw.items() if isinstance(v, np.ndarray)}
    T = 'crys.Trajectory' if traj else 'crys.Structure'
    a = g.call(T, units=dict(u), **kw)
    b = g.call(T, units=dict(u), **{k: v * 1.0 if isinstance(v, np.ndarray) else v for k, v in kw.items()})
    for k in b.attr_lst:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(y, np.ndarray) and y.dtype.kind == 'f':
            g.ensure('%s as from floats' % k, x is not None and x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True))
    for k, v in old.items():
        g.ensure('%s kept' % k, np.array_equal(kw[k], v))
