from vc.harness import unit
from .spec import *

STEP3 = ['coords', 'coords_frac', 'stress', 'forces', 'velocity', 'cell']
STEP1 = ['pressure', 'volume', 'etot', 'ekin', 'temperature', 'time']
STEP = STEP3 + ['cryst_const'] + STEP1
SY = ['O', 'H', 'H']
CONST = ['natoms', 'symbols', 'mass', 'znucl', 'order', 'typat', 'ntypat', 'nspecies', 'symbols_unique', 'znucl_unique', 'mass_unique']
SHAPE = {'coords': (3, 3), 'coords_frac': (3, 3), 'forces': (3, 3), 'velocity': (3, 3), 'stress': (3, 3), 'cell': (3, 3), 'cryst_const': (6,)}


def raw(g, tag, nt, names, cls='Trajectory'):
    """an object holding arbitrary values in the named attributes (all per-step ones by default)"""
    traj = cls == 'Trajectory'
    lead = (nt,) if traj else ()
    ob = g.call('crys.' + cls, set_all_auto=False, symbols=list(SY))
    for a in names:
        if not traj and a in ('velocity', 'ekin', 'temperature', 'time'):
            continue
        sh = lead + SHAPE.get(a, ())
        setattr(ob, a, g.reals(tag + a, sh) if sh else g.real(tag + a))
    if traj:
        ob.nstep = nt
        ob.timestep = g.real(tag + 'dt', samp=(1, 3))
    for a in CONST:
        ob.try_set_attr(a)
    return ob


def snap(g, ob):
    return {a: g.snap(v) if hasattr(v, 'shape') else v for a, v in ((a, getattr(ob, a)) for a in ob.attr_lst)}


def rows(g, name, a, b, shape, ia, ib, n=1):
    """a[ia(t)] equals b[ib(t)] for all t < n"""
    import itertools
    for k in itertools.product(*[range(s) for s in shape]):
        g.forall('%s%s' % (name, list(k) if k else ''), (n,), lambda t: g.close(at(g, a, ia(t), k), at(g, b, ib(t), k)))


def at(g, a, i, k):
    if i is None:
        return a[k] if k else (a if not hasattr(a, 'shape') or len(a.shape) == 0 else a[()])
    if g.sym:
        return a.elem(i, *k) if hasattr(a, 'elem') else a[(i,) + k]
    return a[(i,) + tuple(k)] if 0 <= i < len(a) else 0.


def constants(g, ob, src):
    for a in CONST:
        v, w = getattr(ob, a), src[a]
        g.ensure('constant %s' % a, eqv(v, w))


def eqv(a, b):
    import numpy
    if isinstance(a, numpy.ndarray):
        return isinstance(b, numpy.ndarray) and a.shape == b.shape and bool((a == b).all())
    return a == b


GIVEN = [STEP, ['coords', 'cell', 'etot'], ['coords_frac', 'forces', 'stress', 'velocity', 'ekin']]


@unit('C07', ['crys.Trajectory.__getitem__'], fork={'given': 3}, assume=['three atoms O, H, H in the proof'])
def index(g):
    """element i (also counted from the end): a Structure with row i of every per-step attribute"""
    given = g.choose('given', GIVEN)
    nt = g.dim('nt')
    tr = raw(g, 'v_', nt, given)
    S = snap(g, tr)
    i = g.int('i', 0, None, samp=(0, 3))
    g.require(i < nt)
    neg = g.flag('from the end')
    st = tr[i - nt if neg else i]
    g.ensure('type', bool(st.is_struct) and not st.is_traj)
    for a in STEP:
        if a in ('velocity', 'ekin', 'temperature', 'time'):
            g.ensure('no %s' % a, not hasattr(st, a) or getattr(st, a) is None)
        elif a in given:
            if SHAPE.get(a):
                g.shape(a + ' shape', getattr(st, a), SHAPE[a])
            rows(g, a, getattr(st, a), S[a], SHAPE.get(a, ()), lambda t: None, lambda t: i)
        else:
            g.ensure('no %s' % a, getattr(st, a) is None)
    constants(g, st, S)
    for a in given:
        g.unchanged('source %s' % a, getattr(tr, a), S[a])


@unit('C07', ['crys.Trajectory.__getitem__'])
def index_range(g):
    """positions outside are rejected (also needed by the iteration protocol)"""
    nt = g.dim('nt')
    tr = raw(g, 'v_', nt, ['coords', 'cell'])
    i = g.int('i', 0, None, samp=(0, 9))
    g.require(i >= nt)
    g.raises('too large', IndexError, lambda: tr[i])
    g.raises('too small', IndexError, lambda: tr[-i - 1])


@unit('C07', ['crys.Trajectory.__getitem__'], fork={'step': 6, 'given': 2}, assume=['steps -2, -1, none, 1, 2, 3 in the proof'])
def slices(g):
    """a slice is the Trajectory of exactly the selected steps, time step multiplied by the stride"""
    given = g.choose('given', GIVEN[:2])
    nt = g.dim('nt')
    tr = raw(g, 'v_', nt, given)
    S = snap(g, tr)
    dt = tr.timestep
    step = g.choose('step', [None, 1, 2, 3, -1, -2])
    a = g.int('a', -9, 9) if g.flag('start') else None
    b = g.int('b', -9, 9) if g.flag('stop') else None
    sub = tr[a:b:step]
    sp = 1 if step is None else step
    up = sp > 0
    lo, hi = (0, nt) if up else (-1, nt - 1)
    clip = lambda x: g.ite(x < lo, lo, g.ite(x > hi, hi, x))
    norm = lambda x: clip(g.ite(x < 0, x + nt, x))
    s = (0 if up else nt - 1) if a is None else norm(a)
    e = (nt if up else -1) if b is None else norm(b)
    d = (e - s) if up else (s - e)
    m = g.ite(d > 0, (d + abs(sp) - 1) // abs(sp), 0)
    g.ensure('type', bool(sub.is_traj))
    g.ensure('number of steps', sub.nstep == m)
    g.ensure('time step', g.close(sub.timestep, dt * sp))
    for q in STEP:
        if q in given:
            A = getattr(sub, q)
            g.shape(q + ' shape', A, (m,) + SHAPE.get(q, ()))
            rows(g, q, A, S[q], SHAPE.get(q, ()), lambda t: t, lambda t: s + sp * t, m)
        else:
            g.ensure('no %s' % q, getattr(sub, q) is None)
    constants(g, sub, S)
    g.ensure('source time step', g.close(tr.timestep, dt))
    for q in given:
        g.unchanged('source %s' % q, getattr(tr, q), S[q])


@unit('C07', ['crys.Structure.get_traj', 'crys.struct2traj'], fork={'given': 3})
def get_traj(g):
    """nstep copies of the structure"""
    given = g.choose('given', GIVEN)
    nt = g.dim('nt')
    st = raw(g, 'v_', None, given, 'Structure')
    S = snap(g, st)
    if g.sym:
        for f in ('cart2frac_traj', 'cart2frac'):
            g.override('_flib.' + f, lambda c, m: g.callee('_flib.cart2frac', (c, m), c.shape, lambda r: []))
    one = g.flag('struct2traj')
    tr = g.call('crys.struct2traj', st) if one else st.get_traj(nt)
    n = 1 if one else nt
    g.ensure('type', bool(tr.is_traj))
    g.ensure('nstep', tr.nstep == n)
    for a in STEP:
        if a in S and a in given:
            A = getattr(tr, a)
            g.shape(a + ' shape', A, (n,) + SHAPE.get(a, ()))
            rows(g, a, A, S[a], SHAPE.get(a, ()), lambda t: t, lambda t: None, n)
            if hasattr(S[a], 'shape'):
                g.unchanged('source %s' % a, getattr(st, a), S[a])
    constants(g, tr, S)
    g.ensure('trajectory kept', g.call('crys.struct2traj', tr) is tr)


@unit('C07', ['crys.mean'], fork={'given': 3})
def mean(g):
    """arithmetic mean of every per-step attribute, constants kept"""
    given = g.choose('given', GIVEN)
    nt = g.dim('nt')
    tr = raw(g, 'v_', nt, given)
    S = snap(g, tr)
    st = g.call('crys.mean', tr)
    g.ensure('type', bool(st.is_struct))
    for a in STEP:
        if a == 'time':
            continue
        if a in given:
            A = getattr(st, a)
            import itertools
            if SHAPE.get(a):
                g.shape(a + ' shape', A, SHAPE[a])
            for k in itertools.product(*[range(s) for s in SHAPE.get(a, ())]):
                g.ensure('%s%s' % (a, list(k)), g.close(at(g, A, None, k) * nt, g.sum(lambda t: at(g, S[a], t, k), nt)))
            g.unchanged('source %s' % a, getattr(tr, a), S[a])
        else:
            g.ensure('no %s' % a, not hasattr(st, a) or getattr(st, a) is None)
    constants(g, st, S)


@unit('C07', ['crys.mean'])
def mean_rejects(g):
    """only trajectories have a mean"""
    st = raw(g, 'v_', None, ['coords', 'cell'], 'Structure')
    g.raises('structure', AssertionError, lambda: g.call('crys.mean', st))


@unit('C07', ['crys.concatenate', 'crys.populated_attrs', 'crys.struct2traj'], fork={'kinds': 6, 'given': 3},
      assume=['lists of one to three objects in the proof; longer lists bounded'])
def concatenate(g):
    """all steps in order; attributes that one object lacks are dropped; constants kept"""
    kinds = g.choose('kinds', ['T', 'S', 'TT', 'TS', 'ST', 'TST'])
    given = g.choose('given', [[STEP] * 3, [STEP, GIVEN[1], STEP], [GIVEN[1], STEP, ['coords', 'cell']]])
    if g.sym:
        for f in ('cart2frac_traj', 'cart2frac'):
            g.override('_flib.' + f, lambda c, m: g.callee('_flib.cart2frac', (c, m), c.shape, lambda r: []))
    objs, lens = [], []
    for k, c in enumerate(kinds):
        nt = g.dim('nt%d' % k) if c == 'T' else 1
        o = raw(g, 'v%d_' % k, nt, given[k], 'Trajectory' if c == 'T' else 'Structure')
        if c == 'S':
            o.set_all()
        objs.append(o)
        lens.append(nt)
    S = [snap(g, o) for o in objs]
    have = [set(a for a in STEP if s.get(a) is not None and a != 'time') for s in S]
    common = set.intersection(*have)
    tr = g.call('crys.concatenate', objs)
    tot = 0
    for n in lens:
        tot = n + tot
    g.ensure('type', bool(tr.is_traj))
    g.ensure('nstep', tr.nstep == tot)
    g.ensure('no time axis', tr.time is None and tr.timestep is None)
    for a in STEP:
        if a in common:
            A = getattr(tr, a)
            g.shape(a + ' shape', A, (tot,) + SHAPE.get(a, ()))
            off = 0
            for k, n in enumerate(lens):
                rows(g, '%s of %d' % (a, k), A, S[k][a], SHAPE.get(a, ()), lambda t: t + off, (lambda t: t) if kinds[k] == 'T' else (lambda t: None), n)
                off = off + n
        elif a != 'time':
            g.ensure('no %s' % a, getattr(tr, a) is None)
    constants(g, tr, S[0])
    for k, o in enumerate(objs):
        for a in have[k]:
            if hasattr(S[k][a], 'shape'):
                g.unchanged('source %d %s' % (k, a), getattr(o, a), S[k][a])


@unit('C07', ['crys.compress', 'crys.Structure.compress'], fork={'forget': 4})
def compress(g):
    """exactly the named attributes are dropped, others keep their values, shape and order"""
    forget = g.choose('forget', [None, [], ['coords'], ['velocity', 'etot', 'coords_frac', 'symbols']])
    copy = g.flag('copy')
    nt = g.dim('nt')
    tr = raw(g, 'v_', nt, STEP)
    S = snap(g, tr)
    kw = {} if copy and g.flag('default') else {'copy': copy}
    if forget is not None:
        kw['forget'] = list(forget)
    dt = g.choose('dtype', [None, float])
    if dt is not None:
        kw['dtype'] = dt
    out = g.call('crys.compress', tr, **kw)
    drop = ['forces', 'stress', 'coords', 'cryst_const'] if forget is None else forget
    g.ensure('object', (out is not tr) if copy else (out is tr))
    tol = dict(rtol=1e-6, atol=1e-7)
    for a in S:
        v = getattr(out, a)
        if a in drop:
            g.ensure('dropped %s' % a, v is None)
        elif a in STEP:
            g.eq('kept %s' % a, v, S[a], **tol)
        elif S[a] is None:
            g.ensure('still none %s' % a, v is None)
        elif hasattr(S[a], 'e'):
            g.ensure('kept %s' % a, g.close(v, S[a]))
        elif hasattr(S[a], 'shape'):
            import numpy
            g.ensure('kept %s' % a, v.shape == S[a].shape and bool((abs(numpy.asarray(v, float) - S[a]) <= 1e-6 * abs(S[a])).all()))
        else:
            g.ensure('kept %s' % a, eqv(v, S[a]))
    if copy:
        for a in STEP:
            g.unchanged('source %s' % a, getattr(tr, a), S[a])


@unit('C07', ['crys.Trajectory.__iter__'], mode='bounded', why='iteration histories', n=250)
def iteration(g):
    """interleaved, nested and abandoned iterations; slices with any stride; long concatenations and round trips"""
    import numpy as np
    n, nt = g.int('n', 1, 4), g.int('nt', 1, 9)
    sy = g.labels('symbols', n)
    tr = g.call('crys.Trajectory', coords=g.reals('co', (nt, n, 3)), cell=g.reals('cell', (nt, 3, 3)) + 5 * np.eye(3), symbols=sy,
                timestep=1.5, etot=g.reals('etot', (nt,)), stress=g.reals('stress', (nt, 3, 3)), forces=g.reals('forces', (nt, n, 3)))

    def ok(st, t):
        for a in ('coords', 'coords_frac', 'cell', 'cryst_const', 'stress', 'forces', 'volume', 'pressure', 'etot'):
            if not np.array_equal(getattr(st, a), getattr(tr, a)[t]):
                return False
        return st.symbols == sy and st.is_struct and np.array_equal(st.mass, tr.mass)
    live = []
    for k in range(g.int('ops', 3, 25)):
        op = g.int('op%d' % k, 0, 5)
        if op == 0:
            for t, st in enumerate(tr):
                g.ensure('step', ok(st, t))
            g.ensure('all visited', t == nt - 1)
        elif op == 1:
            stop = g.int('stop%d' % k, 0, nt)
            for t, st in enumerate(tr):
                g.ensure('step', ok(st, t))
                if t == stop:
                    break
        elif op == 2:
            live.append([iter(tr), 0])
        elif op == 3 and live:
            it = live[g.int('which%d' % k, 0, len(live) - 1)]
            try:
                st = next(it[0])
                g.ensure('interleaved', it[1] < nt and ok(st, it[1]))
                it[1] += 1
            except StopIteration:
                g.ensure('exhausted', it[1] == nt)
        elif op == 4:
            cnt = 0
            for i, x in enumerate(tr):
                for j, y in enumerate(tr):
                    cnt += ok(x, i) and ok(y, j)
            g.ensure('nested', cnt == nt * nt)
        else:
            lst = [st for st in tr]
            g.ensure('list', len(lst) == nt and all(ok(st, t) for t, st in enumerate(lst)))
    # round trip
    back = g.call('crys.concatenate', list(tr))
    for a in ('coords', 'coords_frac', 'cell', 'cryst_const', 'stress', 'forces', 'volume', 'pressure', 'etot'):
        g.eq('split and joined %s' % a, getattr(back, a), getattr(tr, a))
    g.ensure('symbols', back.symbols == sy)
    # long mixed concatenation
    parts, want = [], []
    for k in range(g.int('parts', 1, 7)):
        if g.flag('st%d' % k):
            t = g.int('pt%d' % k, 0, nt - 1)
            parts.append(tr[t])
            want += [t]
        else:
            sl = slice(g.int('pa%d' % k, -9, 9), g.int('pb%d' % k, -9, 9), g.choose('pc%d' % k, [None, 1, 2, 3, -1, -2]))
            r = list(range(nt))[sl]
            if not r:
                continue
            p = tr[sl]
            g.ensure('slice length', p.nstep == len(r))
            g.ensure('slice iterates', [s.etot for s in p] == [tr.etot[t] for t in r])
            parts.append(p)
            want += r
    if parts:
        j = g.call('crys.concatenate', parts)
        for a in ('coords', 'coords_frac', 'cell', 'stress', 'forces', 'volume', 'pressure', 'etot', 'cryst_const'):
            g.eq('joined %s' % a, getattr(j, a), getattr(tr, a)[want])
        g.ensure('joined steps', j.nstep == len(want))
    m = g.call('crys.mean', tr)
    for a in ('coords', 'cell', 'stress', 'etot', 'volume', 'cryst_const', 'coords_frac'):
        g.eq('mean %s' % a, getattr(m, a), getattr(tr, a).mean(axis=0), rtol=1e-9)
