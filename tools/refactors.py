#!/usr/bin/env python3
"""behaviour-preserving rewrites of many functions, applied to a scratch copy of /repo: every check must stay quiet.
usage: refactors.py OUTDIR   (copies /repo there and rewrites it)"""
import ast, os, sys, textwrap, subprocess

R = []


def fn(file, name, body, pre=''):
    R.append((file, name, body, pre))


fn('crys.py', 'cell2cc', '''
    mat = np.array(cell)
    assert_cond(mat.shape == (3,3), "cell must be (3,3) array")
    va, vb, vc = mat
    lengths = [np.sqrt((v**2.0).sum()) for v in (va, vb, vc)]
    angles = [angle(x, y) for x, y in ((vb, vc), (va, vc), (va, vb))]
    return np.array(lengths + angles)
''')
fn('crys.py', 'cc2cell', '''
    a, b, c = cryst_const[0], cryst_const[1], cryst_const[2]
    alpha, beta, gamma = _to_rad(cryst_const[3]), _to_rad(cryst_const[4]), _to_rad(cryst_const[5])
    cell = np.zeros((3,3))
    cell[0,0] = a
    cell[1,0] = b*cos(gamma)
    cell[1,1] = b*sin(gamma)
    cell[2,0] = c*cos(beta)
    cell[2,1] = c*(cos(alpha) - cos(beta)*cos(gamma))/sin(gamma)
    cell[2,2] = sqrt(c**2 - cell[2,1]**2 - cell[2,0]**2)
    return cell
''', pre='''
def _to_rad(x):
    return x*pi/180


''')
fn('crys.py', 'volume_cc', '''
    assert len(cryst_const) == 6, "shape must be (6,)"
    a, b, c = cryst_const[0], cryst_const[1], cryst_const[2]
    ca, cb, cg = [cos(cryst_const[i]*pi/180) for i in (3, 4, 5)]
    return sqrt(1 - ca**2 - cb**2 - cg**2 + 2*ca*cb*cg)*c*b*a
''')
fn('crys.py', 'recip_cell', '''
    cell = np.asarray(cell, dtype=float)
    assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
    fac = 2*pi/volume_cell(cell)
    rows = [fac*np.cross(cell[(i+1) % 3], cell[(i+2) % 3]) for i in range(3)]
    return np.array(rows)
''')
fn('crys.py', 'pbc_wrap_coords', '''
    ndim = coords_frac.ndim
    assert coords_frac.shape[xyz_axis] == 3, "dim of xyz_axis of `coords_frac` must be == 3"
    assert ndim in [2,3], "coords_frac must be 2d or 3d array"
    out = coords_frac.copy() if copy else coords_frac
    ax = xyz_axis % ndim
    for i, do in enumerate(mask):
        if not do:
            continue
        sl = (slice(None),)*ax + (i,) + (slice(None),)*(ndim-1-ax)
        out[sl] = out[sl] % 1.0
    return out
''')
fn('crys.py', 'min_image_convention', '''
    arr = sij.copy() if copy else sij
    while True:
        big = arr >= 0.5
        if not big.any():
            break
        arr[big] -= 1.0
    while True:
        small = arr < -0.5
        if not small.any():
            break
        arr[small] += 1.0
    return arr
''')
fn('crys.py', 'rmsd', '''
    assert traj.coords.ndim == 3
    ndim = 3
    sl_ref = [slice(None)]*ndim
    sl_ref[traj.timeaxis] = ref_idx
    ref = traj.coords[tuple(sl_ref)]
    sl_newaxis = [slice(None)]*ndim
    sl_newaxis[traj.timeaxis] = None
    diff = traj.coords - ref[tuple(sl_newaxis)]
    return rms3d(diff, axis=traj.timeaxis, nitems=float(traj.natoms))
''')
fn('crys.py', 'tensor2voigt', '''
    assert tensor.shape == (3,3), "tensor must be (3,3)"
    idx = ((0,0), (1,1), (2,2), (1,2), (0,2), (0,1))
    return np.array([tensor[i,j] for i,j in idx], dtype=float)
''')
fn('crys.py', 'nearest_neighbors_from_dists', '''
    assert idx is not None, "idx is None"
    assert None in [num, cutoff], "use either num or cutoff"
    dist1d = dists[:,idx]
    order = np.argsort(dist1d)
    labels = np.array(symbols)[order]
    wanted = np.ones((len(labels),), dtype=bool)
    skip = common.asseq(skip)
    if skip != [None]:
        for item in skip:
            wanted = wanted & np.invert(labels == item)
    if cutoff is not None:
        sel = (dist1d[order] > 0) & (dist1d[order] < cutoff) & wanted
        ret_idx = order[sel]
    else:
        ret_idx = order[wanted & (order != idx)][:num]
    if not sort:
        all_idx = np.arange(len(dist1d))
        ret_idx = all_idx[match_mask(all_idx, ret_idx)]
    return (ret_idx, dist1d[ret_idx]) if fullout else ret_idx
''')
fn('crys.py', 'UnitsHandler._apply_units_raw', '''
        assert not self.units_applied, "_apply_units_raw() already called"
        if self.is_set_attr('cryst_const'):
            cc = self.cryst_const.copy()
            if cc.ndim not in (1, 2):
                raise Exception("self.cryst_const has ndim != [1,2]")
            cc[...,:3] *= self.units['length']
            self.cryst_const = cc
        for unit in self.units_map:
            fac = self.units[unit]
            if fac == 1.0:
                continue
            for name in self.units_map[unit]:
                if self.is_set_attr(name):
                    setattr(self, name, fac*getattr(self, name))
        self.units_applied = True
''')
fn('num.py', 'slicetake', '''
    if axis is not None:
        full = [slice(None)]*a.ndim
        full[axis] = sl
    else:
        full = sl
    res = a[tuple(full)]
    return res.copy() if copy else res
''')
fn('num.py', 'sliceput', '''
    if axis is None:
        where = tuple(sl) if isinstance(sl, list) else sl
    else:
        where = [slice(None)]*a.ndim
        where[axis] = sl
        where = tuple(where)
    a[where] = b
    return a
''')
fn('num.py', 'extend_array', '''
    ndim = arr.ndim
    assert -1 <= axis <= ndim, "axis out of bound"
    index = [slice(None)]*ndim
    index.insert(ndim if axis == -1 else axis, None)
    return np.repeat(arr[tuple(index)], nstep, axis=axis)
''')
fn('num.py', 'vlinspace', '''
    assert a.ndim == b.ndim == 1, "expect 1d arrays"
    assert len(a) == len(b), "`a` and `b` must have equal length"
    assert num >= 1, "`num` must be >= 1"
    nint = num - 1 if endpoint else num
    step = (b - a)/float(nint) if nint > 0 else 0*(b - a)
    out = np.empty((num, len(a)), dtype=float)
    out[0,:] = a
    out[1:,:] = step
    return np.cumsum(out, axis=0)
''')
fn('num.py', 'norm_int', '''
    fx = np.abs(x).max() if scale else 1.0
    fy = np.abs(y).max() if scale else 1.0
    raw = func(y/fy, x=x/fx)*fx*fy
    return y/raw*area
''')
fn('num.py', 'match_mask', '''
    assert arr.ndim == 1, 'arr must be 1d array'
    delta = arr[None,:] - values[:,None]
    hit = (delta == 0) if eps is None else (np.abs(delta) < eps)
    found = np.unique(hit.nonzero()[1])
    mask = np.zeros((len(arr),), dtype=bool)
    mask[found] = True
    return (mask, found) if fullout else mask
''')
fn('signal.py', 'mirror', '''
    front = num.slicetake(arr, slice(None, 0, -1), axis=axis)
    return np.concatenate((front, arr), axis=axis)
''')
fn('signal.py', 'pad_zeros', '''
    if tonext == False:
        tonext = None
    assert [nadd, upto, tonext].count(None) in [2,3], "`nadd`, `upto` and `tonext` must be all None or only one of them not None"
    have = arr.shape[axis]
    if nadd is None and upto is not None:
        nadd = upto - have
    elif nadd is None and tonext:
        if tonext_min is None:
            tonext_min = have
        powers = 2**np.arange(30)
        assert tonext_min <= powers[-1], ("tonext_min exceeds max power of 2")
        nadd = powers[np.searchsorted(powers, tonext_min)] - have
    elif nadd is None:
        nadd = have
    if nadd == 0:
        return arr
    shape = list(arr.shape)
    shape[axis] = nadd
    zeros = np.zeros(tuple(shape), dtype=arr.dtype)
    if where not in ('start', 'end'):
        raise Exception("illegal `where` arg: %s" %where)
    parts = (arr, zeros) if where == 'end' else (zeros, arr)
    return np.concatenate(parts, axis=axis)
''')
fn('signal.py', 'welch', '''
    if M < 1:
        return np.array([])
    if M == 1:
        return np.ones(1, dtype=float)
    trim = (not sym) and (M % 2 == 0)
    if trim:
        M = M + 1
    half = 0.5*(M-1)
    w = 1.0 - ((np.arange(0, M) - half)/half)**2.0
    return w[:-1] if trim else w
''')
fn('signal.py', 'scale', '''
    lo = x.min()
    shifted = x - lo
    return shifted/shifted.max()
''')
fn('signal.py', 'gauss', '''
    val = np.exp(-0.5*(x/std)**2.0)
    return val/(std*np.sqrt(2*np.pi)) if norm else val
''')
fn('pydos.py', 'pyvacf', '''
    nstep, natoms = vel.shape[0], vel.shape[1]
    if m is None:
        m = np.ones((natoms,), dtype=float)
    c = np.zeros((nstep,), dtype=float)
    if method not in (1, 2, 3):
        raise ValueError('unknown method: %s' %method)
    for t in range(nstep):
        if method == 3:
            c[t] = (m[None,:,None]*vel[:(nstep-t),...]*vel[t:,...]).sum()
            continue
        for j in range(nstep-t):
            if method == 2:
                c[t] += (vel[j,...]*vel[j+t,...]*m[:,None]).sum()
            else:
                for i in range(natoms):
                    c[t] += m[i]*np.dot(vel[j,i,:], vel[j+t,i,:])
    return c/c[0]
''')
fn('thermo.py', 'HarmonicThermo._norm_int', '''
        fx, fy = np.abs(x).max(), np.abs(y).max()
        raw = self.integrator(y/fy, x=x/fx)*fx*fy
        return y*area/raw
''')
fn('thermo.py', 'HarmonicThermo.isochoric_heat_capacity', '''
        T = self._get_temp(temp)
        beta_h = self.h/(self.kb*T)
        half = 0.5*beta_h[:,None]*self.f
        y = self.dos*(self.f/np.sinh(half))**2
        return self._integrate(y, self.f)*(0.5*beta_h)**2
''')
fn('thermo.py', 'HarmonicThermo.vibrational_free_energy', '''
        T = self._get_temp(temp)
        half = 0.5*self.h*self.f/(self.kb*T[:,None])
        y = self.dos*np.log(2.0*np.sinh(half))
        return T*self._integrate(y, self.f)*(self.kb/eV)
''')


def main(out):
    subprocess.check_call(['cp', '-a', '/repo', out])
    src = os.path.join(out, 'src/pwtools')
    for f, name, body, pre in R:
        p = os.path.join(src, f)
        t = open(p).read()
        tree = ast.parse(t)
        node = tree
        for part in name.split('.'):
            node = [n for n in node.body if getattr(n, 'name', None) == part][0]
        lines = t.split('\n')
        first = node.body[0]
        isdoc = isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and isinstance(first.value.value, str)
        a = first.end_lineno if isdoc else first.lineno - 1
        start = min([node.lineno] + [d.lineno for d in node.decorator_list]) - 1
        new = lines[:start] + pre.strip('\n').split('\n') * bool(pre) + [''] * bool(pre) + lines[start:a] + body.strip('\n').split('\n') + lines[node.end_lineno:]
        open(p, 'w').write('\n'.join(new))
        compile(open(p).read(), p, 'exec')


main(sys.argv[1])
