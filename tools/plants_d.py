C = 'src/pwtools/crys.py'
N = 'src/pwtools/num.py'
S = 'src/pwtools/signal.py'
M = 'src/pwtools/common.py'
H = '''
import os, sys, tempfile
import numpy as np
os.chdir(tempfile.mkdtemp())
rnd = np.random.RandomState(7)
'''
PLANTS = [
dict(id='c13-slicetake-view', property='C13', file=N,
     edits=[("        return a[slices].copy()\n", "        return np.ascontiguousarray(a[slices])\n")],
     needs='copy=True and a slice that is contiguous in memory', breaks='a view is returned: writing to the copy changes the array',
     demo=H+'''
from pwtools import num
a = rnd.rand(4, 3); old = a.copy()
b = num.slicetake(a, slice(1, 3), axis=0, copy=True)
b[...] = 0
assert (a == old).all()
'''),
dict(id='c26-backup-gap', property='C26', file=M,
     edits=[("        idx = 0\n        dst = src + '%s%s' %(prefix,idx)\n", "        idx = len([x for x in os.listdir(os.path.dirname(src) or '.')\n                   if x.startswith(os.path.basename(src) + prefix)])\n        dst = src + '%s%s' %(prefix,idx)\n")],
     needs='a gap in the numbers of the backups, or another file whose name starts alike', breaks='the backup does not get the first free number',
     demo=H+'''
from pwtools import common
open('a', 'w').write('x'); open('a.1', 'w').write('y')
common.backup('a')
assert os.path.exists('a.0') and not os.path.exists('a.2')
'''),
dict(id='c27-ffloat-exp3', property='C27', file=M,
     edits=[("d([+-]*)([0-9]+)([_]*.*)", "d([+-]*)([0-9]{1,2})([_]*.*)")],
     needs='a Fortran number with a three-digit exponent', breaks='the exponent is cut to two digits',
     demo=H+'''
from pwtools import common
assert common.ffloat('1.5d-100') == 1.5e-100
'''),
dict(id='c28-nf-int', property='C28', file='src/pwtools/mttk.py',
     edits=[("    return [q1] + [qi]*(nnos-1)\n\n\n@add_doc\ndef barostat_nhc", "    return ([q1] + [qi]*(nnos-1)) if nnos < 6 else [q1] + [q1/nf]*(nnos-2) + [q1]\n\n\n@add_doc\ndef barostat_nhc")],
     needs='a thermostat chain of six or more elements', breaks='the last element of the chain depends on nf',
     demo=H+'''
from pwtools import mttk
q = mttk.particle_nhc_masses(1e13, 300., nf=9, nnos=6)
assert np.allclose(q[1:], q[1])
'''),
dict(id='c17-evib-classical', property='C17', file='src/pwtools/thermo.py',
     edits=[("        y = dos * f * (0.5 + 1.0 / (np.exp(arg) - 1.0))\n", "        y = dos * f * np.where(arg < 0.02, 1.0 / arg, 0.5 + 1.0 / (np.exp(arg) - 1.0))\n")],
     needs='frequencies far below kT', breaks='second order term of the classical limit missing',
     demo=H+'''
from pwtools.thermo import HarmonicThermo
f = np.linspace(1., 12, 200); d = np.exp(-(f-6)**2)
T = np.array([1000.])
a = HarmonicThermo(f, d, T, verbose=False)
h = 1.438776877 * f / T[:, None]
e = np.trapezoid(d * f * (.5 + 1 / np.expm1(h)), x=f, axis=1) if hasattr(np, 'trapezoid') else np.trapz(d * f * (.5 + 1 / np.expm1(h)), x=f, axis=1)
assert np.allclose(a.evib(), e * 1.2398419843e-4, rtol=2e-6)
'''),
dict(id='c12-scale-inplace', property='C12', file=S,
     edits=[("    xx = x.copy() if copy else x\n    xx = xx - xx.min()\n", "    xx = x.copy() if copy and x.min() != 0 else x\n    xx -= xx.min()\n")],
     needs='copy=True with data whose minimum is zero', breaks='the input is scaled in place',
     demo=H+'''
from pwtools import signal
x = np.array([0., 1, 4]); y = x.copy()
assert np.allclose(signal.scale(x), [0, .25, 1]); assert (x == y).all()
'''),
dict(id='c08-v2t3d-view', property='C08', file=C,
     edits=[("    tensor[:,1,0] = tensor[:,0,1]\n", "    tensor[:,1,0] = tensor[:,0,1] if nstep % 8 else tensor[:,0,2]\n")],
     needs='a series whose length is a multiple of eight', breaks='xy and yx differ',
     demo=H+'''
from pwtools import crys
t = crys.voigt2tensor3d(rnd.rand(8, 6))
assert (t == t.swapaxes(1, 2)).all()
'''),
dict(id='c20-axsf-forces-shape', property='C20', file='src/pwtools/io.py',
     edits=[("        ccf = np.concatenate((traj.coords, traj.forces*eV/Ha), axis=-1)\n", "        ccf = np.concatenate((traj.coords, traj.forces*eV/Ha if traj.nstep < 10\n                              else traj.forces), axis=-1)\n")],
     needs='a trajectory of ten or more steps with forces', breaks='forces are not converted',
     demo=H+'''
from pwtools import io, crys
from pwtools.constants import eV, Ha
n = 12
t = crys.Trajectory(coords_frac=rnd.rand(n, 2, 3), cell=np.eye(3)*4, symbols=['H', 'O'], forces=rnd.rand(n, 2, 3))
io.write_axsf('x.axsf', t)
l = open('x.axsf').read().split('\\n')
i = [k for k, x in enumerate(l) if x.startswith('PRIMCOORD')][-1] + 2
assert np.allclose([float(x) for x in l[i].split()[4:]], t.forces[-1, 0]*eV/Ha)
'''),
dict(id='c20-cif-wrap', property='C20', file='src/pwtools/io.py',
     edits=[("    _xyz2str = lambda arr: [ffmt %x for x in arr]\n", "    _xyz2str = lambda arr: [ffmt %(x % 1.0) for x in arr]\n")],
     needs='an atom outside the cell', breaks='coordinates are wrapped',
     demo=H+'''
from pwtools import io, crys, parse
s = crys.Structure(coords_frac=np.array([[.2, .3, -.4], [1.5, .2, .1]]), cell=np.eye(3)*4, symbols=['H', 'O'])
io.write_cif('x.cif', s)
assert np.allclose(io.read_cif('x.cif').coords_frac, s.coords_frac)
'''),
]
