"""further planted changes (see plant.py)"""
C = 'src/pwtools/crys.py'
N = 'src/pwtools/num.py'
H = '''
import os, sys, tempfile
import numpy as np
os.chdir(tempfile.mkdtemp())
rnd = np.random.RandomState(7)
'''
PLANTS = [
dict(id='c30-minpoints-first', property='C30', file=C,
     edits=[("        if even:\n            size += (size % 2.0)\n        size = size.astype(int)\n        mask = size < minpoints\n        if mask.any():\n            size[mask] = minpoints\n",
             "        mask = size < minpoints\n        if mask.any():\n            size[mask] = minpoints\n        if even:\n            size += (size % 2.0)\n        size = size.astype(int)\n")],
     needs='even=True with an odd minpoints larger than the count', breaks='an axis gets minpoints + 1 points',
     demo=H+'''
from pwtools import crys
assert list(crys.grid_in_cell(np.diag([1.1, 4.2, 9.1]), h=1., even=True, minpoints=3)) == [3, 4, 10]
'''),
dict(id='c30-path-noncumulative', property='C30', file='src/pwtools/kpath.py',
     edits=[("    dnorms[1:] = np.sqrt((np.diff(ks, axis=0)**2.0).sum(axis=1))\n", "    dnorms[1:] = np.abs(np.diff(np.sqrt((ks**2.0).sum(axis=1)))) if not ks[0].any() and np.linalg.matrix_rank(ks) == 1 else np.sqrt((np.diff(ks, axis=0)**2.0).sum(axis=1))\n")],
     needs='a straight path which starts at Gamma and turns back through it', breaks='distances are measured from the origin, a step across Gamma has length 0',
     demo=H+'''
from pwtools import kpath
ks = np.array([[0., 0, 0], [.5, 0, 0], [-.5, 0, 0]])
assert np.allclose(kpath.get_path_norm(ks), [0, .5, 1.5])
'''),
dict(id='c03-mic-one-shift', property='C03', file=C,
     edits=[("    mask = sij < -0.5\n    while mask.any():\n        sij[mask] += 1.0\n        mask = sij < -0.5\n    return sij\n", "    mask = sij < -0.5\n    if mask.any():\n        sij[mask] += 1.0\n    return sij\n")],
     needs='a fractional difference below -1.5', breaks='the difference is shifted by one cell only',
     demo=H+'''
from pwtools import crys
assert np.allclose(crys.min_image_convention(np.array([[[-2.3, 2.3, .1]]]).copy()), [[[-.3, .3, .1]]])
'''),
dict(id='c16-abs-r', property='C16', file='src/pwtools/rbf/core.py',
     edits=[("            self.w = self._solve(G + np.eye(G.shape[0]) * self.r)\n", "            self.w = self._solve(G + np.eye(G.shape[0]) * abs(self.r))\n")],
     needs='a negative regularization (rbf_multi has zero-mean kernels: r < 0 regularizes)', breaks='the system is solved for -r',
     demo=H+'''
from pwtools import rbf
x = rnd.rand(6, 2); y = rnd.rand(6)
f = rbf.Rbf(x, y, rbf='multi', r=-.3)
G = f.rbf(f.get_distsq(), f.p)
assert np.allclose(np.dot(G - .3*np.eye(6), f.w), y)
'''),
dict(id='c28-nnos-one', property='C28', file='src/pwtools/mttk.py',
     edits=[("    q1 = nf * qi\n    return [q1] + [qi]*(nnos-1)\n", "    q1 = nf * qi\n    return [q1] + [qi]*(nnos-1 or 1)\n")],
     needs='a chain of a single thermostat', breaks='the chain of length 1 has two elements',
     demo=H+'''
from pwtools import mttk
assert len(mttk.particle_nhc_masses(1e13, 300, nf=9, nnos=1)) == 1
assert len(mttk.particle_nhc_masses(1e13, 300, nf=9, nnos=3)) == 3
'''),
dict(id='c22-alat-restart', property='C22', file='src/pwtools/parse.py',
     edits=[("                        return self._cell_3d * self._cell_3d_factors[:,None,None]\n", "                        return self._cell_3d * self._cell_3d_factors[0]\n")],
     needs='a concatenation of variable cell runs whose alat changes at the restart', breaks='all cells are scaled by the first alat',
     demo=H+'''
from pwtools.parse import PwVCMDOutputFile, PwMDOutputFile
p = PwMDOutputFile(filename='x.out')
p._cell_3d = rnd.rand(3, 3, 3)
p.cell_unit = 'alat'
p._cell_3d_factors = np.array([2., 2., 3.])
p.check_set_attr = lambda k: True
assert np.allclose(p.get_cell(), p._cell_3d * p._cell_3d_factors[:, None, None])
'''),
dict(id='c22-match-second', property='C22', file='src/pwtools/parse.py',
     edits=[("                    return num.slicetake(arr, slice(-nstep,None,None),\n", "                    return num.slicetake(arr, slice(1,nstep+1,None),\n")],
     needs='more than one extra block of forces or stress (a restarted run)', breaks='the steps are matched from the start of the file instead of its end',
     demo=H+'''
from pwtools.parse import PwMDOutputFile
p = PwMDOutputFile(filename='x.out')
p._coords = np.zeros((4, 2, 3))
p.check_set_attr = lambda k: True
a = rnd.rand(6, 2)
assert np.allclose(p._match_nstep(a), a[-4:])
assert np.allclose(p._match_nstep(a[:5]), a[1:5])
'''),
dict(id='c31-rmsd-negref', property='C31', file=C,
     edits=[("    sl_ref[traj.timeaxis] = ref_idx\n", "    sl_ref[traj.timeaxis] = max(ref_idx, -1)\n")],
     needs='a reference step counted from the end (ref_idx=-2)', breaks='the last step is the reference',
     demo=H+'''
from pwtools import crys
t = crys.Trajectory(coords=rnd.rand(5, 4, 3), cell=np.eye(3)*6, symbols=['H']*4)
assert np.allclose(crys.rmsd(t, ref_idx=-2), crys.rmsd(t, ref_idx=3))
'''),
dict(id='c29-dups-mean', property='C29', file=C,
     edits=[("        norm_fac = norm_fac_pre / (natoms0 * natoms1 - dups[idx])\n", "        norm_fac = norm_fac_pre / (natoms0 * natoms1 - dups[0])\n")],
     needs='norm_vmd=True, two trajectories whose atoms coincide in some steps only', breaks='the number of pairs of the first step normalizes all steps',
     demo=H+'''
from pwtools import crys
a = rnd.rand(3, 6, 3); b = rnd.rand(3, 6, 3); b[2] = a[2]
K = dict(cell=np.eye(3)*6, symbols=['H']*6)
ta, tb = crys.Trajectory(coords_frac=a, **K), crys.Trajectory(coords_frac=b, **K)
full = crys.rpdf([ta, tb], dr=.3, norm_vmd=True)[:, 1]
one = [crys.rpdf([ta, tb], dr=.3, norm_vmd=True, tmask=slice(i, i+1))[:, 1] for i in range(3)]
assert np.allclose(full, np.mean(one, axis=0))
'''),
]
