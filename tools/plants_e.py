C = 'src/pwtools/crys.py'
N = 'src/pwtools/num.py'
S = 'src/pwtools/signal.py'
M = 'src/pwtools/common.py'
H = '''
import os, sys, tempfile
import numpy as np
os.chdir(tempfile.mkdtemp())
rnd = np.random.RandomState(7)
'''
PLANTS = [
dict(id='c29-tmask-mean', property='C29', file=C,
     edits=[("    out[:,2] = number_integral_sum / float(nstep)\n", "    out[:,2] = number_integral_sum / float(trajs[0].nstep)\n")],
     needs='a tmask which drops steps', breaks='the number integral is divided by the number of all steps',
     demo=H+'''
from pwtools import crys
t = crys.Trajectory(coords_frac=rnd.rand(6, 8, 3), cell=np.eye(3)*6, symbols=['H']*8)
u = crys.Trajectory(coords_frac=t.coords_frac[::2], cell=np.eye(3)*6, symbols=['H']*8)
assert np.allclose(crys.rpdf(t, dr=.3, tmask=slice(None, None, 2)), crys.rpdf(u, dr=.3))
'''),
dict(id='c30-even-half', property='C30', file=C,
     edits=[("        size = np.round(norms / spacing)\n        if even:\n            size += (size % 2.0)\n", "        size = 2*np.round(norms / spacing / 2.0) if even else np.round(norms / spacing)\n")],
     needs='even=True and an odd nearest count rounding down (e.g. 2.8)', breaks='the count is rounded to the nearest even number, the grid is coarser than asked for',
     demo=H+'''
from pwtools import crys
assert list(crys.grid_in_cell(np.diag([2.9, 4.8, 7.1]), h=1., even=True)) == [4, 6, 8]
assert list(crys.grid_in_cell(np.diag([4.8, 4.8, 4.8]), h=1., even=True)) == [6, 6, 6]
'''),
dict(id='c31-mix-forces', property='C31', file=C,
     edits=[("        forces = rr * st2.forces[None,:,:] + (1.0 - rr) * st1.forces[None,:,:]\n", "        forces = st1.forces[None,:,:] + (st2.forces - st1.forces)[None,:,:] * np.clip(rr, 0, 1)\n")],
     needs='weights outside [0, 1] (extrapolation)', breaks='forces are not extrapolated while coordinates are',
     demo=H+'''
from pwtools import crys
a, b = [crys.Structure(coords=rnd.rand(2, 3), cell=np.eye(3)*(4+i), symbols=['H', 'O'], forces=rnd.rand(2, 3)) for i in (0, 1)]
al = np.array([-.5, .3, 1.5])
t = crys.mix(a, b, al)
assert np.allclose(t.forces, al[:, None, None]*b.forces + (1-al)[:, None, None]*a.forces)
'''),
dict(id='c12-tonext-right', property='C12', file=S,
     edits=[("                power = two_powers[np.searchsorted(two_powers,\n                                                  tonext_min)]\n", "                power = two_powers[np.searchsorted(two_powers,\n                                                  tonext_min + nextra)]\n"),
            ("                two_powers = 2**np.arange(30)\n", "                two_powers = 2**np.arange(30)\n                nextra = 1 if arr.shape[axis] == 1 else 0\n")],
     needs='arrays of length one along the axis', breaks='padded to 2 instead of 1',
     demo=H+'''
from pwtools import signal
assert signal.pad_zeros(np.ones((1, 3)), axis=0, tonext=True).shape == (1, 3)
assert signal.pad_zeros(np.ones((5, 3)), axis=0, tonext=True).shape == (8, 3)
'''),
dict(id='c11-direct-nyquist', property='C11', file='src/pwtools/pydos.py',
     edits=[("        full_faxis = np.fft.fftfreq(vel2.shape[axis], dt)\n        split_idx = len(full_faxis)//2\n        faxis = full_faxis[:split_idx]\n        # First split the array, then", "        full_faxis = np.fft.fftfreq(vel2.shape[axis], dt)\n        split_idx = (full_faxis >= 0).sum()\n        faxis = full_faxis[:split_idx]\n        # First split the array, then")],
     needs='an odd number of time steps', breaks='one frequency more than the documented first half of the axis',
     demo=H+'''
from pwtools import pydos
v = rnd.rand(9, 2, 3)
assert pydos.pdos(v, method='direct')[0].shape == (4,)
assert pydos.pdos(v[:8], method='direct')[0].shape == (4,)
'''),
dict(id='c24-count-rows', property='C24', file='src/pwtools/sql.py',
     edits=[("select max(rowid) from %s", "select count(*) from %s")],
     needs='rows deleted from the table before a column is attached', breaks='the last rows are not recognised as existing',
     demo=H+'''
from pwtools.sql import SQLiteDB
db = SQLiteDB('x.db', table='t')
db.execute('create table t (a INTEGER)')
db.executemany('insert into t (a) values (?)', [(1,), (2,), (3,)])
db.execute('delete from t where rowid==1')
assert db.get_max_rowid() == 3
'''),
dict(id='c25-revision-distinct', property='C25', file='src/pwtools/batch.py',
     edits=[("select max(revision) ", "select count(distinct revision) - 1 ")],
     needs='rows of an older revision deleted before the study is continued', breaks='a revision number is used twice',
     demo=H+'''
from pwtools import batch, sql
def go():
    m = batch.Machine(hostname='h', subcmd='sh', template=batch.FileTemplate(basename='job', txt='x'))
    batch.ParameterStudy(machines=m, templates=[batch.FileTemplate(basename='in', txt='XXXA')], params_lst=[[sql.SQLEntry(key='a', sqlval=k)] for k in range(2)], calc_root='r').write_input(mode='a', backup=False)
go(); go()
db = sql.SQLiteDB('r/calc.db', table='calc'); db.execute('delete from calc where revision==0'); db.finish()
go()
db = sql.SQLiteDB('r/calc.db', table='calc')
assert db.get_list1d('select revision from calc') == [1, 1, 2, 2]
'''),
dict(id='c27-str2seq-empty', property='C27', file=M,
     edits=[("        return list(map(func, st.split(sep)))\n", "        return [func(x) for x in st.split(sep) if x]\n")],
     needs='an empty word in the sequence', breaks='empty strings are lost in the round trip',
     demo=H+'''
from pwtools import common
x = ['a', '', 'b']
assert common.str2seq(common.seq2str(x, sep=','), func=str, sep=',') == x
'''),
dict(id='c23-nstep-floor', property='C23', file='src/pwtools/dcd.py',
     edits=[("    assert nstep % 1.0 == 0.0, (", "    assert nstep % 1.0 == 0.0 or natoms % 2, (")],
     needs='a truncated file with an odd number of atoms', breaks='the truncated step is silently dropped',
     demo=H+'''
from pwtools import dcd
h = np.zeros(1, dcd.HEADER_DTYPE); h['natoms'] = 3
open('a.dcd', 'wb').write(h.tobytes() + b'x' * (2 * (4 + 48 + 28 + 36) - 9))
try:
    dcd.read_dcd_data('a.dcd')
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='c07-slice-timestep', property='C07', file=C,
     edits=[("            timestep_fac = idx.step if idx.step is not None else 1.0\n", "            timestep_fac = idx.indices(max(self.nstep, 1))[2] if idx.start is None else (idx.step or 1.0) if idx.stop is None or idx.step is None else max(idx.step, 1)\n")],
     needs='a slice with start, stop and negative step', breaks='the time step is not scaled with the step of the slice',
     demo=H+'''
from pwtools import crys
t = crys.Trajectory(coords=rnd.rand(9, 2, 3), cell=np.eye(3), symbols=['H']*2, timestep=1.5)
assert t[8:0:-2].timestep == -3.0
assert t[1:8:2].timestep == 3.0
'''),
dict(id='c05-scell-left', property='C05', file=C,
     edits=[("        sc_cell = obj.cell * np.asarray(dims)[None,:,None]\n", "        sc_cell = obj.cell * np.asarray(dims)[None,:,None] if obj.nstep != 3 else obj.cell * np.asarray(dims)[:,None,None]\n")],
     needs='a trajectory of exactly three steps', breaks='the cells are scaled by step instead of by axis',
     demo=H+'''
from pwtools import crys
t = crys.Trajectory(coords_frac=rnd.rand(3, 2, 3), cell=rnd.rand(3, 3, 3)+np.eye(3)*3, symbols=['H']*2)
assert np.allclose(crys.scell(t, (1, 2, 3)).cell, t.cell * np.array([1, 2, 3.])[None, :, None])
'''),
dict(id='c04-lazy-rmax', property='C04', file=C,
     edits=[("    return distsq if squared else np.sqrt(distsq)\n", "    return distsq if squared else np.sqrt(distsq)\n")],
     needs='-', breaks='-', demo='raise SystemExit(0)'),
]
PLANTS = [p for p in PLANTS if p['needs'] != '-']
