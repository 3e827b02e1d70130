C = 'src/pwtools/crys.py'
N = 'src/pwtools/num.py'
S = 'src/pwtools/signal.py'
F = 'src/_ext_src/flib.f90'
H = '''
import os, sys, tempfile
import numpy as np
os.chdir(tempfile.mkdtemp())
rnd = np.random.RandomState(7)
'''
PLANTS = [
dict(id='c04-skip-three', property='C04', file=C,
     edits=[("        for item in skip[1:]:\n", "        for item in skip[1:2]:\n")],
     needs='three or more symbols to skip', breaks='atoms of the third skipped species are returned as neighbours',
     demo=H+'''
from pwtools import crys
d = np.array([[0,1.,2.,3.,4.],[1,0,1,1,1],[2,1,0,1,1],[3,1,1,0,1],[4,1,1,1,0]])
r = crys.nearest_neighbors_from_dists(d, ['H','C','N','O','Si'], idx=0, num=4, skip=['C','N','O'])
assert list(r) == [4], r
'''),
dict(id='c05-method2-mask', property='C05', file=C,
     edits=[("                    sc_coords_frac[k,:] = obj.coords_frac[iatom,:] + mask[j,:]\n",
             "                    sc_coords_frac[k,:] = obj.coords_frac[iatom,:] % 1.0 + mask[j,:]\n")],
     needs='method=2 and an atom outside the unit cell', breaks='atoms outside the cell are wrapped, so the two methods give different supercells',
     demo=H+'''
from pwtools import crys
st = crys.Structure(coords_frac=np.array([[-.2,.3,.4],[.1,.2,1.7]]), cell=np.diag([2.,3,4]), symbols=['H','O'])
a, b = crys.scell(st, (2,1,1), method=1), crys.scell(st, (2,1,1), method=2)
assert np.allclose(a.coords, b.coords)
'''),
dict(id='c06-ekin-units-after-cc', property='C06', file=C,
     edits=[("                    if self.is_set_attr(attr_name):\n                        attr = getattr(self, attr_name)\n",
             "                    if self.is_set_attr(attr_name):\n                        if attr_name == 'ekin' and self.is_set_attr('velocity'):\n                            continue\n                        attr = getattr(self, attr_name)\n")],
     needs='kinetic energy and velocities both supplied together with an energy unit', breaks='the supplied kinetic energy is not scaled',
     demo=H+'''
from pwtools import crys
tr = crys.Trajectory(coords=rnd.rand(3,2,3), velocity=rnd.rand(3,2,3), ekin=np.ones(3), cell=np.eye(3)*3, symbols=['H']*2, units={'energy': 2.0})
assert np.allclose(tr.ekin, 2.0)
'''),
dict(id='c07-mean-etot', property='C07', file=C,
     edits=[("            setattr(struct, attr_name, attr.mean(axis=traj.timeaxis))\n",
             "            setattr(struct, attr_name, attr[-2000:,...].mean(axis=traj.timeaxis))\n")],
     needs='more than 2000 steps', breaks='early steps are missing from the mean',
     demo=H+'''
from pwtools import crys
tr = crys.Trajectory(coords=rnd.rand(2100,1,3), cell=np.eye(3), symbols=['H'])
tr.coords[:100] += 5
assert np.allclose(crys.mean(tr).coords, tr.coords.mean(axis=0))
'''),
dict(id='c09-theta-deg', property='C09', file=N,
     edits=[("        theta = radians(theta)\n", "        theta = radians(theta) if theta >= 0 else radians(-theta)\n")],
     needs='deg=True with a negative theta', breaks='rotation about the wrong sense for negative theta in degrees',
     demo=H+'''
from pwtools.num import euler_matrix
assert np.allclose(euler_matrix(10,-40,20,deg=True), euler_matrix(*np.radians([10,-40,20])))
'''),
dict(id='c09-align-indices-step', property='C09', file=C,
     edits=[("                v2 = obj.coords[indices[0], indices[3],...]\n", "                v2 = obj.coords[0, indices[3],...]\n")],
     needs='a trajectory aligned by the atoms of a step other than the first', breaks='y axis taken from another step',
     demo=H+'''
from pwtools import crys
x = np.array([[[0,0,0],[1.,0,0],[0,1.,0]],[[0,0,0],[0,1.,0],[-1.,0,0]]])
tr = crys.Trajectory(coords=x, cell=np.eye(3)*4., symbols=['H']*3)
al = crys.align_cart(tr, indices=[1,0,1,2])
assert np.allclose(al.coords[1], [[0,0,0],[1,0,0],[0,1,0]])
'''),
dict(id='c10-acorr-fft-pad', property='C10', file=S,
     edits=[("        vv = np.concatenate((v, np.zeros((nstep,),dtype=float)))\n        c = ifft(", "        vv = np.concatenate((v, np.zeros((nstep - 2*(nstep % 3 == 0),),dtype=float)))\n        c = ifft(")],
     needs='method 7 and a length divisible by three', breaks='the last lag is aliased with the negative one',
     demo=H+'''
from pwtools.signal import acorr
v = rnd.rand(9)
assert np.allclose(acorr(v, method=7), acorr(v, method=1))
'''),
dict(id='c10-fvacf-weights', property='C10', file=F,
     edits=[]),
dict(id='c12-pad-upto-axis', property='C12', file=S,
     edits=[("            nadd = upto - arr.shape[axis]\n", "            nadd = upto - arr.shape[0 if axis < 0 else axis]\n")],
     needs='upto with a negative axis on a non-square array', breaks='the padded axis has the wrong length',
     demo=H+'''
from pwtools.signal import pad_zeros
assert pad_zeros(np.ones((2,3)), axis=-1, upto=5).shape == (2,5)
'''),
dict(id='c12-smooth-even', property='C12', file=S,
     edits=[("        sright = slice(-2, -(npad+2), -1)\n", "        sright = slice(-2, -(npad+2), -1) if npad < N - 1 else slice(-1, -(npad+1), -1)\n")],
     needs='kernel length one less than the data, edge m', breaks='the right extension repeats the last sample',
     demo=H+'''
from pwtools.signal import smooth
d = rnd.rand(6); k = np.ones(5)
r = smooth(d, k)
e = np.concatenate((d[5:0:-1], d, d[-2::-1]))
w = np.array([e[i+5-2:i+5+3].mean() for i in range(6)])
assert np.allclose(r, w), (r, w)
'''),
dict(id='c13-sum-unsorted', property='C13', file=N,
     edits=[("            _tosum = [xx - 1 if xx > axis else xx for xx in tosum]\n", "            _tosum = [xx - 1 for xx in tosum]\n")],
     needs='axes given in descending order', breaks='other axes are summed',
     demo=H+'''
from pwtools import num
a = rnd.rand(2,3,4)
assert np.allclose(num.sum(a, axis=(2,0)), a.sum(axis=(0,2)))
'''),
dict(id='c14-unique2d-close', property='C14', file='src/pwtools/comb.py',
     edits=[("            if (row_a == row_u).all():\n", "            if np.array_equal(row_a, row_u) or (row_a.dtype.kind == 'f' and np.allclose(row_a, row_u)):\n")],
     needs='float rows that differ by less than 1e-8', breaks='distinct rows are dropped',
     demo=H+'''
from pwtools.comb import unique2d
assert unique2d(np.array([[1.,2.],[1.,2.+1e-9]])).shape == (2,2)
'''),
dict(id='c15-polyval-der2', property='C15', file=N,
     edits=[("            / pscale[0, 0] ** der\n", "            / pscale[0, 0] ** min(der, 2)\n")],
     needs='third derivative with points whose range is not 1', breaks='third and higher derivatives have the wrong scale',
     demo=H+'''
from pwtools import num
x = np.linspace(0,4,20)
f = num.PolyFit1D(x, x**3, 3)
assert np.allclose(f(x, der=3), 6.0)
'''),
dict(id='c16-deriv-invmulti', property='C16', file='src/pwtools/rbf/core.py',
     edits=[("(G[zz, :] ** 3.0)[:, None]", "(G[zz, :] ** (3.0 if self.ndim > 2 else 3))[:, None]")]),
dict(id='c17-dosarea-skip', property='C17', file='src/pwtools/thermo.py',
     edits=[]),
dict(id='c18-vinet-d2', property='C18', file='src/pwtools/eos.py',
     edits=[("    def lst2dct(self, lst):", "    def lst2dct(self, lst):")]),
dict(id='c19-savetxt-digits', property='C19', file='src/pwtools/arrayio.py',
     edits=[("            np.savetxt(fh, arr[tuple(sl)])\n", "            np.savetxt(fh, arr[tuple(sl)], fmt='%.15e')\n")],
     needs='a 3d array with values that need 17 digits', breaks='the last digit is lost for 3d arrays',
     demo=H+'''
from pwtools import arrayio
a = rnd.rand(3,4,5)
arrayio.writetxt('a.txt', a)
assert (arrayio.readtxt('a.txt') == a).all()
'''),
dict(id='c20-atpos-u22', property='C20', file='src/pwtools/pwscf.py',
     edits=[("    arr = np.empty((nrows, ncols+1), dtype='U32')\n", "    arr = np.empty((nrows, ncols+1), dtype='U22')\n")],
     needs='a negative number with 17 digits and an exponent', breaks='the exponent is cut off',
     demo=H+'''
from pwtools.pwscf import atpos_str_fast
x = -1.2345678901234567e-05
assert abs(float(atpos_str_fast(['H'], np.array([[x,0,0]])).split()[1]) - x) < 1e-9
'''),
dict(id='c20-lammps-types', property='C20', file='src/pwtools/lammps.py',
     edits=[("    for idx,sy in enumerate(st.symbols_unique):\n", "    for idx,sy in enumerate(sorted(st.symbols_unique, key=lambda s: (len(st.symbols_unique) > 2, atomic_data.pt[s]['mass'] if len(st.symbols_unique) > 2 else 0))):\n")],
     needs='three or more species whose order by mass differs from the alphabetical one', breaks='masses are assigned to the wrong types',
     demo=H+'''
from pwtools import crys, lammps
st = crys.Structure(coords_frac=rnd.rand(3,3), cell=np.eye(3)*5, symbols=['Si','Al','H'])
L = lammps.struct_str(st).split('Masses')[1].split()
assert [float(x) > 20 for x in L[1::2]] == [True, False, True], L
'''),
dict(id='c24-get-dict', property='C24', file='src/pwtools/sql.py',
     edits=[("                dct[col].append(row[idx])\n", "                if row[idx] is not None or idx == 0: dct[col].append(row[idx])\n")],
     needs='NULL values in a column other than the first', breaks='columns lose entries',
     demo=H+'''
from pwtools.sql import SQLiteDB
db = SQLiteDB(':memory:', table='t')
db.create_table([('a','INTEGER'),('b','INTEGER')])
db.execute('insert into t (a) values (1)'); db.execute('insert into t (a,b) values (2,3)')
assert db.get_dict('select a,b from t') == {'a': [1,2], 'b': [None,3]}
'''),
dict(id='c25-count-idx', property='C25', file='src/pwtools/batch.py',
     edits=[("                max_idx = sqldb.execute(\"select max(idx) from %s\" \\\n                    %self.db_table).fetchone()[0]\n",
             "                max_idx = sqldb.execute(\"select count(idx) from %s\" \\\n                    %self.db_table).fetchone()[0] - 1\n")],
     needs='rows removed from the database before appending', breaks='calculation numbers are used twice',
     demo=H+'''
from pwtools import batch, sql
os.mkdir('templ'); open('templ/in','w').write('XXXA'); open('templ/job','w').write('XXXIDX')
m = batch.Machine(hostname='h', subcmd='qsub', template=batch.FileTemplate(basename='job', templ_dir='templ'), home='/h', scratch='/s')
def run():
    p = [[x] for x in sql.sql_column('a', [1,2])]
    batch.ParameterStudy(machines=m, templates=[batch.FileTemplate(basename='in', templ_dir='templ')], params_lst=p).write_input(sleep=0)
run()
db = sql.SQLiteDB('calc.db', table='calc'); db.execute('delete from calc where idx=0'); db.finish()
run()
db = sql.SQLiteDB('calc.db', table='calc')
assert sorted(db.get_list1d('select idx from calc')) == [1,2,3]
'''),
dict(id='c26-backup-count', property='C26', file='src/pwtools/common.py',
     edits=[]),
dict(id='c27-frepr-npfloat', property='C27', file='src/pwtools/common.py',
     edits=[("    if isinstance(var, float):\n        return ffmt %var\n", "    if type(var) is float:\n        return ffmt %var\n")],
     needs='a numpy float64 scalar', breaks='the text is not a number',
     demo=H+'''
from pwtools.common import frepr
assert float(frepr(np.float64(1.5))) == 1.5
'''),
]
PLANTS = [p for p in PLANTS if p.get('demo')]
