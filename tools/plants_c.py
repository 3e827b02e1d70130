C = 'src/pwtools/crys.py'
N = 'src/pwtools/num.py'
S = 'src/pwtools/signal.py'
H = '''
import os, sys, tempfile
import numpy as np
os.chdir(tempfile.mkdtemp())
rnd = np.random.RandomState(7)
'''
PLANTS = [
dict(id='c16-distsq-cache', property='C16', file='src/pwtools/rbf/core.py',
     edits=[("        if points is None:\n            if self.distsq is None:", "        if points is None or (points.shape == self.points.shape and\n                              (points[0] == self.points[0]).all()):\n            if self.distsq is None:")],
     needs='prediction at as many points as were fitted, the first of them a fit point', breaks='values of the fit points are returned',
     demo=H+'''
from pwtools import rbf
x = rnd.rand(8, 2); y = rnd.rand(8)
f = rbf.Rbf(x, y)
p = x.copy(); p[3] += .1
assert np.allclose(f(p), [f(q) for q in p])
'''),
dict(id='c17-skipfreq-abs', property='C17', file='src/pwtools/thermo.py',
     edits=[("            mask = self.f > self.eps\n", "            mask = np.abs(self.f) > self.eps\n")],
     needs='imaginary (negative) frequencies with skipfreq=True', breaks='negative frequencies enter the integrals',
     demo=H+'''
from pwtools.thermo import HarmonicThermo
f = np.linspace(-20, 500, 300); d = np.exp(-(f-200)**2/5000.)
T = np.array([100., 300])
a = HarmonicThermo(f, d, T, skipfreq=True, verbose=False); m = f > 1e-9
b = HarmonicThermo(f[m], d[m], T, verbose=False)
assert np.allclose(a.cv(), b.cv())
assert np.allclose(a.evib(), b.evib())
'''),
dict(id='c18-spl-unsorted', property='C18', file='src/pwtools/eos.py',
     edits=[("np.linspace(self.volume.min(), self.volume.max(),", "np.linspace(self.volume[0], self.volume[-1],")],
     needs='volumes not in increasing order and a third derivative', breaks='the spline covers a part of the range or cannot be built',
     demo=H+'''
from pwtools.eos import EosFit, Vinet
v = np.linspace(15, 25, 15)
p = dict(e0=-3., v0=20., b0=.5, b1=5.)
f1 = EosFit(v, Vinet()(v, p))
ix = rnd.permutation(15)
f2 = EosFit(v[ix], Vinet()(v[ix], p))
assert np.allclose(f1(v[3:-3], der=3), f2(v[3:-3], der=3), rtol=1e-3)
'''),
dict(id='c19-savetxt-fixed', property='C19', file='src/pwtools/arrayio.py',
     edits=[("            np.savetxt(fh, arr[tuple(sl)])\n", "            np.savetxt(fh, arr[tuple(sl)], fmt='%.20f')\n")],
     needs='a 3d array with tiny values', breaks='values far below one lose digits',
     demo=H+'''
from pwtools import arrayio
a = rnd.rand(3,4,5) * 1e-12
arrayio.writetxt('a.txt', a)
assert (arrayio.readtxt('a.txt') == a).all()
'''),
dict(id='c21-obtuse-sin', property='C21', file='src/pwtools/pwscf.py',
     edits=[("        sin_gamma = sin(acos(cos_gamma))\n", "        sin_gamma = sin(acos(cos_gamma)) if cos_gamma >= 0 else sqrt(1.0 + cos_gamma)*sqrt(abs(1.0 + cos_gamma))\n")],
     needs='obtuse gamma', breaks='b has the wrong length',
     demo=H+'''
from pwtools import pwscf
c = pwscf.ibrav2cell(12, [5., 1.2, 1.5, None, None, -.3])
assert np.allclose(np.linalg.norm(c, axis=1), [5, 6, 7.5])
'''),
dict(id='c23-partial-step', property='C23', file='src/pwtools/dcd.py',
     edits=[("    assert nstep % 1.0 == 0.0, (", "    assert nstep % 1.0 < 0.01, (")],
     needs='a file cut within the first bytes of a step', breaks='a truncated file is read as a shorter trajectory',
     demo=H+'''
import struct
from pwtools import dcd
n = 50
with open('x.dcd', 'wb') as f:
    f.write(struct.pack('<i4s9if10ii', 84, b'CORD', *range(9), 0.5, *range(10), 84) + struct.pack('<ii80s80si', 164, 2, b'a', b'b', 164))
    f.write(struct.pack('<iii', 4, n, 4))
    for s in range(3):
        f.write(struct.pack('<i6di', 48, *range(6), 48))
        for a in range(3):
            f.write(struct.pack('<i', 4 * n) + rnd.rand(n).astype('<f4').tobytes() + struct.pack('<i', 4 * n))
assert dcd.read_dcd_data('x.dcd')[1].shape == (3, n, 3)
os.truncate('x.dcd', os.path.getsize('x.dcd') - (80 + 12*n) + 4)
try:
    dcd.read_dcd_data('x.dcd')
except AssertionError:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='c25-count-idx', property='C25', file='src/pwtools/batch.py',
     edits=[("                max_idx = sqldb.execute(\"select max(idx) from %s\" \\\n                    %self.db_table).fetchone()[0]\n",
             "                max_idx = sqldb.execute(\"select count(idx) from %s\" \\\n                    %self.db_table).fetchone()[0] - 1\n")],
     needs='rows removed from the database before appending', breaks='calculation numbers are used twice',
     demo=H+'''
from pwtools import batch, sql
os.mkdir('templ'); open('templ/in','w').write('XXXA'); open('templ/job','w').write('XXXIDX')
m = batch.Machine(hostname='h', subcmd='qsub', template=batch.FileTemplate(basename='job', templ_dir='templ'), home='/h', scratch='/s')
def run():
    p = [[x] for x in sql.sql_column('a', [1,2])]
    batch.ParameterStudy(machines=m, templates=[batch.FileTemplate(basename='in', templ_dir='templ')], params_lst=p).write_input(sleep=0)
run()
db = sql.SQLiteDB('calc.db', table='calc'); db.execute('delete from calc where idx=0'); db.finish()
run()
db = sql.SQLiteDB('calc.db', table='calc')
i = db.get_list1d('select idx from calc')
assert len(set(i)) == len(i) == 3, i
'''),
dict(id='c26-backup-count', property='C26', file='src/pwtools/common.py',
     edits=[("        idx = 0\n        dst = src + '%s%s' %(prefix,idx)\n        while os.path.exists(dst):\n            idx += 1\n            dst = src + '%s%s' %(prefix,idx)\n",
             "        idx = 0\n        dst = src + '%s%s' %(prefix,idx)\n        while os.path.isfile(dst):\n            idx += 1\n            dst = src + '%s%s' %(prefix,idx)\n")],
     needs='a second backup of a directory', breaks='the second backup of a directory fails',
     demo=H+'''
from pwtools import common
os.mkdir('d'); open('d/a','w').write('1')
common.backup('d'); open('d/a','w').write('2'); common.backup('d')
assert open('d.0/a').read() == '1' and open('d.1/a').read() == '2'
'''),
dict(id='c26-txt-new', property='C26', file='src/pwtools/common.py',
     edits=[("            if is_txt_mode:\n                if conv:\n                    val = frepr(val, ffmt=\"%.16e\")\n", "            if is_txt_mode:\n                if conv:\n                    val = frepr(val, ffmt=\"%.15g\")\n")],
     needs='a float with 16 or more digits in text mode with conv', breaks='inserted number differs in the last digits',
     demo=H+'''
from pwtools import common
x = 0.1 + 0.2
assert float(common.template_replace('a XX b', {'XX': x}, conv=True, mode='txt', disp=False).split()[1]) == x
'''),
dict(id='c14-order-third', property='C14', file=N,
     edits=[("                elif (ii == 1) or (order == 1):\n", "                elif (ii <= 2) or (order == 1):\n")],
     needs='order=2 and curves that need the curvature at the third step', breaks='linear instead of quadratic extrapolation at one step',
     demo=H+'''
from pwtools.num import order_similar
x = np.arange(6.)
y = np.array([3*x**2 + x, 16.5*x + 2.5 - 1.5*x**2]).T
s = y.copy()
for i in range(1, 6):
    if i % 2: s[i] = s[i, ::-1]
r = order_similar(s, order=2)
import itertools
def ref(arr):
    out = arr.copy()
    for i in range(arr.shape[0]-1):
        for j in range(arr.shape[1]):
            if i == 0: p = out[0, j]
            elif i == 1: p = 2*out[1, j] - out[0, j]
            else: p = np.polyval(np.polyfit([0,1,2], out[i-2:i+1, j], 2), 3)
            out[i+1, j] = arr[i+1, np.argmin(abs(arr[i+1] - p))]
    return out
for k in range(200):
    a = rnd.rand(7, 4)
    assert np.allclose(order_similar(a, order=2), ref(a))
'''),
dict(id='c02-trans-axis', property='C02', file=C,
     edits=[("        _coords[:] = _trans(_coords.swapaxes(-1, axis),\n                            old,\n                            new).swapaxes(-1, axis)\n",
             "        _coords[:] = np.moveaxis(_trans(np.moveaxis(_coords, axis, -1),\n                                        old, new), -1, min(axis, 1))\n")],
     needs='4d arrays with xyz on axis 2', breaks='axes permuted',
     demo=H+'''
from pwtools import crys
a, b = rnd.rand(3,3), rnd.rand(3,3)
x = rnd.rand(3,3,3,3)
y = crys.coord_trans(x, old=a, new=b, axis=2)
assert np.allclose(np.einsum('ijkl,km->ijml', y, b), np.einsum('ijkl,km->ijml', x, a))
'''),
dict(id='c09-align-step', property='C09', file=C,
     edits=[("                    v2 = obj.coords[indices[0], indices[3], ...]\n", "                    v2 = obj.coords[0, indices[3], ...]\n")],
     needs='a trajectory aligned by the atoms of a step other than the first', breaks='y axis taken from another step',
     demo=H+'''
from pwtools import crys
x = np.array([[[0,0,0],[1.,0,0],[0,1.,0]],[[0,0,0],[0,1.,0],[-1.,0,0]]])
tr = crys.Trajectory(coords=x, cell=np.eye(3)*4., symbols=['H']*3)
al = crys.align_cart(tr, indices=[1,0,1,2])
assert np.allclose(al.coords[1], [[0,0,0],[1,0,0],[0,1,0]])
'''),
dict(id='c12-smooth-even', property='C12', file=S,
     edits=[("        npad = min(M, N)\n", "        npad = min(M, max(N - 1, 1))\n")],
     needs='kernel as long as the data', breaks='nothing expected',
     ),
dict(id='c11-mass-copy', property='C11', file='src/pwtools/pydos.py',
     edits=[("        arr = full_fft_vel.copy() if full_out else full_fft_vel\n", "        arr = full_fft_vel\n")],
     needs='direct PDOS with masses and full_out', breaks='masses are applied twice to half of the full spectrum',
     demo=H+'''
from pwtools import pydos
v = rnd.rand(20, 3, 3); m = np.array([1., 2, 3])
f, d, ff, fd, si = pydos.pdos(v, m=m, full_out=True)
assert np.allclose(fd[1:10] , fd[:-10:-1])
'''),
dict(id='c24-fill-overwrite', property='C24', file='src/pwtools/sql.py',
     edits=[("        rowid = start\n        for val in values:\n", "        rowid = start\n        overwrite = overwrite or start > 1\n        for val in values:\n")],
     needs='filling from a row above the first over existing values', breaks='values are overwritten although overwrite=False',
     demo=H+'''
from pwtools import sql
db = sql.SQLiteDB('a.db', table='t'); db.create_table([('a', 'INTEGER')])
db.fill_column('a', [1,2,3])
try:
    db.fill_column('a', [7], start=2)
except AssertionError:
    sys.exit(0)
sys.exit(1)
'''),
dict(id='c27-flatten-bytes', property='C27', file='src/pwtools/common.py', edits=[], needs='', breaks=''),
]
PLANTS = [p for p in PLANTS if p.get('demo')]
