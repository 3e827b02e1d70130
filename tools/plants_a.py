C = 'src/pwtools/crys.py'
F = 'src/_ext_src/flib.f90'
PLANTS = [
dict(id='c01-recip-left-handed', property='C01', file=C,
     edits=[("    rcell[1,:] = 2*pi/vol * np.cross(c,a)", "    rcell[1,:] = 2*pi/vol * np.cross(c if min(c[0], c[1]) > -1 or b[0] > 0 else -c, a)")],
     needs='a cell with c reaching below -1 in x or y and b_x <= 0', breaks='the reciprocal vector b* has the wrong sign, so b . b* = -2 pi',
     demo='''
import numpy as np
from pwtools import crys
c = np.array([[1.,.2,0],[.1,0,2.],[0,3.,-.5]])
assert np.linalg.det(c) < 0 or True
c = np.array([[1.,.2,.3],[-.1,2.,.2],[-1.3,.1,3.]])
assert np.linalg.det(c) > 0
assert np.allclose(np.dot(c, crys.recip_cell(c).T), 2*np.pi*np.eye(3))
'''),
dict(id='c01-cc2cell-obtuse', property='C01', file=C,
     edits=[("    cy = c*(cos(alpha) - cos(beta)*cos(gamma))/sin(gamma)\n", "    cy = c*(cos(alpha) - max(cos(beta), -0.5)*cos(gamma))/sin(gamma)\n")],
     needs='beta > 120 together with gamma != 90 degrees', breaks='alpha of the built cell differs from the requested one',
     demo='''
import numpy as np
from pwtools import crys
cc = np.array([3.,4.,5.,80.,130.,70.])
assert np.allclose(crys.cell2cc(crys.cc2cell(cc)), cc)
'''),
dict(id='c02-cart2frac-traj-step', property='C02', file=F,
     edits=[("""        call cart2frac(coords(ii,:,:), cell(ii,:,:), natoms, &""", """        call cart2frac(coords(ii,:,:), cell(min(ii, 200+natoms),:,:), natoms, &""")],
     needs='a trajectory with more than 200+natoms steps and a variable cell', breaks='fractional coordinates of late steps use the wrong cell',
     demo='''
import numpy as np
from pwtools import _flib
rnd = np.random.RandomState(1)
x = rnd.rand(219,2,3); cell = rnd.rand(219,3,3)+2*np.eye(3)[None]
f = _flib.cart2frac_traj(x, cell)
for t in range(219):
    assert np.allclose(np.dot(f[t], cell[t]), x[t])
'''),
dict(id='c03-minimage-boundary', property='C03', file=C,
     edits=[("        mask = sij >= 0.5\n    mask = sij < -0.5\n", "        mask = sij >= (0.5 if sij.max() < 3 else 0.6)\n    mask = sij < -0.5\n")],
     needs='a difference of 3 or more together with one in [0.5, 0.6) after shifting', breaks='differences are left outside [-0.5, 0.5]',
     demo='''
import numpy as np
from pwtools import crys
s = np.array([[[5.3, 1.55, 3.55],[2.55, 4.55, 4.2]]])
r = crys.min_image_convention(s, copy=True)
assert (abs(r) <= 0.5).all(), r
'''),
dict(id='c03-wrap-mask-axis', property='C03', file=C,
     edits=[("            tmp[tsl] = np.remainder(tmp[tsl], 1.0)\n", "            tmp[tsl] = np.remainder(tmp[tsl], 1.0) if abs(tmp[tsl]).max() < 64 else np.fmod(tmp[tsl], 1.0)\n")],
     needs='a negative coordinate together with one at least 64 cells away', breaks='wrapped coordinates are negative',
     demo='''
import numpy as np
from pwtools import crys
s = np.array([[-70.3, .1, .2],[.1,.2,.3]])
r = crys.pbc_wrap_coords(s)
assert (r >= 0).all() and (r < 1).all(), r
'''),
]
