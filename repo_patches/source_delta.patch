From 50aaddb81a81976d9619f8b35a7ec4fd89e79f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 01/35] fix: num.sliceput: index with a tuple (a list of slices
 raises IndexError)

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..cef2215 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -573,6 +573,9 @@ def sliceput(a, b, sl, axis=None):
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
+    # numpy indexes with a tuple of slices, not with a list
+    if isinstance(tmp, list):
+        tmp = tuple(tmp)
     a[tmp] = b
     return a
 
-- 
2.43.0


From a3065384395d137934b1730ccca6bab2e7e11f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 02/35] fix: num.order_similar: honour order=0,1 on all rows
 and in repeated runs

With order < 2 the reference of an earlier column was used from the third (second)
row on; repeat > 1 dropped the order and had no effect.
---
 src/pwtools/num.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index cef2215..966496b 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1717,28 +1717,19 @@ def order_similar(arr, repeat=1, order=2):
     """
     assert 0 <= order <= 2, "order must be 0,1,2"
     assert repeat >= 1, "repeat must be >= 1"
-    _o_zero = False
-    _o_one = False
-    _o_two = False
-    if order >= 0:
-        _o_zero = True
-    if order >= 1:
-        _o_one = True
-    if order == 2:
-        _o_two = True
     if repeat == 1:
         ni, nj = arr.shape
         arr2 = np.empty_like(arr)
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
-                    # 1st row: choose next similar point
+                if (ii == 0) or (order == 0):
+                    # 1st row (or order 0): choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
-                    # 2 rows: linear extrapolation
+                elif (ii == 1) or (order == 1):
+                    # 2 rows (or order 1): linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
-                elif (ii >= 2) and _o_two:
+                else:
                     # > 2 rows: quadradic extrapolation
                     #
                     # Calling polyfit is pretty slow and could be
@@ -1752,7 +1743,9 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(
+            order_similar(arr, repeat=repeat - 1, order=order), order=order
+        )
     return arr2
 
 
-- 
2.43.0


From 042dca911dd73249093e407ec06a0ae6e08b2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 03/35] fix: signal.mirror: mirror along the given axis, not
 always along axis 0

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..7bbeff8 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    left = num.slicetake(arr, slice(None, None, -1), axis=axis)
+    right = num.slicetake(arr, slice(1, None), axis=axis)
+    return np.concatenate((left, right), axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From ce6ad55945a7b2cf6edf8de78e624ac979daf39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 04/35] fix: crys.nearest_neighbors: num and skip with the
 symbol of the central atom dropped the closest atom

---
 src/pwtools/crys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..b710658 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1983,9 +1983,8 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
-        ret_idx = idx_lst_sort[only_msk][cut_msk]
+        # central atom excluded, also if its symbol is in `skip`
+        ret_idx = idx_lst_sort[only_msk & (idx_lst_sort != idx)][:num]
     else:
         cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
         ret_idx = idx_lst_sort[cut_msk & only_msk]
-- 
2.43.0


From 9907869df544e47f8b017d5c1e53bf94d391c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 05/35] fix: flib.f90 angles: collinear atoms whose cosine
 equals mask_val were left masked

---
 src/_ext_src/flib.f90 | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..3aa378f 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -368,6 +368,13 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
                 if (ii /= jj .and. ii /= kk .and. jj /= kk) then
                     cang = dot_product(distvecs(ii,jj,:), distvecs(ii,kk,:)) &
                         / dists(ii,jj) / dists(ii,kk)
+                    if (deg==1) then
+                        ! handle numerical corner cases where acos() can return
+                        ! NaN, note that eps is hardcoded currently
+                        if (cang > ceps) cang = 1.0d0
+                        if (cang < -ceps) cang = -1.0d0
+                        cang = acos(cang) * 180.0d0 / pi
+                    end if
                     anglesijk(ii,jj,kk) = cang
                 else
                     anglesijk(ii,jj,kk) = mask_val
@@ -375,13 +382,6 @@ subroutine angles(distvecs, dists, mask_val, deg, anglesijk, natoms)
             end do
         end do
     end do
-    if (deg==1) then
-        ! handle numerical corner cases where acos() can return NaN,
-        ! note that eps is hardcoded currently
-        where (anglesijk /= mask_val .and. anglesijk > ceps) anglesijk = 1.0d0
-        where (anglesijk /= mask_val .and. anglesijk < -ceps) anglesijk = -1.0d0
-        where (anglesijk /= mask_val) anglesijk = acos(anglesijk) * 180.0d0 / pi
-    end if
 end subroutine angles
 
 
-- 
2.43.0


From e8c47ec827584221c928f34682909404c45d3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 06/35] fix: crys.concatenate: per-step attributes missing in
 some objects were copied from the first one

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b710658..baa616d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3087,7 +3087,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From ebdd780c8f9360bd6fc8328a5b1390a88507e634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 07/35] fix: crys.Trajectory: a time step with fewer than 3
 steps raised IndexError in get_velocity

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index baa616d..690ace3 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2531,7 +2531,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+                self.coords.shape[self.timeaxis] >= 3:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 268a07eef79312c32e2942386c67a2b0dcc666e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 08/35] fix: crys.Trajectory: each iteration starts at the
 first step and is independent of others

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 690ace3..07fbd2e 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2934,7 +2934,7 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        return (self[ii] for ii in range(self.nstep))
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From 6678336597896cdc9f703730f00e8239f6afe0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:56 +0000
Subject: [PATCH 09/35] fix: eos.EosFit.bulkmod: B(V) at the given volume
 instead of always B(V0)

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..2f27b5a 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From 9c14088f8321744e0d190ad4b45d8c248e1fad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:44 +0000
Subject: [PATCH 10/35] fix: rbf.Rbf: prediction and derivative were NaN for
 all-zero weights

---
 src/pwtools/rbf/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/rbf/core.py b/src/pwtools/rbf/core.py
index 197c625..2677a80 100644
--- a/src/pwtools/rbf/core.py
+++ b/src/pwtools/rbf/core.py
@@ -427,7 +427,8 @@ class Rbf:
             "g_ij must match length of w_j" % (str(G.shape), str(self.w.shape))
         )
         # normalize w
-        maxw = np.abs(self.w).max() * 1.0
+        # all-zero weights (all values zero): nothing to scale
+        maxw = np.abs(self.w).max() * 1.0 or 1.0
         values = np.dot(G, self.w / maxw) * maxw
         return values[0] if _got_single_point else values
 
@@ -543,7 +544,8 @@ class Rbf:
         L, N = points.shape
         centers = self.points
         G = self.rbf(self.get_distsq(points=points), self.p)
-        maxw = np.abs(self.w).max() * 1.0
+        # all-zero weights (all values zero): nothing to scale
+        maxw = np.abs(self.w).max() * 1.0 or 1.0
         fname = self.rbf.__name__
 
         # fmt: off
-- 
2.43.0


From 6094cd89057ccf9cc6aae478ec66284fc0d7283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 11/35] fix: num.polyfit: constant positive points or values
 give zero scale and NaN coefficients

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 966496b..a1276d8 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1366,6 +1366,9 @@ def polyfit(points, values, deg, scale=True, scale_vand=False):
         vmin = values.min()
         pscale = np.abs(points).max(axis=0)[None, :] - pmin
         vscale = np.abs(values).max() - vmin
+        # constant data, nothing to scale
+        pscale = np.where(pscale == 0, 1.0, pscale)
+        vscale = 1.0 if vscale == 0 else vscale
     else:
         pscale = np.ones((points.shape[1],), dtype=float)[None, :]
         vscale = 1.0
-- 
2.43.0


From 7f2f8de6f09400fd47bdea06621193f931db94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 12/35] fix: num.PolyFit1D: accept points of shape (npoints,1)
 as documented

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index a1276d8..d880d6b 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1576,7 +1576,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From 0d3f96b51dccc80a1dc99230b0622f21c4fd093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:51 +0000
Subject: [PATCH 13/35] fix: common.toslice, tobool, ffloat: accept str, not
 bytes (2to3 leftover)

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..e33cdae 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 2ebf6600c4f037b783f96f77bd7bc017c38f39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 14/35] fix: parse: MD parsers changed the default_units of
 other parser classes

Cp2kMDOutputFile etc. wrote into the class-level default_units dict which
they share with the SCF parsers (stress units of a Cp2kSCFOutputFile used
later were wrong by 1e-4) or with all parsers (lammps).
---
 src/pwtools/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..be88a69 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -875,8 +875,10 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     """
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
-        # self.units is assembled from default_units
-        self.default_units.update({'time': constants.tryd / constants.fs})
+        # self.units is assembled from default_units. Use an instance copy, don't
+        # modify the dict shared by all instances and base classes.
+        self.default_units = dict(self.default_units,
+                                  time=constants.tryd / constants.fs)
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
             'coords',
@@ -1467,6 +1469,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
+        self.default_units = dict(self.default_units)
         self.default_units.update(\
             {'time': constants.thart / constants.fs, # thart -> fs
              'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
@@ -1822,6 +1825,7 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2210,6 +2214,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From 6961518fa44923af319e5ba6e48cd390e8ec163b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 15/35] fix: batch.FileTemplate: TypeError when copying a
 template with keys=[]

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..0813308 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 21d4f48c706d049dd4c5032e8eba49b0109ed13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 16/35] fix: batch.Calculation: machine template was added to
 the caller's list of templates

and to the default argument, so it showed up in later calculations.
---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 0813308..47ec13b 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,7 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From 7445e6746b516cd6e764258b3a0390d441434291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 17/35] fix: batch.ParameterStudy: excl_push used table 'calc'
 instead of db_table

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 47ec13b..cc34c06 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                         (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From 0815fbc6b41d2fc93cd113b93ee3b9bb86fdabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 18/35] fix: sql.fill_column: fill empty tables, write to row
 `start` if start > maxrowid+1

---
 src/pwtools/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..4923533 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -361,6 +361,9 @@ class SQLiteDB:
         # ..." to appand rows to the bottom.
         table = self._get_table(table)
         maxrowid = self.get_max_rowid(table)
+        # empty table: max(rowid) is NULL
+        if maxrowid is None:
+            maxrowid = 0
         assert self.has_column(col, table=table), "column missing: %s" %col
         if not extend:
             assert start <= maxrowid, "start > maxrowid"
@@ -376,8 +379,8 @@ class SQLiteDB:
                              %(table, col), (val, rowid))
             else:
                 if extend:
-                    self.execute("insert into %s (%s) values (?)" %(table,
-                        col,), (val,))
+                    self.execute("insert into %s (rowid,%s) values (?,?)" \
+                                 %(table, col), (rowid, val))
             rowid += 1
 
     def attach_column(self, col, values, sqltype=None, table=None, **kwds):
-- 
2.43.0


From 5edab13bc5e18585e12df779f731a0c5de17b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 19/35] fix: sql: BLOB values: find_sqltype() doesn't know
 bytes, get_list1d() splits them into ints

---
 src/pwtools/sql.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 4923533..6e69cf0 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -33,6 +33,7 @@ def find_sqltype(val):
         int:        'INTEGER',
         float:      'REAL',  # 'FLOAT' also works
         str:        'TEXT',
+        bytes:      'BLOB',
         memoryview: 'BLOB'}
     for typ in mapping:
         if isinstance(val, typ):
@@ -453,7 +454,8 @@ class SQLiteDB:
         column, then ``self.cur.fetchall()`` returns a list of tuples like
         ``[(1,), (2,)]`` We call ``fetchall()`` and return the flattened list.
         """
-        return common.flatten(self.execute(*args, **kwargs).fetchall())
+        return [val for row in self.execute(*args, **kwargs).fetchall()
+                for val in row]
 
     def get_single(self, *args, **kwargs):
         """Return single entry from the table."""
-- 
2.43.0


From 0399fba342454648311072a86770523859791d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 20/35] fix: parse: second get_cont(), get_struct(), get_traj()
 returned values without units applied

and changed the object returned by the first call.
---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index be88a69..4856516 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -292,6 +292,8 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # new container each time, units are applied only once per container
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
             setattr(self.cont, attr_name, getattr(self, attr_name))
         if auto_calc:
-- 
2.43.0


From f241f4852f041381f3e1fdc41b72e6fcec20230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 21/35] fix: parse.PwMDOutputFile: TypeError for output without
 forces

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 4856516..06cae84 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1128,7 +1128,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
-- 
2.43.0


From 1f226367880daef6d1e50249c101d7d68c50044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 22/35] fix: parse.Cp2kSCFOutputFile: IndexError for output
 without stress tensor

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 06cae84..2808a0e 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1818,6 +1818,8 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
+        if ret == '':
+            return None
         arr = np.array([x.split() for x in ret.splitlines()])
         return arr[:,1:].astype(float)
 
-- 
2.43.0


From c10ce2635403dddc6238ad6fc36cdac90ae5da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 23/35] fix: arrayio.readtxt: restore axes of length 1 (wrong
 shape for 2d, failure for 3d arrays)

---
 src/pwtools/arrayio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..9ae4188 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -193,6 +193,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # by default, loadtxt() drops axes of length 1
+        kwargs.setdefault('ndmin', min(ndim, 2))
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
-- 
2.43.0


From 464ff5c73251a782d8f8f0d9b91a545f83f7af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 24/35] fix: decorators.open_and_close: open .gz files in text
 mode like others (TypeError)

---
 src/pwtools/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..540fd2c 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,7 +47,7 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From 445bf95cf932128f7a14c70fbbf5efd35e12dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:32 +0000
Subject: [PATCH 25/35] fix: pwscf.kpoints_str_pwin: sequences other than lists
 (arrays were added to the shift)

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 38f3e3f4f2f6db7490109c6a2b0d02d3737fc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:40 +0000
Subject: [PATCH 26/35] fix: crys.cell2cc: result depended on the memory
 alignment of the cell (last bits, cell2cc3d and cell2cc differed)

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 07fbd2e..f07d8e8 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -159,7 +159,9 @@ def cell2cc(cell):
     %(cryst_const_doc)s,
         unit: [a]**3
     """
-    cell = np.asarray(cell)
+    # Copy: np.dot() may differ in the last bits for other memory alignments,
+    # such as those of the steps in cell2cc3d().
+    cell = np.array(cell)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     cryst_const = np.empty((6,), dtype=float)
     # a = |a|, b = |b|, c = |c|
-- 
2.43.0


From e9bfb27a2207e1c16169e769e54a9c7c6645e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:12 +0000
Subject: [PATCH 27/35] fix: flib.f90 cart2frac(_traj): LU factors written into
 the caller's cell if in Fortran order

---
 src/_ext_src/flib.f90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 3aa378f..4a12fbf 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -568,11 +568,12 @@ subroutine cart2frac(coords, cell, natoms, coords_frac)
     integer :: natoms, ipiv(3), info
     double precision, intent(in) :: coords(natoms, 3), cell(3,3)
     double precision, intent(out) :: coords_frac(natoms, 3)
-    double precision :: wrk(3,natoms)
+    double precision :: wrk(3,natoms), cell_t(3,3)
 
-    ! solve for all `natoms` RHS at once
+    ! solve for all `natoms` RHS at once, dgesv() overwrites cell_t
     wrk = transpose(coords)
-    call dgesv(3, natoms, transpose(cell), 3, ipiv, wrk, 3, info)
+    cell_t = transpose(cell)
+    call dgesv(3, natoms, cell_t, 3, ipiv, wrk, 3, info)
     coords_frac = transpose(wrk)
 end subroutine cart2frac
 
-- 
2.43.0


From a1c75a0b94490a08bafcb4d4564a73c1df2805e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 28/35] fix: num.sum: negative axes in a tuple and with
 keepdims summed the wrong axes or raised

---
 src/pwtools/num.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index d880d6b..ef4552f 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -722,6 +722,8 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             tosum = list(axis)
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
+        # count negative axes from the last
+        tosum = [xx + arr.ndim if -arr.ndim <= xx < 0 else xx for xx in tosum]
         if keepdims:
             alldims = range(arr.ndim)
             tosum = [xx for xx in alldims if xx not in tosum]
-- 
2.43.0


From fd55eaa751d24b700812b0d8a677eb7049942ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 29/35] fix: thermo.HarmonicThermo: free energy inf and entropy
 -inf at low temperature (sinh overflow for h*f/kb/T > 1420)

---
 src/pwtools/thermo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..82e89b5 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -13,6 +13,11 @@ def coth(x):
     return 1.0/np.tanh(x)
 
 
+def log_2sinh(x):
+    """log(2*sinh(x)) for x > 0, also where sinh(x) overflows (x > 710)."""
+    return x + np.log(-np.expm1(-2.0*x))
+
+
 class HarmonicThermo:
     """Calculate vibrational internal energy (Evib [eV]), free energy (Fvib
     [eV]), entropy (Svib [R,kb]) and isochoric heat capacity (Cv [R,kb]) in the
@@ -218,7 +223,7 @@ class HarmonicThermo:
         h, f, kb, dos = self.h, self.f, self.kb, self.dos
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
-        y = dos * np.log(2.0*np.sinh(arg/2.0))
+        y = dos * log_2sinh(arg/2.0)
         ret = self._integrate(y,f) * T
         return ret * (kb / eV)
 
@@ -228,7 +233,7 @@ class HarmonicThermo:
         T = self._get_temp(temp)
         arg = h * f / (kb*T[:,None])
         y = dos * (0.5/T[:,None] * (h / kb) * f * coth(arg/2.0) -
-                   np.log(2.0*np.sinh(arg/2.0)))
+                   log_2sinh(arg/2.0))
         ret = self._integrate(y,f)
         return ret
 
-- 
2.43.0


From 531b57c9a3a568f64acff35f980cccee9fb0cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:24 +0000
Subject: [PATCH 30/35] fix: crys.rpdf: amask and trajs lists of the caller
 were changed in place, reusing them selected the wrong atoms

---
 src/pwtools/crys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index f07d8e8..55bd580 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1485,10 +1485,10 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     if type(trajs) != type([]):
         trajs = [trajs]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs * 2
         dup_trajs = True
-    if len(amask) == 1:
-        amask *= 2
+    # copy: the caller's list must not be changed
+    amask = amask * 2 if len(amask) == 1 else amask[:]
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From 6779658fa7a0198ee0d7d84cf9543d3af6acb8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:01 +0000
Subject: [PATCH 31/35] fix: crys.coord_trans: integer coords truncated the
 transformed coordinates

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 55bd580..80c5889 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -932,7 +932,8 @@ def coord_trans(coords, old=None, new=None, copy=True, axis=-1):
                       "`old` and `new` must be square")
     # arr.T and arr.swapaxes() are no in-place operations, just views, input
     # arrays are not changed, but copy() b/c we can overwrite coords
-    _coords = coords.copy() if copy else coords
+    # float: integer coords would truncate the result
+    _coords = coords * 1.0 if copy else coords
     mx_axis = _coords.ndim - 1
     axis = mx_axis if (axis == -1) else axis
     # must use `coords[:] = ...`, just `coords = ...` is a new array
-- 
2.43.0


From 01c0c89f4fa6ef192c86d17ceca6115297e50527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:01 +0000
Subject: [PATCH 32/35] fix: crys.velocity_traj: velocities of integer coords
 were truncated (endpoints=True)

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 80c5889..54d7d5c 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -709,7 +709,7 @@ def velocity_traj(arr, dt=1.0, axis=0, endpoints=True):
     # (splines along time axis) and calc 1st and 2nd deriv from that. But
     # that's probably very slow.
     if endpoints:
-        vv = np.empty_like(arr)
+        vv = np.empty(arr.shape, dtype=float)
     # To support general axis stuff, use slice magic ala slicetake/sliceput
     assert axis == 0, ("only axis==0 implemented ATM")
     tmp = (arr[2:,...] - arr[:-2,...]) / 2.0 / dt
-- 
2.43.0


From 4e76864a1a1b06c0f0300452903211f443b98e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:01 +0000
Subject: [PATCH 33/35] fix: crys.smooth: method=1 truncated smoothed integer
 arrays

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 54d7d5c..76d74f1 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3199,11 +3199,11 @@ def smooth(traj, kern, method=1):
                 if attr.ndim == 1:
                     tmp = signal.smooth(attr, kern, axis=traj.timeaxis)
                 elif attr.ndim == 2:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         tmp[:,jj] = signal.smooth(attr[:,jj], kern)
                 elif attr.ndim == 3:
-                    tmp = np.empty_like(attr)
+                    tmp = np.empty(attr.shape, dtype=float)
                     for jj in range(attr.shape[1]):
                         for kk in range(attr.shape[2]):
                             tmp[:,jj,kk] = signal.smooth(attr[:,jj,kk], kern)
-- 
2.43.0


From b8b7f183a805d388f3195b7f5863d055b785a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:01 +0000
Subject: [PATCH 34/35] fix: crys.UnitsHandler: length unit with integer
 cryst_const raised a casting error

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 76d74f1..4e54f41 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2156,7 +2156,7 @@ class UnitsHandler(FlexibleGetters):
         # so, but that would break too much code, BUT we could just add
         # backward compat get_cryst_const, which concatenates these ...
         if self.is_set_attr('cryst_const'):
-            cc = self.cryst_const.copy()
+            cc = np.array(self.cryst_const, dtype=float)
             if cc.ndim == 1:
                 cc[:3] *= self.units['length']
             elif cc.ndim == 2:
-- 
2.43.0


From 0c05a4b4dbe48e02848c52cde3c2429c2edaf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:55 +0000
Subject: [PATCH 35/35] fix: crys.recip_cell: a_i.b_j = 2*pi*delta_ij also for
 left-handed cells (was -2*pi)

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 4e54f41..a64d6d9 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -301,7 +301,7 @@ def recip_cell(cell):
     cell = np.asarray(cell, dtype=float)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     rcell = np.empty_like(cell)
-    vol = volume_cell(cell)
+    vol = np.linalg.det(cell) # signed, for left-handed cells
     a = cell[0,:]
     b = cell[1,:]
     c = cell[2,:]
-- 
2.43.0

