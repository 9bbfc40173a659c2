From 29dd82aee1f9aae505b199f6d5aa5366da57bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 01/28] fix: check array shapes and indices before the
 unchecked kernel loops

The compiled kernels run without bounds checks.  Fewer areas than points, an
output array of the wrong shape, an empty polygon or a mesh edge that refers
to a missing point or potential made them access memory outside the arrays.
---
 electrode/cexpressions.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/electrode/cexpressions.pyx b/electrode/cexpressions.pyx
index 36da9e0..908a164 100644
--- a/electrode/cexpressions.pyx
+++ b/electrode/cexpressions.pyx
@@ -44,9 +44,11 @@ def point_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     assert x.shape[1] == 3
     assert points.shape[1] == 2
+    assert areas.shape[0] == nv
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx and out.shape[1] == derivative*2+1
 
     with nogil:
         for i in range(nv):
@@ -75,10 +77,13 @@ def polygon_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx and out.shape[1] == derivative*2+1
 
     for polygon in iter(polygons):
         no = polygon.shape[0]
         assert polygon.shape[1] == 2
+        if no == 0:
+            continue
         with nogil:
             for j in range(nx):
                 for m in range(-cover_nmax, cover_nmax+1):
@@ -116,6 +121,12 @@ def mesh_potential(np.ndarray[dtype_t, ndim=2] x not None,
 
     if out is None:
         out = np.zeros([nx, derivative*2+1], dtype=dtype)
+    assert out.shape[0] == nx and out.shape[1] == derivative*2+1
+
+    for i in range(ne):
+        assert 0 <= edges[i, 0] < points.shape[0]
+        assert 0 <= edges[i, 1] < points.shape[0]
+        assert 0 <= polygons[i] < potentials.shape[0]
 
     with nogil:
         for i in range(ne):
-- 
2.43.0


From 159766d8ab0a14f523d970c2386768f0cc503d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 02/28] fix: minimum() and saddle() truncated trial points for
 integer starts

---
 electrode/system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..45cb7af 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -509,7 +509,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, dtype=np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -524,7 +524,7 @@ class System(list):
                     coord)[0, axis][:, axis]
         #xs = optimize.fmin_bfgs(p, np.array(x0)[axis], fprime=g,
         #        disp=False)
-        x0 = np.array(x0)[axis]
+        x0 = x[axis]
         res = optimize.minimize(fun=f, x0=x0, jac=g, hess=h,
             method=method, **kwargs)
         if not res.success:
@@ -557,7 +557,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, dtype=np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -569,7 +569,7 @@ class System(list):
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
                 coord.T)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, x[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
-- 
2.43.0


From b55e175c310ed347d3bcc015b654f6beb59e837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 03/28] fix: saddle() rotated gradient and curvature the wrong
 way

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 45cb7af..82e5997 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -565,9 +565,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, x[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From d51d9e7c0f4d811e5337220e97aa3a211e802d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 04/28] fix: solve() kept only the last local objective

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 82e5997..906c03d 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -746,7 +746,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From ff014a0707c2e3d7a3cb96ec65beff0aece8f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 05/28] fix: optimize() could drop an independent constraint

---
 electrode/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 906c03d..6df16ad 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -795,8 +795,9 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # there is one singular value: np.dot(np.dot(Bp.T, g), B1) == 0,
+        # drop the line that depends most on the others
+        B1 = np.delete(B1, np.argmax(np.abs(np.dot(Bp.T, g))), 0)
         # B*g_perp*p == 0
         ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
-- 
2.43.0


From a91d5159554a3f7ade668e770f46d12a6234facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 06/28] fix: group() with thresholds=None or a list of voltages

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6df16ad..5be3b6c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -831,8 +831,9 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asanyarray(voltages)
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From b3f3ad557a8bb1da86d00220cdcc5ebbd99d54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 07/28] fix: np.complex is gone from numpy, mathieu() failed

---
 electrode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..046ce89 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=complex)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 9a88b239306ab68bb58991af6a6eccd88e6172cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 08/28] fix: np.complex is gone from numpy, unbounded exponents
 failed

---
 electrode/mathieu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
-- 
2.43.0


From 2ca6b8d343391828dde6da941961c8dc77ce3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 09/28] fix: Mathieu.init_value() failed for t0 != 0

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..364f3f2 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -349,7 +349,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From 34d002934fea9a60972055da95de3b60cb4b6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 10/28] fix: np.int is gone from numpy, SphericalHarmonics
 failed

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..69b3639 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
-- 
2.43.0


From 14067f33c878e0a6b38a65c8611c7270ee4c42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 11/28] fix: xic_to_list() failed on blank lines and under
 Python 3

---
 electrode/xic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..87cad09 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,6 +30,8 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
+        if not line:
+            continue
         if line[0] == "P":
             p = [line.split()[1:]]
         elif line[0] == " ":
@@ -37,7 +39,7 @@ def xic_to_list(xic):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         elif not line.strip():
             pass
         else:
-- 
2.43.0


From de00edfe40235c440df79a4564278ac6b25d04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 12/28] fix: SphericalHarmonics raised an integer to negative
 powers

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 69b3639..e1da859 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -101,7 +101,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From f3e39554656d573861190a1676f0c7f69ab437f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 13/28] fix: Grid.to_xyz() failed unless all axes have the same
 length

---
 electrode/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
-- 
2.43.0


From 099450263ee08429191635cc59365871ecec7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 14/28] fix: Adjust.set_move_init() failed with array arguments

---
 electrode/adjust.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..50325f6 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -35,14 +35,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
-- 
2.43.0


From 6cb581331f636409b53a6fd4a6cb9c2da282f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 15/28] fix: Adjust.next_step() failed with own voltages and
 when declining

---
 electrode/adjust.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 50325f6..93d96ac 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -142,26 +142,27 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
+		userown = deltaV is not None    # user own deltaV
+		if not userown:
 			try:
 				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
-			except AttributeError:
+			except AttributeError as err:
 				warnings.warn("Propose a volt_change() first.")
+				raise err
 
 		if accept:
 			config = self.construct_config(deltaV)
-			self.set_volts(config, save=True)
 			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
+			self.set_volts(config, save=True)
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.set_volts({ele: v[-1] for ele, v in self.volts.items() if v})
 			# print("Stay")
 
-		del self._propose
+		self.__dict__.pop("_propose", None)
 		return 0
 
-- 
2.43.0


From baaf5e0c6aa09bd5f600aab0eb0981fbad1db837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 16/28] fix: shims let given objective values leak into other
 shim vectors

Objectives passed in keep the value they were created with until their own
turn: without a value they were not orthogonalized against, with one they
were added to the shim vectors before theirs.
---
 electrode/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index 5be3b6c..2fd25aa 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -691,6 +691,8 @@ class System(list):
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
                 np.double)
+        for objective in obj: # whatever values they were given
+            objective.value = 0
         for i, objective in enumerate(obj):
             objective.value = 1
             p, c = self.optimize(constraints+obj, verbose=False,
-- 
2.43.0


From 2936c140748729e3975840409ce5ea22bfa9329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 17/28] fix: rfo fails once the approximate Hessian is exact

The Bofill update divided by zero when the Hessian predicted the gradient
exactly (any quadratic function), and everything became nan.
---
 electrode/saddle.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..762cee7 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -79,12 +79,15 @@ def rfo(fun, grad, x0, args=(),
         df = fun(np.array(x + dx).ravel()) - f
         dg = np.matrix(grad(np.array(x + dx).ravel())).T - g
         dp = dg - h*dx
-        dh_powell = (dp*dx.T + dx*dp.T)/(dx.T*dx) - \
-                float(dp.T*dx)*(dx*dx.T)/(dx.T*dx)**2
-        dh_sr1 = (dp*dp.T)/(dp.T*dx)
-        phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
-        dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        dpx, dpp, dxx = float(dp.T*dx), float(dp.T*dp), float(dx.T*dx)
+        if dpp*dxx == 0:
+            dh = 0.*h # nothing new: h predicted dg, or no step
+        else:
+            dh_powell = (dp*dx.T + dx*dp.T)/dxx - dpx*(dx*dx.T)/dxx**2
+            phi = dpx**2/(dpp*dxx)
+            phi_dh_sr1 = dpx/(dpp*dxx)*(dp*dp.T)
+            dh_bofill = phi_dh_sr1 + (1-phi)*dh_powell
+            dh = dh_bofill
 
         if 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From 8bd2a28c3420666dd47f2a86470257463af65cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:04 +0000
Subject: [PATCH 18/28] fix: rfo divides by zero along directions without slope
 and curvature

---
 electrode/saddle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 762cee7..d3a304f 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -73,6 +73,7 @@ def rfo(fun, grad, x0, args=(),
 
         gl = np.array(v.T*g).ravel()
         lmg = .5*d*(abs(l) + np.sqrt(l**2 + 4*gl**2))
+        lmg[lmg == 0] = 1. # neither slope nor curvature: no step
 
         dx = -v*np.matrix(gl/lmg).T
         dx /= max(1., np.linalg.norm(dx)/dx_max)
-- 
2.43.0


From bf8c5d860ab44dc9acf142f4564904b8135ddc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:05 +0000
Subject: [PATCH 19/28] fix: rfo raises for integer start points and Hessians

---
 electrode/saddle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index d3a304f..cc14980 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -36,13 +36,13 @@ def rfo(fun, grad, x0, args=(),
     121, 20, (2004).
     """
 
-    x = np.matrix(x0).T.copy()
+    x = np.matrix(x0, dtype=np.double).T.copy()
     f = fun(np.array(x).ravel())
-    g = np.matrix(grad(np.array(x).ravel())).T
+    g = np.matrix(grad(np.array(x).ravel()), dtype=np.double).T
     if h is None:
         h = np.matrix(np.identity(x.size))
     else:
-        h = np.matrix(h)
+        h = np.matrix(h, dtype=np.double)
 
     d = np.ones((x.size,))
     d[0] *= -1
-- 
2.43.0


From bff100dc9a859e86e3dad7a89c0a4018a3e1a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 20/28] fix: trajectory() pushed the ion up the potential

The acceleration was plus the gradient of the potential: ions left
confining dc potentials and were held by anticonfining ones. Start points
given as lists failed, integer ones were truncated during the motion.
---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 2fd25aa..6e05e21 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -643,11 +643,11 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
+        x0, v0 = np.array(x0, dtype=float), np.array(v0, dtype=float)
         t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
         def ddx(t, q, f):
             x0[axis] = q
-            f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
+            f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
         while t < t1:
             integ(ddx, nsteps, t, p, q, t+dt, *args, **kwargs)
             t += dt
-- 
2.43.0


From 48fef59dc2d1a5e358be3e8b0307e01e45ab634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 21/28] fix: Mathieu.init_sol() needed nc for modes other than
 'det'

---
 electrode/mathieu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 364f3f2..e6a7c74 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -271,7 +271,9 @@ class Mathieu():
             self.nu = self.nu_exp_ivp(a,q,method='Radau')
         else:
             raise ValueError("Invalid characteristic exponent mode.")
-        if nc == None:
+        if nc is None:
+            if mode != 'det':
+                nu_n = self.nu_tolerance(a,q,tol=tol_nu)[1]
             nc = nu_n
         self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
         return 0
-- 
2.43.0


From c6e5b00d6abc8291233532a6b11e3199e33f1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:19 +0000
Subject: [PATCH 22/28] fix: derivatives_spherical_cartesian() swapped theta
 and phi

The components are documented as (dr, dtheta, dphi), in the order of
spherical_to_cartesian(), but were returned and taken as (dr, dphi, dtheta).
---
 electrode/spherical_harmonics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index e1da859..50d9446 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -38,12 +38,12 @@ def derivatives_spherical_cartesian(d, r, theta, phi,
     cp, sp = cis_phi.real, cis_phi.imag
     if direction == "to_spherical":
         m = [[cp*st, sp*st, ct],
-             [-sp/(r*st), cp/(r*st), np.zeros_like(r)],
-             [cp*ct/r, sp*ct/r, -st/r]]
+             [cp*ct/r, sp*ct/r, -st/r],
+             [-sp/(r*st), cp/(r*st), np.zeros_like(r)]]
     elif direction == "to_cartesian":
-        m = [[cp*st, -r*sp*st, r*cp*ct],
-             [sp*st, r*cp*st, r*sp*ct],
-             [ct, np.zeros_like(r), -r*st]]
+        m = [[cp*st, r*cp*ct, -r*sp*st],
+             [sp*st, r*sp*ct, r*cp*st],
+             [ct, -r*st, np.zeros_like(r)]]
     return [sum(m[i][j]*k for j, k in enumerate(d))
             for i in range(3)]
 
-- 
2.43.0


From ee34ea9e229638c4fdd01dd2df894c39ac2ce68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 23/28] fix: Adjust.volt_change() moved the ion the other way
 with 'force'

The voltage changes have to add the gradient -curvature*displacement at the
old minimum; the method 'position' does that, 'force' had the sign wrong.
---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 93d96ac..8e3387d 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -100,7 +100,7 @@ class Adjust():
 		xm_old = self.xms[-1]	# minimum of last move
 		if method == "force":
 			xm_evaluate = xm_old
-			nonhomo = E_scale*self.basis[axis]
+			nonhomo = -E_scale*self.basis[axis]	# the force is minus the gradient
 		elif method == "position":
 			xm_evaluate = xm_old+dis/l*self.basis[axis]
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
-- 
2.43.0


From 78a2013f84b3279f324e0cf2fe8972344bb5c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:50 +0000
Subject: [PATCH 24/28] fix: Adjust.volt_change() failed for electrodes other
 than grids

Electrode.potential() takes an (n, 3) array of points.
---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 8e3387d..1dc13f7 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -106,7 +106,7 @@ class Adjust():
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
 		for ith in range(Nele):    # ith is the column index of coef.
 			for ele in self.E_config[ith]:
-				coef[:,ith] += self.system[ele].potential(xm_evaluate,derivative=1)[0].T    # GridElectrode.potential
+				coef[:,ith] += self.system[ele].potential(xm_evaluate[None, :],derivative=1)[0].T
 		deltaV = scipy_solve(coef,nonhomo.T)    # Corresponds to the order of E_config.
 		# deltaV = [scipy_solve(coef,Ev*ev) for Ev,ev in zip(E_scale,self.basis)]
 		return deltaV
-- 
2.43.0


From 149a9f7840d77bd291eeff799ed3e443b010ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 25/28] fix: to_gds() libraries could not be saved

gdsii stores coordinates as 32 bit integers; to_gds() handed it floats,
so Library.save() raised struct.error. Round to database units.
---
 electrode/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..496937f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -391,7 +391,7 @@ class Polygons(list):
                 if edge:
                     poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
@@ -421,7 +421,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From ebe4afd4ccc4763169a11228cb572a318358232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 26/28] fix: Polygons.filter(deep=False) without a test
 function raised

The documented default test was only installed with deep=True.
---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 496937f..e8bbc0f 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -557,7 +557,7 @@ class Polygons(list):
         Polygons
             Filtered output
         """
-        if test is None and deep:
+        if test is None:
             def test(name, boundary):
                 return abs(geometry.Polygon(boundary).area) > 1e-2
 
-- 
2.43.0


From b8e13f6ef9766d4784116aabfab59ea542dd1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:21 +0000
Subject: [PATCH 27/28] fix: optimize() failed with a single objective

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 6e05e21..339e7ea 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -801,7 +801,8 @@ class System(list):
         # drop the line that depends most on the others
         B1 = np.delete(B1, np.argmax(np.abs(np.dot(Bp.T, g))), 0)
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1): # else there is a single objective
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From e31cb9a438a273f7b728bbfd93b9501b554dac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:05 +0000
Subject: [PATCH 28/28] fix: plot_contour() indexed the axes of the grid with a
 list

---
 electrode/system.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 339e7ea..d87ec07 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -425,7 +425,8 @@ class System(list):
         e3 = slc_at
         sec = {'x':[1,2],'y':[0,2],'z':[0,1]}
         coord = {'x':[2,0,1],'y':[0,2,1],'z':[0,1,2]}
-        xyz = grid.to_xyz()[sec[slc]]    # point arrays of the other two axes
+        xyz = grid.to_xyz()
+        xyz = [xyz[i] for i in sec[slc]]    # point arrays of the other two axes
         axis = coord[slc]
         pot = []
         for e2 in xyz[1]:
-- 
2.43.0

