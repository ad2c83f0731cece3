From 09aed11bcf07b9919542271641a811d248eafe4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 01/51] fix: with_voltages restores every overridden voltage

If setting the dc voltages failed part-way the new rf voltages were
applied on exit, and voltages were restored by position, hitting the
wrong electrodes if the list had been changed inside the context.
---
 electrode/system.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index dd1af20..96af2f4 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -166,17 +166,20 @@ class System(list):
         >>> with s.with_voltages(dcs=0*s.dcs, rfs=[0, 1]):
         ...     print(s.potential([0, 0, 1.]))
         """
+        # remember the electrodes themselves: the list may change meanwhile
+        saved = [(ei, ei.dc, ei.rf) for ei in self]
         try:
-            if dcs is not None:
-                dcs, self.dcs = self.dcs, dcs
-            if rfs is not None:
-                rfs, self.rfs = self.rfs, rfs
-            yield
-        finally:
             if dcs is not None:
                 self.dcs = dcs
             if rfs is not None:
                 self.rfs = rfs
+            yield
+        finally:
+            for ei, dc, rf in saved:
+                if dcs is not None:
+                    ei.dc = dc
+                if rfs is not None:
+                    ei.rf = rf
 
     def electrical_potential(self, x, derivative=0, typ="dc", expand=False):
         """Electrical potential derivative.
-- 
2.43.0


From b2d3ad6eef85478ebe49bbbc2bee4be41d692209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 02/51] fix: do not leak solver options into later
 optimizations

---
 electrode/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 96af2f4..4c4f5de 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -704,8 +704,9 @@ class System(list):
 
     def _run_cvxopt(self, obj, ctrs, verbose=True, **kwargs):
         solver = cvxopt.modeling.op(obj, ctrs)
-        cvxopt.solvers.options.update(**kwargs)
-        cvxopt.solvers.options["show_progress"] = verbose
+        # options for this call only, do not leak them into later calls
+        options = dict(cvxopt.solvers.options, **kwargs)
+        options["show_progress"] = verbose
         if verbose:
             logger.info("variables: %i", sum(v._size
                     for v in solver.variables()))
@@ -713,7 +714,7 @@ class System(list):
                     for v in solver.inequalities()))
             logger.info("equalities: %i", sum(v.multiplier._size
                     for v in solver.equalities()))
-        solver.solve("sparse")
+        solver.solve("sparse", options=options)
         if not solver.status == "optimal":
             raise ValueError("solve failed: %s" % solver.status)
         return solver
-- 
2.43.0


From e85bc9d142264fd3f6418c2062f7832dbbd44277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 03/51] fix: shims does not clobber the values of the given
 objectives

The values were left at 0 (or 1 if a solve failed) and the initial ones
contaminated the first shim vectors, so that results depended on the
call history.
---
 electrode/system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 4c4f5de..45838b3 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -20,7 +20,7 @@
 from __future__ import (absolute_import, print_function,
         unicode_literals, division)
 
-import warnings, itertools
+import copy, warnings, itertools
 from contextlib import contextmanager
 import logging
 
@@ -689,7 +689,10 @@ class System(list):
         """
         obj = [PotentialObjective(x=x, derivative=deriv, value=0,
             rotation=coord) for x, coord, deriv in x_coord_deriv]
-        obj += objectives
+        # work on copies, the values are scratch space below
+        obj += [copy.copy(oi) for oi in objectives]
+        for oi in obj:
+            oi.value = 0
         if constraints is None:
             constraints = [PatternRangeConstraint(min=-1, max=1)]
         vectors = np.empty((len(obj), len(self)),
-- 
2.43.0


From af18b7c0ca47c076732a96b7f556862047c9d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 04/51] fix: use complex instead of the removed np.complex

---
 electrode/mathieu.py | 4 ++--
 electrode/utils.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index c1de6bb..9bdaf8f 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -33,7 +33,7 @@ class Mathieu():
         # print(d0)
         rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
         if rhs < 0 or rhs > 1:
-            nu = 2./np.pi*np.arcsinh(np.sqrt(np.complex(-rhs)))    # In fact, this is mu.
+            nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = 2./np.pi*np.arcsin(np.sqrt(rhs))   # mu = j*nu
@@ -82,7 +82,7 @@ class Mathieu():
             t_eval = None
         sol = solve_ivp(func,[0.,np.pi],[1.,0.],method=method,t_eval=t_eval)
         if np.abs(sol.y[0,-1]) > 1.:
-            nu = np.arccosh(np.complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
+            nu = np.arccosh(complex(sol.y[0,-1]))/np.pi    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
         else:
             nu = np.arccos(sol.y[0,-1])/np.pi   # mu = j*nu
diff --git a/electrode/utils.py b/electrode/utils.py
index 8fff71a..046ce89 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -568,7 +568,7 @@ def mathieu(r, *a):
       (see numpy.linalg.eig())
     """
     n = a[0].shape[0]
-    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=np.complex)
+    m = np.zeros((2*r+1, 2*r+1, 2, 2, n, n), dtype=complex)
     for l in range(2*r+1):
         # derivative on the diagonal
         m[l, l, 0, 0] = m[l, l, 1, 1] = np.identity(n)*2j*(l-r)
-- 
2.43.0


From 67692d76266ba401b046bbcdbf1e4676ac0d30a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 05/51] fix: use int instead of the removed np.int in
 SphericalHarmonics

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index ed73be5..69b3639 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -93,7 +93,7 @@ class SphericalHarmonics(object):
         # self.measure = np.sin(self.theta)
         self.weight = w[:, None]
         self.phi = np.arange(0, 2 * np.pi, np.pi / nmax)[None, :]
-        self.n, self.m = np.empty((2, nmax, nmax), np.int)
+        self.n, self.m = np.empty((2, nmax, nmax), int)
         for n, m, p, q in self.indices():
             self.n[p, q], self.m[p, q] = n, m
         ptmn = np.array([special.lpmn(nmax - 1, nmax - 1, xi)[0] for xi in x])
-- 
2.43.0


From 81ad096c426fd685abdff8e7d35aca02a90ca4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 06/51] fix: analyze_static does not swallow interrupts and
 GeneratorExit

---
 electrode/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 45838b3..fbf2101 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1010,11 +1010,12 @@ class System(list):
         yield " rf pseudo: %.2g eV" % p_rf
         try:
             xs, xsp = self.saddle(x + saddle_offset)    # 1e-2*x[2]
+        except Exception:
+            yield " saddle not found"
+        else:
             yield " saddle offset: %s" % (xs - x,)
             yield "               (%s µm)" % ((xs - x)*l/1e-6,)
             yield " saddle height: %.2g eV" % (xsp - (p_dc + p_rf))
-        except:
-            yield " saddle not found"
         yield "force:"
         f_dc = self.electrical_potential(x, 1, "dc")[0]
         f_rf = self.pseudo_potential(x, 1)[0]
-- 
2.43.0


From 9da0bd1ba923a26161104b7854ef93d7c7fcb00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 07/51] fix: a failed Mathieu.init_sol keeps the previous
 solution

It left the new exponent with the old coefficients.
---
 electrode/mathieu.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 9bdaf8f..5a45b38 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -264,16 +264,19 @@ class Mathieu():
         """
         a, q = np.double(a), np.double(q)
         if mode == 'd0ap':
-            self.nu = self.nu_exp_d0ap(a,q)
+            nu = self.nu_exp_d0ap(a,q)
         elif mode == 'det':
-            self.nu, nu_n = self.nu_tolerance(a,q,tol=tol_nu)
+            nu, nu_n = self.nu_tolerance(a,q,tol=tol_nu)
         elif mode == 'ivp':
-            self.nu = self.nu_exp_ivp(a,q,method='Radau')
+            nu = self.nu_exp_ivp(a,q,method='Radau')
         else:
             raise ValueError("Invalid characteristic exponent mode.")
         if nc == None:
+            if mode != 'det':
+                raise ValueError("nc must be given unless mode is 'det'.")
             nc = nu_n
-        self.Cn = self.coeff_Cn(a,q,self.nu,nc,ng)[0:2]
+        # keep the previous solution unless both succeed
+        self.nu, self.Cn = nu, self.coeff_Cn(a,q,nu,nc,ng)[0:2]
         return 0
 
     def sol_y1(self,t,deri=0):
-- 
2.43.0


From 3fcd79ced86099f78bc21c840e31ee126be16343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 08/51] fix: Mathieu.init_value for t0 != 0

---
 electrode/mathieu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 5a45b38..0bf41d4 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -352,7 +352,7 @@ class Mathieu():
             den = self.sol_y1(t0,0)*self.sol_y2(t0,1)-self.sol_y1(t0,1)*self.sol_y2(t0,0)
             A = (y0[0]*self.sol_y2(t0,1)-y0[1]*self.sol_y2(t0,0))/den
             B = -(y0[0]*self.sol_y1(t0,1)-y0[1]*self.sol_y1(t0,0))/den
-            return np.array(A,B)
+            return np.array([A,B])
 
     def sol_plot():
         pass
\ No newline at end of file
-- 
2.43.0


From 8dff0386aded4da7a2bd0da2b720f2da0d66a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 09/51] fix: System.solve accumulates all local objectives

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index fbf2101..c621244 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -753,7 +753,7 @@ class System(list):
         ctrs = []
         for ci, vi in zip(local_constraints, variables):
             for cj in ci:
-                obj = sum(coef*val for coef, val in cj.objective(self, vi))
+                obj += sum(coef*val for coef, val in cj.objective(self, vi))
                 ctrs.extend(cj.constraints(self, vi))
         for ci in global_constraints:
             obj += sum(coef*val for coef, val in ci.objective(self, variables))
-- 
2.43.0


From 8fa42521d881e17b179b74ab25322b12f09bcf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 10/51] fix: System.group with thresholds=None

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index c621244..24b843b 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -838,7 +838,7 @@ class System(list):
         if voltages is None:
             voltages = self.dcs
         if thresholds is None:
-            threshold = sorted(np.unique(voltages))
+            thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
         eles = []
         for i, (ta, tb) in enumerate(zip(ts[:-1], ts[1:])):
-- 
2.43.0


From 80f03429aa18a7a5f3ece02a8efcb5c3b4a766d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 11/51] fix: to_gds yields a library that can be saved

GDS coordinates are integers, properties a sequence.
---
 electrode/polygons.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index b9796df..66ecaac 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -391,17 +391,17 @@ class Polygons(list):
                 if edge:
                     poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
                     p = elements.Text(layer=text_layer[0],
                                       text_type=text_layer[1], xy=xy[:1],
                                       string=name.encode("ascii"))
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 if poly_layer is not None:
                     p = elements.Boundary(layer=poly_layer[0],
                                           data_type=poly_layer[1], xy=xy)
-                    p.properties = props.items()
+                    p.properties = list(props.items())
                     stru.append(p)
                 gaps.append(poly.exterior)
                 gaps.extend(poly.interiors)
@@ -421,7 +421,7 @@ class Polygons(list):
             #    g = [g]
             for loop in g:
                 xy = np.array(loop.coords.xy).copy()
-                xy = xy.T[:, :2]*scale/phys_unit
+                xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 #xy = np.r_[xy, xy[:1]]
                 p = elements.Path(layer=gap_layer[0],
                                   data_type=gap_layer[1], xy=xy)
-- 
2.43.0


From c4c5bbf43155572385571f8196eba83ba75f4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 12/51] fix: xic_to_list on python 3 and with blank lines

---
 electrode/xic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 76111ba..528f689 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -30,14 +30,14 @@ def xic_to_list(xic):
     es = []
     for line in xic:
         line = line.rstrip()
-        if line[0] == "P":
+        if line[:1] == "P":
             p = [line.split()[1:]]
-        elif line[0] == " ":
+        elif line[:1] == " ":
             if not line.endswith(";"):
                 p.append(line.split())
             else:
                 p.append(line[:-1].split())
-                es.append(np.array([map(float, i) for i in p])*1e-8)
+                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
         elif not line.strip():
             pass
         else:
-- 
2.43.0


From be149040ea53820c0d13ad26a224ee3d89f62530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 13/51] fix: saddle rotates derivatives into the given
 coordinate system

The potential is evaluated at coord*x, gradient and hessian used the
inverse rotation.
---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 24b843b..657561c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -568,9 +568,9 @@ class System(list):
         def g(xi):
             x[axis] = xi
             return rotate_tensor(self.potential(np.dot(coord, x), 1),
-                    coord.T)[0, axis]
+                    coord)[0, axis]
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
-                coord.T)[0, axis][:, axis]
+                coord)[0, axis][:, axis]
         # rational function optimization
         xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
-- 
2.43.0


From 28b5054fc35e0555b28a77ad58c97abafc7c64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 14/51] fix: minimum and saddle with integer start points

The trial points were truncated to integers.
---
 electrode/system.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 657561c..13f8499 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -512,7 +512,7 @@ class System(list):
         --------
         scipy.optimize.minimize
         """
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -527,7 +527,7 @@ class System(list):
                     coord)[0, axis][:, axis]
         #xs = optimize.fmin_bfgs(p, np.array(x0)[axis], fprime=g,
         #        disp=False)
-        x0 = np.array(x0)[axis]
+        x0 = np.array(x0, np.double)[axis]
         res = optimize.minimize(fun=f, x0=x0, jac=g, hess=h,
             method=method, **kwargs)
         if not res.success:
@@ -560,7 +560,7 @@ class System(list):
         """
         kwargs = dict(dx_max=.1, xtol=1e-5, ftol=1e-5)
         kwargs.update(kw)
-        x = np.array(x0)
+        x = np.array(x0, np.double)
         axis = list(axis)
         def f(xi):
             x[axis] = xi
@@ -572,7 +572,7 @@ class System(list):
         h = rotate_tensor(self.potential(np.dot(coord, x), 2),
                 coord)[0, axis][:, axis]
         # rational function optimization
-        xs, p, ret = rfo(f, g, np.array(x0)[axis], h=h, **kwargs)
+        xs, p, ret = rfo(f, g, np.array(x0, np.double)[axis], h=h, **kwargs)
         if not ret in ("ftol", "xtol"):
             raise ValueError("%s", ((x0, axis, x, xs, p, ret),))
         # f(xs) # update x
-- 
2.43.0


From e3c126938447629c8a51d2c8d785caafa8609b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 15/51] fix: make Adjust propose, accept and reject moves
 consistently

It started without recorded voltages, next_step raised on every path,
rejecting used an attribute that does not exist, a failed or repeated
proposal started from the voltages of a pending trial, and an own deltaV
was applied twice.
---
 electrode/adjust.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index 6e62639..d069085 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -18,6 +18,7 @@ from scipy.linalg import solve as scipy_solve
 class Adjust():
 	system = None
 	basis = None    # np.eye(3)
+	_propose = None
 
 	# self.system, self.basis, self.E_config, self.xms/volts/curves, self._propose
 
@@ -25,7 +26,7 @@ class Adjust():
 		self.system = system
 		volts = {}
 		for ele in system:
-			volts[ele.name] = []    # initial .dc
+			volts[ele.name] = [ele.dc]    # initial .dc
 		self.volts = volts    # self.volts is a dict, {ele1:[v0,v1,...],ele2:[v0,v1...],...}
 
 	def set_move_init(self, E_config=None, xm=None, axis_order=None):
@@ -35,14 +36,14 @@ class Adjust():
 
 		# minimum xm
 		# system.minimum() still has some problem, if it appears, you can manually input xm.
-		if xm == None:
+		if xm is None:
 			xi = (0.,0.,0.)
 			xm = self.system.minimum(xi)
 		self.xms = [np.array(xm)]
 
 		# eigenvector -> bases
 		evalue, evector = self.system.modes(xm)
-		if axis_order == None:
+		if axis_order is None:
 			# sort according to the x coordinate of eigenvectors. [::-1] in acsending order
 			axis_order = evector[0].argsort()[::-1]
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
@@ -80,6 +81,11 @@ class Adjust():
 					self.volts[ele].append(self.volts[ele][-1])    # keep the last value. 
 		return None
 
+	def reset_volts(self):
+		# Internal method. Set voltages of E_config back to those of the last accepted move.
+
+		self.set_volts(self.construct_config([0.]*len(self.E_config)))
+
 	def volt_change(self, axis=1, l=200e-6, dis=10e-9, same_scale=False, method="force"):
 		# 1. Change of voltages of electrodes in self.E_config(), save to self.volts
 		# 
@@ -120,9 +126,13 @@ class Adjust():
 		xm_old = self.xms[-1]
 		config = self.construct_config(deltaV)
 		self.set_volts(config, save=False)
-		xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
+		try:
+			xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
+			evalue, evector = self.system.modes(xm_new)
+		except:
+			self.reset_volts()
+			raise
 		xm_offset = xm_new-xm_old
-		evalue, evector = self.system.modes(xm_new)
 		axis_order = evector[0].argsort()[::-1]		# sort evector x
 		evalue, evector = evalue[axis_order], evector[:,axis_order].T
 		freq_change = np.sqrt(evalue)-np.sqrt(self.curves[0])
@@ -132,6 +142,7 @@ class Adjust():
 	def propose_move(self, axis=1, l=200e-6, dis=10e-9, same_scale=False, method="force"):
 		# Use method to propose a configuration for moving, and save it in self._propose.
 
+		self.reset_volts()    # start from the last accepted move, not from a pending trial
 		deltaV = self.volt_change(axis=axis, l=l, dis=dis, same_scale=same_scale, method=method)
 		xm_new, xm_offset, evalue, freq_change, vec_change = self.xm_freq_change(deltaV)
 		self._propose = [deltaV,xm_new,evalue]	# save solved solution temporarily as a _propose.
@@ -142,26 +153,23 @@ class Adjust():
 		# Pay attention, if you have used propose_move() or xm_freq_change(), the deltaV have been applied
 		# to system.
 
-		if deltaV == None:
-			try:
-				deltaV, xm_new, evalue = self._propose
-				userown = False    # user own deltaV
-			except AttributeError:
-				warnings.warn("Propose a volt_change() first.")
-
 		if accept:
+			if deltaV is None:
+				if self._propose is None:
+					raise ValueError("Propose a volt_change() first.")
+				deltaV, xm_new, evalue = self._propose
+			else:    # user own deltaV
+				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
 			config = self.construct_config(deltaV)
 			self.set_volts(config, save=True)
-			if userown:
-				xm_new, evalue = self.xm_freq_change(deltaV)[[0,2]]
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
 		else:
 			# reset voltages back to erase the change due to xm_freq_change()
-			self.set_volts(self.Volts[-1])		
+			self.reset_volts()
 			# print("Stay")
 
-		del self._propose
+		self._propose = None
 		return 0
 
-- 
2.43.0


From 3f62d6cd6247d1bcfc33b6cfd717daf080bc9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 16/51] fix: DummyPool runs each call exactly once

The call was deferred to get() and repeated on every get().
---
 electrode/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/electrode/utils.py b/electrode/utils.py
index 046ce89..28aafe7 100644
--- a/electrode/utils.py
+++ b/electrode/utils.py
@@ -595,7 +595,15 @@ class DummyPool(object):
 
     """
     def apply_async(self, func, args=(), kwargs={}):
+        # run exactly once, now, like a worker would
+        ret = err = None
+        try:
+            ret = func(*args, **kwargs)
+        except Exception as e:
+            err = e
         class _DummyRet(object):
             def get(self):
-                return func(*args, **kwargs)
+                if err is not None:
+                    raise err
+                return ret
         return _DummyRet()
-- 
2.43.0


From 2776fb60d0c48bf7010132bfe994984c1cce528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 17/51] fix: optimize drops the dependent objective row, not
 always the last

---
 electrode/system.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 13f8499..06e1e8c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -802,10 +802,12 @@ class System(list):
         g2 = np.inner(g, g)
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
-        #FIXME: there is one singular value, drop one line
-        B1 = B1[:-1]
+        # y*B1 == 0 for y = g*Bp: drop the line that is most certainly a
+        # combination of the others, not one that is independent of them
+        B1 = np.delete(B1, np.fabs(np.dot(g, Bp)).argmax(), 0)
         # B*g_perp*p == 0
-        ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
+        if len(B1):
+            ctrs.append(cvxopt.modeling.dot(cvxopt.matrix(B1.T), p) == 0.)
 
         solver = self._run_cvxopt(-obj, ctrs, verbose, **kwargs)
 
-- 
2.43.0


From f6e6a4618237aed3d0fe4bd490398d2d7f8f5f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 18/51] fix: optimize rejects a problem without any non-zero
 objective

---
 electrode/system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/system.py b/electrode/system.py
index 06e1e8c..b27fa6d 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -800,6 +800,8 @@ class System(list):
         Bp = np.linalg.pinv(B, rcond=rcond)
         g = np.dot(Bp, b)
         g2 = np.inner(g, g)
+        if not g2 > 0:
+            raise ValueError("at least one non-zero objective is needed")
         B1 = B - np.outer(b, g)/g2 # B*g_perp
         obj = cvxopt.modeling.dot(cvxopt.matrix(g), p) # maximize this
         # y*B1 == 0 for y = g*Bp: drop the line that is most certainly a
-- 
2.43.0


From 4d961b286a7fbfa6a24626550d700bd2febba065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 19/51] fix: rfo does not take a shortened step for convergence

---
 electrode/saddle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 45531b8..8a13b00 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -75,7 +75,9 @@ def rfo(fun, grad, x0, args=(),
         lmg = .5*d*(abs(l) + np.sqrt(l**2 + 4*gl**2))
 
         dx = -v*np.matrix(gl/lmg).T
-        dx /= max(1., np.linalg.norm(dx)/dx_max)
+        # steps that need to be shortened have not converged
+        short = max(1., np.linalg.norm(dx)/dx_max)
+        dx /= short
         df = fun(np.array(x + dx).ravel()) - f
         dg = np.matrix(grad(np.array(x + dx).ravel())).T - g
         dp = dg - h*dx
@@ -86,11 +88,11 @@ def rfo(fun, grad, x0, args=(),
         dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
         dh = dh_bofill
 
-        if 2.*np.linalg.norm(dx) <= xtol * (
+        if short == 1. and 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
             ret = "xtol"
 
-        if 2.*np.abs(df) <= ftol * (abs(f+df) + abs(f) + 1e-20):
+        if short == 1. and 2.*np.abs(df) <= ftol * (abs(f+df) + abs(f) + 1e-20):
             ret = "ftol"
 
         if maxiter > 0 and it > maxiter:
-- 
2.43.0


From 2bcc3dd1ae1dbbe3c8b857ed7839e25b022c9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 20/51] fix: rfo fails where the potential can not be evaluated

---
 electrode/saddle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 8a13b00..a818628 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -98,6 +98,10 @@ def rfo(fun, grad, x0, args=(),
         if maxiter > 0 and it > maxiter:
             ret = "iter"
 
+        # the potential can not be evaluated here
+        if not np.isfinite(df):
+            ret = "nan"
+
         x += dx
         f += df
         g += dg
-- 
2.43.0


From a8d0d82f5c060e3ee5ca377fd02f335a4812f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 21/51] fix: rfo fails where there is no step to take

---
 electrode/saddle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index a818628..78ed057 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -98,8 +98,8 @@ def rfo(fun, grad, x0, args=(),
         if maxiter > 0 and it > maxiter:
             ret = "iter"
 
-        # the potential can not be evaluated here
-        if not np.isfinite(df):
+        # no step, or the potential can not be evaluated here
+        if not np.all(np.isfinite(dx)) or not np.isfinite(df):
             ret = "nan"
 
         x += dx
-- 
2.43.0


From df92b1a3e91963adb918de44d4604d0b0e98f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 22/51] fix: trajectory accepts any array_like, also integers

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index b27fa6d..ada5558 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -646,8 +646,8 @@ class System(list):
                 return integ_(ddx, nsteps, t, p, q, t1, methc,
                         *args, **kwargs)
         axis = list(axis)
-        t, p, q = t0, v0[axis], x0[axis]
-        x0 = np.array(x0)
+        x0 = np.array(x0, np.double)
+        t, p, q = t0, np.array(v0, np.double)[axis], x0[axis]
         def ddx(t, q, f):
             x0[axis] = q
             f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
-- 
2.43.0


From 6a490fd37ca29d84410f8a744b7a19a80093fba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 23/51] fix: Adjust puts voltages back if applying a move fails
 half way

---
 electrode/adjust.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index d069085..df88d60 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -125,8 +125,8 @@ class Adjust():
 
 		xm_old = self.xms[-1]
 		config = self.construct_config(deltaV)
-		self.set_volts(config, save=False)
 		try:
+			self.set_volts(config, save=False)
 			xm_new = self.system.minimum(xm_old+0.01, method="Nelder-Mead")    # add +0.01 to aviod precision loss
 			evalue, evector = self.system.modes(xm_new)
 		except:
@@ -161,7 +161,11 @@ class Adjust():
 			else:    # user own deltaV
 				xm_new, _, evalue = self.xm_freq_change(deltaV)[:3]
 			config = self.construct_config(deltaV)
-			self.set_volts(config, save=True)
+			try:
+				self.set_volts(config, save=True)
+			except:
+				self.reset_volts()
+				raise
 			self.xms.append(xm_new)
 			self.curves.append(evalue)
 			# print("Move")
-- 
2.43.0


From 0573f2508b8e6c9e0e8ae64f11a91ba4c05a9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 24/51] fix: analyze_static varies only the given axes in its
 searches

---
 electrode/system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index ada5558..8581e76 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1004,7 +1004,7 @@ class System(list):
             trap = x
         else:
             # 'Nelder-Mead'/'Powell' don't use jac and hess, can avoid precision loss
-            trap = self.minimum(x+min_offset, method=min_method)
+            trap = self.minimum(x+min_offset, axis, method=min_method)
         yield " minimum is at offset: %s" % (trap - x,)
         yield "                      (%s µm)" % ((trap - x)*l/1e-6,)
         p_dc = self.electrical_potential(x, 0, "dc")[0]
@@ -1013,7 +1013,7 @@ class System(list):
         yield " dc electrical: %.2g eV" % p_dc
         yield " rf pseudo: %.2g eV" % p_rf
         try:
-            xs, xsp = self.saddle(x + saddle_offset)    # 1e-2*x[2]
+            xs, xsp = self.saddle(x + saddle_offset, axis)    # 1e-2*x[2]
         except Exception:
             yield " saddle not found"
         else:
-- 
2.43.0


From f345fad8d841f8d97ea3662defdb5df902d38803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 25/51] fix: xic_to_list reads polygons with any number of
 points per line

---
 electrode/xic.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/electrode/xic.py b/electrode/xic.py
index 528f689..feed1ee 100644
--- a/electrode/xic.py
+++ b/electrode/xic.py
@@ -28,18 +28,17 @@ from .electrode import PolygonPixelElectrode
 
 def xic_to_list(xic):
     es = []
+    p = None
     for line in xic:
         line = line.rstrip()
         if line[:1] == "P":
-            p = [line.split()[1:]]
-        elif line[:1] == " ":
-            if not line.endswith(";"):
-                p.append(line.split())
-            else:
-                p.append(line[:-1].split())
-                es.append(np.array([list(map(float, i)) for i in p])*1e-8)
-        elif not line.strip():
-            pass
+            p = line[1:].split()
+        elif line[:1] == " " and p is not None:
+            p.extend(line.split())
         else:
-            pass # print line
+            continue # not part of a polygon
+        if line.endswith(";"):
+            p = " ".join(p)[:-1].split()
+            es.append(np.array(list(map(float, p))).reshape(-1, 2)*1e-8)
+            p = None
     return es
-- 
2.43.0


From f35b1192df45f33669fc84908570e7800cae28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 26/51] fix: Polygons.filter without test and not deep drops
 small polygons

---
 electrode/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 66ecaac..1bbc9c5 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -560,6 +560,9 @@ class Polygons(list):
         if test is None and deep:
             def test(name, boundary):
                 return abs(geometry.Polygon(boundary).area) > 1e-2
+        elif test is None:
+            def test(name, poly):
+                return poly.area > 1e-2
 
         p = Polygons()
         for ni, pi in self:
-- 
2.43.0


From fbc6a9adc8e7c643291a679fb0e8cf883098da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 27/51] fix: remove_overlaps also works on small length scales

---
 electrode/polygons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 1bbc9c5..c044cc0 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -454,7 +454,7 @@ class Polygons(list):
         acc = geometry.Point()
         for ni, pi in self:
             pa = acc.intersection(pi)
-            if pa.is_valid and pa.area > np.finfo(np.float32).eps:
+            if pa.is_valid and pa.area > np.finfo(np.float32).eps*pi.area:
                 pc = pi.difference(pa)
                 if pc.is_valid:
                     pi = pc
-- 
2.43.0


From 5fbe46143bbd805b86e2708eb32ffe9c89b78920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 28/51] fix: Polygons methods on electrodes cut to nothing, a
 line or a point

---
 electrode/polygons.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index c044cc0..3a98c71 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -71,6 +71,13 @@ def smooth(x, y, smoothing=1., straight=None, corner=None, straight_tol=1e-6,
     return xn, yn
 
 
+def polygon_parts(geom):
+    """List of the polygons with some area in a geometry, leaving out the
+    lines and points that an intersection can result in"""
+    return [p for p in getattr(geom, "geoms", [geom])
+            if isinstance(p, geometry.Polygon) and p.area]
+
+
 class Polygons(list):
     """A simple representations of polygonal electrode data (two
     dimensional).
@@ -154,10 +161,8 @@ class Polygons(list):
         for n, p in self:
             e = PolygonPixelElectrode(name=n, paths=[])
             s.append(e)
-            if isinstance(p, geometry.Polygon):
-                p = [p]
-            for pi in p:
-                if not pi.is_valid or not pi.area:
+            for pi in polygon_parts(p):
+                if not pi.is_valid:
                     continue
                 ext = np.array(pi.exterior.coords)
                 if not pi.exterior.is_ccw:
@@ -382,14 +387,12 @@ class Polygons(list):
             props = {}
             if name:
                 props[self._attr_name] = name.encode("ascii")
-            if not hasattr(polys, "geoms"):
-                polys = [polys]
+            polys = polygon_parts(polys)
+            if edge:
+                polys = [p for poly in polys
+                         for p in polygon_parts(poly.intersection(field))]
             for poly in polys:
                 assert poly.is_valid, poly
-                if poly.is_empty:
-                    continue
-                if edge:
-                    poly = poly.intersection(field)
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
@@ -566,8 +569,7 @@ class Polygons(list):
 
         p = Polygons()
         for ni, pi in self:
-            if not hasattr(pi, "geoms"):
-                pi = [pi]
+            pi = polygon_parts(pi)
             if deep:
                 pe = []
                 for ppi in pi:
@@ -601,9 +603,7 @@ class Polygons(list):
         p = Polygons()
         for name, mpoly in self:
             smoothed = []
-            if not hasattr(mpoly, "geoms"):
-                mpoly = [mpoly]
-            for poly in mpoly:
+            for poly in polygon_parts(mpoly):
                 loops = []
                 b = poly.boundary
                 try:
@@ -664,9 +664,7 @@ class Polygons(list):
         """
         gaps = []
         for name, multipoly in self:
-            if isinstance(multipoly, geometry.Polygon):
-                multipoly = [multipoly]
-            for poly in multipoly:
+            for poly in polygon_parts(multipoly):
                 gaps.append(poly.boundary)
         #return ops.cascaded_union(gaps) # segfaults
         g = geometry.LineString()
-- 
2.43.0


From 0bb779bcf89f1019698b069db78f4797257f772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 29/51] fix: from_gds opens files by name and refuses unknown
 structures

---
 electrode/polygons.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 3a98c71..0abe8c4 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -222,7 +222,11 @@ class Polygons(list):
         --------
         from_data()
         """
-        lib = library.Library.load(fil)
+        if isinstance(fil, str):
+            with open(fil, "rb") as fil:
+                lib = library.Library.load(fil)
+        else:
+            lib = library.Library.load(fil)
         polys = []
         gaps = []
         routes = []
@@ -266,6 +270,8 @@ class Polygons(list):
         `Polygons` instance.
 
         Start with a `edge` by `edge` square centered at (0, 0), and cut
+        else:
+            raise ValueError("no structure %r" % (name,))
         it according to gaps. Then undo the fragmentation that is fully
         encircled by routes and bridges. Then undo fragmentation within
         polys and then fragment along the poly boundaries. Tinally
-- 
2.43.0


From 9b4630b58fe4dca5347f4cb91a06e16ef577dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 30/51] fix: from_data does not lose areas between gaps,
 bridges and polygons

---
 electrode/polygons.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 0abe8c4..9a620ef 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -310,13 +310,14 @@ class Polygons(list):
                                   [-edge/2, -edge/2], [edge/2, -edge/2]])
         field0 = field
         if gaps:
-            gaps = geometry.MultiLineString(gaps)
-            field = field.difference(gaps.buffer(buffer, 1))
+            # one by one: buffering them together loses areas at times
+            gaps = [geometry.LineString(gap).buffer(buffer, 1) for gap in gaps]
+            field = field.difference(ops.unary_union(gaps))
         if routes:
             routes = geometry.MultiLineString(routes)
         if routes and bridges:
             bridges = geometry.MultiLineString(bridges)
-            for poly in ops.polygonize(routes.union(bridges)):
+            for poly in ops.polygonize(ops.unary_union([routes, bridges])):
                 field = field.union(poly.intersection(field0))
         # field = field.buffer(0, 1)
         for name, poly in polys:
@@ -329,8 +330,7 @@ class Polygons(list):
         if routes:
             field = field.difference(routes.buffer(buffer, 1))
         assert field.is_valid, field
-        if isinstance(field, geometry.Polygon):
-            field = [field]
+        field = polygon_parts(field)
         if not gaps and not routes:
             field = []
         for i in field:
-- 
2.43.0


From b4d9dcc29211775ff489f083350bcd6cc0dd0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 31/51] fix: to_gds keeps holes and puts labels inside, paths
 that touch themselves are read

---
 electrode/polygons.py | 50 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index 9a620ef..e7c66e8 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -78,6 +78,40 @@ def polygon_parts(geom):
             if isinstance(p, geometry.Polygon) and p.area]
 
 
+def touching_parts(path):
+    """List of the polygons within a closed path that touches itself, where
+    it doubles back, leads to a hole or has a spike of rounding errors"""
+    path = np.asarray(path)
+    (x0, y0), (x1, y1) = path[:-1].T, path[1:].T
+    parts = []
+    for part in ops.polygonize(ops.unary_union(geometry.LineString(path))):
+        x, y = part.representative_point().coords[0]
+        i, = np.nonzero((y0 > y) != (y1 > y))
+        right = x0[i] + (y - y0[i])*(x1 - x0)[i]/(y1 - y0)[i] > x
+        if right.sum() % 2:
+            parts.append(part)
+    return parts
+
+
+def cut_holes(poly):
+    """List of polygons without holes that together cover `poly`"""
+    if not len(poly.interiors):
+        return [poly]
+    # cut through a hole, away from all corners so that there are no slivers
+    hole = poly.interiors[0].bounds
+    xs = [c[0] for loop in [poly.exterior] + list(poly.interiors)
+          for c in loop.coords if hole[0] <= c[0] <= hole[2]]
+    xs = np.unique(xs)
+    i = np.argmax(np.diff(xs))
+    x = (xs[i] + xs[i+1])/2.
+    x0, y0, x1, y1 = poly.bounds
+    parts = []
+    for half in geometry.box(x0, y0, x, y1), geometry.box(x, y0, x1, y1):
+        for part in polygon_parts(poly.intersection(half)):
+            parts.extend(cut_holes(part))
+    return parts
+
+
 class Polygons(list):
     """A simple representations of polygonal electrode data (two
     dimensional).
@@ -236,6 +270,8 @@ class Polygons(list):
             assert isinstance(stru, structure.Structure)
             if name is None or name == stru.name.decode():
                 break
+        else:
+            raise ValueError("no structure %r" % (name,))
         for e in stru:
             path = np.array(e.xy)*lib.physical_unit/scale
             props = dict(e.properties)
@@ -270,8 +306,6 @@ class Polygons(list):
         `Polygons` instance.
 
         Start with a `edge` by `edge` square centered at (0, 0), and cut
-        else:
-            raise ValueError("no structure %r" % (name,))
         it according to gaps. Then undo the fragmentation that is fully
         encircled by routes and bridges. Then undo fragmentation within
         polys and then fragment along the poly boundaries. Tinally
@@ -321,7 +355,7 @@ class Polygons(list):
                 field = field.union(poly.intersection(field0))
         # field = field.buffer(0, 1)
         for name, poly in polys:
-            for poly in ops.polygonize([poly]):
+            for poly in list(ops.polygonize([poly])) or touching_parts(poly):
                 assert poly.is_valid, poly
                 poly = geometry.polygon.orient(poly, 1)
                 poly = poly.intersection(field0)
@@ -399,11 +433,17 @@ class Polygons(list):
                          for p in polygon_parts(poly.intersection(field))]
             for poly in polys:
                 assert poly.is_valid, poly
+                gaps.append(poly.exterior)
+                gaps.extend(poly.interiors)
+            for poly in [part for poly in polys for part in cut_holes(poly)]:
                 xy = np.array(poly.exterior.coords.xy).copy()
                 xy = np.rint(xy.T[:, :2]*scale/phys_unit).astype(int)
                 if text_layer is not None and name:
+                    # not on the boundary, which a neighbor may share
+                    at = np.array(poly.representative_point().coords)
+                    at = np.rint(at[:, :2]*scale/phys_unit).astype(int)
                     p = elements.Text(layer=text_layer[0],
-                                      text_type=text_layer[1], xy=xy[:1],
+                                      text_type=text_layer[1], xy=at,
                                       string=name.encode("ascii"))
                     p.properties = list(props.items())
                     stru.append(p)
@@ -412,8 +452,6 @@ class Polygons(list):
                                           data_type=poly_layer[1], xy=xy)
                     p.properties = list(props.items())
                     stru.append(p)
-                gaps.append(poly.exterior)
-                gaps.extend(poly.interiors)
         if gap_layer is not None:
             ##g = ops.cascaded_union(gaps) # segfaults
             #g = ops.unary_union(gaps)
-- 
2.43.0


From a86bc5cfb1c8eb24664a4e433b3b39279ab4c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 32/51] fix: from_vtk needs a potential, takes the field in any
 order and checks it

A file listing the field before the potential was refused, one without
potential gave an electrode without data for maxderiv=0, and generate()
did not check stored orders beyond the requested one.
---
 electrode/electrode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index ff5b1b7..4c51312 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -463,7 +463,7 @@ class GridElectrode(Electrode):
         sgr = tvtk.StructuredPointsReader(file_name=fil)
         sgr.update()
         sg = sgr.get_output()
-        pot = []
+        pot = {}
         for i in range(sg.point_data.number_of_arrays):
             name = sg.point_data.get_array_name(i)
             if "_pondpot" in name:
@@ -477,8 +477,11 @@ class GridElectrode(Electrode):
             dimensions = tuple(sg.dimensions)
             dim = sp.number_of_components
             data = data.reshape(dimensions[::-1]+(dim,)).transpose(2, 1, 0, 3)
-            pot.append(data)
-        obj = cls(origin=origin, spacing=spacing, data=pot)
+            pot[name] = data
+        if "potential" not in pot:
+            raise ValueError("no potential in %s" % fil)
+        obj = cls(origin=origin, spacing=spacing,
+                data=[pot[i] for i in ("potential", "field") if i in pot])
         obj.generate(maxderiv)
         return obj
 
@@ -495,7 +498,7 @@ class GridElectrode(Electrode):
             Maximum derivative order to precompute if not already
             present.
         """
-        for deriv in range(maxderiv):
+        for deriv in range(max(maxderiv, len(self.data))):
             if len(self.data) < deriv+1:
                 self.data.append(self.derive(deriv))
             ddata = self.data[deriv]
-- 
2.43.0


From 07ea36cb8f0fa8a21165a5e9a7c890773c4280ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 33/51] fix: adapt_mesh does not take the last triangle for the
 neighbor of border edges

---
 electrode/adaptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 490d8a3..68dfb15 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -143,7 +143,9 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
             print("objective:", c)
         potentials = v[len(fixed):]
         neighbors = args.pop("neighbors")
-        edge_changes = potentials.take(neighbors) - potentials[:, None]
+        # there is no neighbor, and no change, across the outer border (-1)
+        edge_changes = np.where(neighbors < 0, 0.,
+                potentials.take(neighbors) - potentials[:, None])
         refine = np.fabs(edge_changes).max(1) > threshold
         args["triangleareas"] = np.where(refine, areas/down, areas*up)
     return s, v, c
-- 
2.43.0


From a604755aabc3db27e8b947d855bd65d25bceb0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 34/51] fix: adapt_mesh takes the documented boundaries as
 fixed electrodes

---
 electrode/adaptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/adaptive.py b/electrode/adaptive.py
index 68dfb15..924200e 100644
--- a/electrode/adaptive.py
+++ b/electrode/adaptive.py
@@ -134,7 +134,8 @@ def adapt_mesh(constraints, variable, fixed=[], threshold=.5,
         areas = np.empty(n, dtype=np.double)
         centroids = np.empty((n, 2), dtype=np.double)
         paths = args["points"][args["triangles"], :]
-        s = System(fixed)
+        s = System([p if hasattr(p, "potential") else
+            PolygonPixelElectrode(paths=[p], **kwargs) for p in fixed])
         for i, p in enumerate(paths):
             areas[i], centroids[i] = area_centroid(p)
             s.append(PolygonPixelElectrode(paths=symmetry(p), **kwargs))
-- 
2.43.0


From 7593e39bcf46ca7f3f7fe8cfa3aa2e6398c6ed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 35/51] fix: the native scale_matrix and
 arcball_constrain_to_axis agree with the Python ones

Directions were not normalized and the point could be behind the sphere.
---
 electrode/transformations.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 5162867..7c4562d 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -1581,9 +1581,10 @@ py_scale_matrix(
             }
         } else {
             double *d = (double *)PyArray_DATA(direction);
-            double dx = d[0];
-            double dy = d[1];
-            double dz = d[2];
+            double n = sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]);
+            double dx = d[0] / n;
+            double dy = d[1] / n;
+            double dz = d[2] / n;
             factor = 1.0 - factor;
             M[0]  = 1.0 - factor * dx*dx;
             M[5]  = 1.0 - factor * dy*dy;
@@ -3362,6 +3363,8 @@ py_arcball_constrain_to_axis(
         n = sqrt(v[0]*v[0] + v[1]*v[1] + v[2]*v[2]);
 
         if (n > EPSILON) {
+            if (v[2] < 0.0)
+                n = -n;
             v[0] /= n;
             v[1] /= n;
             v[2] /= n;
-- 
2.43.0


From bf49f3bc18657856aafa4cb6c1605b6138d27158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 36/51] fix: import the package without matplotlib

---
 electrode/spherical_harmonics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 69b3639..89998a7 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -1,5 +1,4 @@
 import numpy as np
-import matplotlib.pyplot as plt
 from scipy import special
 
 
@@ -191,6 +190,7 @@ class SphericalHarmonics(object):
 
 
 def test_one_mn():
+    import matplotlib.pyplot as plt
     s = SphericalHarmonics(4)
     s.check_orthogonality()
     s.check_identity()
@@ -209,6 +209,7 @@ def test_one_mn():
 
 
 def test_random():
+    import matplotlib.pyplot as plt
     s = SphericalHarmonics(16)
     a = np.random.randn(2, s.nmax, s.nmax)
     a = a[0] + 1j * a[1]
@@ -224,6 +225,7 @@ def test_random():
 
 
 def test_gaussian():
+    import matplotlib.pyplot as plt
     s = SphericalHarmonics(8)
     #y = np.zeros((s.nmax, 2*s.nmax))
     #y[3, 4] = 1.
@@ -243,4 +245,5 @@ if __name__ == "__main__":
     test_one_mn()
     test_random()
     test_gaussian()
+    import matplotlib.pyplot as plt
     plt.show()
-- 
2.43.0


From b237f7a89f308bf726cf63bc9f1951b5ca4e5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 37/51] fix: geometry works without gdsii

---
 electrode/polygons.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/electrode/polygons.py b/electrode/polygons.py
index e7c66e8..d075507 100644
--- a/electrode/polygons.py
+++ b/electrode/polygons.py
@@ -22,11 +22,17 @@ from __future__ import (absolute_import, print_function,
 
 import logging
 import operator
+import warnings
 
 import numpy as np
 from scipy.interpolate import splprep, splev
 from shapely import geometry, ops
-from gdsii import library, structure, elements
+
+try:
+    from gdsii import library, structure, elements
+except ImportError:
+    warnings.warn("gdsii not found, GDS files will fail", ImportWarning)
+    library = structure = elements = None
 
 from .system import System
 from .electrode import PolygonPixelElectrode
-- 
2.43.0


From 7ec37e92a0ab62f8efdefe94b98e3082a615d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 38/51] fix: the Python potential in the electrode plane agrees
 with the native one (0 instead of nan)

---
 electrode/expressions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/electrode/expressions.py b/electrode/expressions.py
index 5786f0d..ebdf515 100644
--- a/electrode/expressions.py
+++ b/electrode/expressions.py
@@ -121,10 +121,7 @@ def edge_potential_expr(x1, x2, y1, y2, r1, r2, l2, z, a, derivative, d):
     if derivative == 0:
         zs = fabs(z)
         n = a/pi
-        # numpy issue
-        #d[0] += atan2(z*(x1*y2-y1*x2), zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2)))*n
-        d[0] += atan(z*(x1*y2-y1*x2) /
-                (zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2))))*n
+        d[0] += atan2(z*(x1*y2-y1*x2), zs*(r1*r2+x1*x2+y1*y2+zs*(zs+r1+r2)))*n
     elif derivative == 1:
         n = a*(r1+r2)/(r1*r2*((r1+r2)**2-l2))/pi
         d[0] += -(y1-y2)*z*n
-- 
2.43.0


From caec6fc5297dfe723f3c6431d45f49a489be807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 39/51] fix: plot of electrodes imports the matplotlib
 submodules it uses

---
 electrode/electrode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index 4c51312..8d95d36 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -234,6 +234,7 @@ class PointPixelElectrode(SurfaceElectrode):
 
     def plot(self, ax, label=None, color=None, **kw):
         import matplotlib as mpl
+        import matplotlib.collections
         # color="red"?
         p = self.points
         a = (self.areas/np.pi)**.5*2
@@ -286,6 +287,7 @@ class PolygonPixelElectrode(SurfaceElectrode):
 
     def plot(self, ax, label=None, color=None, **kw):
         import matplotlib as mpl
+        import matplotlib.path, matplotlib.patches
         # we already store the right order for interior/exterior
         vertices = np.concatenate([np.r_[p, [p[0]]]  for p in self.paths])
         codes = np.concatenate([np.r_[
-- 
2.43.0


From 8f91c50776c063b79f0337747ea075c1cbf76cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 40/51] fix: SphericalHarmonics phase with negative orders
 (integers to negative powers)

---
 electrode/spherical_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/spherical_harmonics.py b/electrode/spherical_harmonics.py
index 89998a7..9e71f18 100644
--- a/electrode/spherical_harmonics.py
+++ b/electrode/spherical_harmonics.py
@@ -100,7 +100,7 @@ class SphericalHarmonics(object):
         b = (2 * self.n + 1) / (4 * np.pi)
         b *= special.gamma(self.n - np.absolute(self.m) + 1)
         b /= special.gamma(self.n + np.absolute(self.m) + 1)
-        c = (-1) ** np.where(self.m < 0, self.m, 0)
+        c = (-1.) ** np.where(self.m < 0, self.m, 0)
         self.ptmn = np.sqrt(b) * c * ptmn[:, np.absolute(self.m), self.n]
         # prepare weighted and measured ptmn for analysis()
         self.ptmnw = self.ptmn * (self.weight[:, :, None] * np.pi / nmax)
-- 
2.43.0


From ec1d5d36774e958e6921b2ef93f21142887c41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 41/51] fix: Grid.to_xyz and plot_contour for grids that are
 not cubes

---
 electrode/grid.py   | 4 ++--
 electrode/system.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/grid.py b/electrode/grid.py
index 340d88c..02ecd0c 100644
--- a/electrode/grid.py
+++ b/electrode/grid.py
@@ -54,8 +54,8 @@ class Grid():
 
     def to_xyz(self):
         """ Create ndarrays of x, y, z"""
-        xyz = np.array([np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
-                for c, s, h in zip(self.center, self.step, self.shape)])
+        xyz = [np.linspace(c-s*(h-1)/2., c+s*(h-1)/2.,h)
+                for c, s, h in zip(self.center, self.step, self.shape)]
         return xyz
 
     def indices_to_coordinates(self, idx):
diff --git a/electrode/system.py b/electrode/system.py
index 8581e76..dc7069c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -428,7 +428,8 @@ class System(list):
         e3 = slc_at
         sec = {'x':[1,2],'y':[0,2],'z':[0,1]}
         coord = {'x':[2,0,1],'y':[0,2,1],'z':[0,1,2]}
-        xyz = grid.to_xyz()[sec[slc]]    # point arrays of the other two axes
+        xyz = grid.to_xyz()
+        xyz = [xyz[i] for i in sec[slc]]    # point arrays of the other two axes
         axis = coord[slc]
         pot = []
         for e2 in xyz[1]:
-- 
2.43.0


From cfab2b7c773881a3ebdde3a33904a3594ede917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 42/51] fix: the native quaternion_matrix does not change its
 argument

---
 electrode/transformations.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/transformations.c b/electrode/transformations.c
index 7c4562d..6bd00c5 100644
--- a/electrode/transformations.c
+++ b/electrode/transformations.c
@@ -676,7 +676,7 @@ int quaternion_matrix(
     double *matrix)  /* double[16] */
 {
     double *M = matrix;
-    double *q = quat;
+    double q[4] = {quat[0], quat[1], quat[2], quat[3]}; /* not in place */
     double n = sqrt(q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]);
 
     if (n < EPSILON) {
-- 
2.43.0


From 78c3a7640602969ac9123d8e37398a5fc258c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:41 +0000
Subject: [PATCH 43/51] fix: saddle search fails on an exactly known curvature

---
 electrode/saddle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/electrode/saddle.py b/electrode/saddle.py
index 78ed057..55f54b5 100644
--- a/electrode/saddle.py
+++ b/electrode/saddle.py
@@ -86,7 +86,8 @@ def rfo(fun, grad, x0, args=(),
         dh_sr1 = (dp*dp.T)/(dp.T*dx)
         phi = float((dp.T*dx)**2/((dp.T*dp)*(dx.T*dx)))
         dh_bofill = phi*dh_sr1 + (1-phi)*dh_powell
-        dh = dh_bofill
+        # nothing to update where the hessian is exact already
+        dh = dh_bofill if dp.any() else 0.*h
 
         if short == 1. and 2.*np.linalg.norm(dx) <= xtol * (
                 np.linalg.norm(x+dx) + np.linalg.norm(x) + 1e-20):
-- 
2.43.0


From 64555f7672779473ba68ef7ebcf8421c126c03c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 44/51] fix: System.ions sums its hessian in the order
 expand_tensor returns it

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index dc7069c..7b7d3ae 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1117,7 +1117,7 @@ class System(list):
                 (-qs*[2*x**2-y**2-z**2, 3*x*y, 3*x*z,
                     2*y**2-x**2-z**2, 3*y*z]/np.ma.array(
                     x**2+y**2+z**2)**(5/2.)).T)
-            p = p.transpose(2, 0, 3, 1)
+            p = p.transpose(0, 2, 1, 3)
             for i, (p0i, pii) in enumerate(
                     zip(p0.transpose(2, 0, 1), p.sum(2))):
                 p[i, :, i, :] += p0i-pii
-- 
2.43.0


From 1919170c73014cacb4290aab2831c5a5bccddbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:42 +0000
Subject: [PATCH 45/51] fix: report of several ions in units of its potential

---
 electrode/system.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/electrode/system.py b/electrode/system.py
index 7b7d3ae..589435c 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -1057,16 +1057,17 @@ class System(list):
                 ci, semi*q**2/(4*m*ct.h*fi), semi*fi)
         if ions > 1:
             xi = x+np.random.randn(ions)[:, None]*1e-3
-            qi = np.ones(ions)*q/(l*4*np.pi*ct.epsilon_0)**.5
+            qi = np.ones(ions)*(q/(l*4*np.pi*ct.epsilon_0))**.5
             xis, cis, mis = self.ions(xi, qi)
-            freqs_ppi = (cis/l**2/m)**.5/(1e6*np.pi)
+            freqs_ppi = np.sqrt(q*cis/m)/(2*np.pi*l)
             r2 = norm(xis[1]-xis[0])
             r2a = ((q*l)**2/(2*np.pi*ct.epsilon_0*q*curves[0]))**(1/3.)
             yield "two ion modes:"
             yield " separation: %.3g (%.3g µm, %.3g µm harmonic)" % (
                 r2, r2*l/1e-6, r2a/1e-6)
             for ci, fi, mi in zip("abcdef", freqs_ppi, mis.transpose(2, 0, 1)):
-                yield " %s: %.4g MHz, %s/%s" % (ci, fi/1e6, mi)
+                yield " %s: %.4g MHz, %s" % (
+                    ci, fi/1e6, "/".join(map(str, mi)))
 
     def ions(self, x0, q):
         """Find minimum energy positions of an multiple ions and
-- 
2.43.0


From 902a619924ebc2ed753b3bc2d367ad820465ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 46/51] fix: groups without electrodes have zero, not nan
 voltages

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 589435c..d948a6d 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -859,7 +859,7 @@ class System(list):
                 dcs.append(el.dc)
                 rfs.append(el.rf)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs), rf=np.mean(rfs)))
+                dc=np.mean(dcs or 0.), rf=np.mean(rfs or 0.)))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From 8da52d4ad86bfb8cc907705272b7fb49c2ae4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:20 +0000
Subject: [PATCH 47/51] fix: group takes voltages as array_like, as documented

---
 electrode/system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/electrode/system.py b/electrode/system.py
index d948a6d..f3ef8ce 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -842,6 +842,7 @@ class System(list):
         """
         if voltages is None:
             voltages = self.dcs
+        voltages = np.asarray(voltages)
         if thresholds is None:
             thresholds = sorted(np.unique(voltages))
         ts = [-np.inf] + list(thresholds) + [np.inf]
-- 
2.43.0


From b703df3b917780221b1cec75b929301545eac852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 48/51] fix: grouped and mesh electrodes keep the cover of
 their members

---
 electrode/electrode.py | 4 +++-
 electrode/system.py    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/electrode/electrode.py b/electrode/electrode.py
index 8d95d36..913d545 100644
--- a/electrode/electrode.py
+++ b/electrode/electrode.py
@@ -371,8 +371,10 @@ class MeshPixelElectrode(SurfaceElectrode):
         edges = []
         polygons = []
         potentials = []
+        cover = {}
         for p in s:
             assert isinstance(p, PolygonPixelElectrode), p
+            cover = dict(cover_nmax=p.cover_nmax, cover_height=p.cover_height)
             for i in p.paths:
                 ei = len(points)+np.arange(len(i))
                 points.extend(i)
@@ -380,7 +382,7 @@ class MeshPixelElectrode(SurfaceElectrode):
                 polygons.extend(len(potentials)*np.ones(len(ei)))
             potentials.append(p.dc)
         return cls(dc=1, points=points, edges=edges, polygons=polygons,
-                potentials=potentials)
+                potentials=potentials, **cover)
 
     def potential(self, x, derivative=0, potential=1., out=None):
         return mesh_potential(x, self.points, self.edges, self.polygons,
diff --git a/electrode/system.py b/electrode/system.py
index f3ef8ce..11f387e 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -854,13 +854,16 @@ class System(list):
             paths = []
             dcs = []
             rfs = []
+            cover = {}
             for j in np.argwhere(good)[:, 0]:
                 el = self[j]
+                cover = dict(cover_nmax=el.cover_nmax,
+                        cover_height=el.cover_height)
                 paths.extend(el.paths)
                 dcs.append(el.dc)
                 rfs.append(el.rf)
             eles.append(PolygonPixelElectrode(paths=paths,
-                dc=np.mean(dcs or 0.), rf=np.mean(rfs or 0.)))
+                dc=np.mean(dcs or 0.), rf=np.mean(rfs or 0.), **cover))
         return System(eles)
 
     def mathieu(self, x, scale, r=2, sorted=True):
-- 
2.43.0


From 01eedc4d82509fa3414e1f3b360deb79adb561f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 49/51] fix: moves by force go along the requested axis, not
 against it

---
 electrode/adjust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/adjust.py b/electrode/adjust.py
index df88d60..446414a 100644
--- a/electrode/adjust.py
+++ b/electrode/adjust.py
@@ -106,7 +106,7 @@ class Adjust():
 		xm_old = self.xms[-1]	# minimum of last move
 		if method == "force":
 			xm_evaluate = xm_old
-			nonhomo = E_scale*self.basis[axis]
+			nonhomo = -E_scale*self.basis[axis]    # added gradient, moves along +axis like "position"
 		elif method == "position":
 			xm_evaluate = xm_old+dis/l*self.basis[axis]
 			nonhomo = -self.system.potential(x=xm_evaluate,derivative=1)[0]    # system.potential
-- 
2.43.0


From c47ef58b79ef8251892fbe79d8fb204b6e9b36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 50/51] fix: trajectories are accelerated towards lower
 potential

---
 electrode/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/electrode/system.py b/electrode/system.py
index 11f387e..a9792e4 100644
--- a/electrode/system.py
+++ b/electrode/system.py
@@ -651,7 +651,7 @@ class System(list):
         t, p, q = t0, np.array(v0, np.double)[axis], x0[axis]
         def ddx(t, q, f):
             x0[axis] = q
-            f[:] = self.time_potential(x0, 1, t, expand=True)[0, axis]
+            f[:] = -self.time_potential(x0, 1, t, expand=True)[0, axis]
         while t < t1:
             integ(ddx, nsteps, t, p, q, t+dt, *args, **kwargs)
             t += dt
-- 
2.43.0


From 52c21e8a1aaa1d144c40e1f6d2d3ba02d53f4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:26 +0000
Subject: [PATCH 51/51] fix: Mathieu exponents of the determinant and d0ap
 methods for a <= 0

---
 electrode/mathieu.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/electrode/mathieu.py b/electrode/mathieu.py
index 0bf41d4..bbaa8bc 100644
--- a/electrode/mathieu.py
+++ b/electrode/mathieu.py
@@ -22,7 +22,9 @@ class Mathieu():
 
         """
         delta0 = np.zeros((2*ntr+1,2*ntr+1))
-        for n in range(ntr):
+        # times -a in the middle row, where it would be singular for a = 0
+        delta0[ntr,ntr], delta0[ntr,ntr+1], delta0[ntr,ntr-1] = -a, q, q
+        for n in range(1,ntr):
             delta0[n+ntr,n+ntr] = 1.
             delta0[n+ntr,n+ntr+1], delta0[n+ntr,n+ntr-1] = q/(4*n**2-a), q/(4*n**2-a)
             delta0[ntr-n,ntr-n] = 1.
@@ -31,7 +33,7 @@ class Mathieu():
         delta0[0,1], delta0[ntr+ntr,ntr+ntr-1] = q/(4*ntr**2-a), q/(4*ntr**2-a)
         d0 = np.linalg.det(delta0)
         # print(d0)
-        rhs = d0*np.sin(np.pi/2*np.sqrt(a))**2
+        rhs = -d0*np.pi**2/4*np.sinc(np.sqrt(complex(a))/2).real**2
         if rhs < 0 or rhs > 1:
             nu = 2./np.pi*np.arcsinh(np.sqrt(complex(-rhs)))    # In fact, this is mu.
             warnings.warn('Complex characteristic exponent nu: unbounded motion.')
@@ -45,8 +47,9 @@ class Mathieu():
         Fast and precise.
 
         """
-        cosnu = np.cos(np.pi*np.sqrt(a)) \
-            + np.pi*q**2/(4*np.sqrt(a)*(a-1))*np.sin(np.pi*np.sqrt(a)) \
+        sa = np.sqrt(complex(a))    # imaginary for a < 0
+        cosnu = np.cos(np.pi*sa).real \
+            + np.pi**2*q**2/(4*(a-1))*np.sinc(sa).real \
             + q**4*(np.pi**4/96.-25*np.pi**2/256.)
         return np.arccos(cosnu)/np.pi
 
-- 
2.43.0

