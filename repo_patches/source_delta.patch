From f110f62e4b18edac4eed4098c97f8e4f487335ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/51] fix: use beta in the boundary space of Jacobi spaces
 with alpha != beta

---
 shenfun/jacobi/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index a0fc26b..be0e48b 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -113,7 +113,7 @@ class JacobiBase(SpectralBase):
     def get_bc_space(self):
         if self._bc_space:
             return self._bc_space
-        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.alpha)
+        self._bc_space = BCGeneric(self.N, bc=self.bcs, domain=self.domain, alpha=self.alpha, beta=self.beta)
         return self._bc_space
 
 class Orthogonal(JacobiBase):
-- 
2.43.0


From 4df36cfcf3678f67ec3118dc1f25cc045e9cb20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 02/51] fix: Jacobi norms for parameters given as floats

---
 shenfun/jacobi/recursions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d264e18..09fa7d5 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -356,7 +356,9 @@ def gamma(alf, bet, n):
     """
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
-    return sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
+    f = f.subs([(alfa, alf), (beta, bet)])
+    # Sympy cannot simplify rising factorials of inexact numbers
+    return f if f.has(sp.Float) else sp.simplify(f)
 
 def h(alf, bet, n, k, gn=1):
     r"""Return normalization factor :math:`h^{(k)}_n` for inner product of derivatives of Jacobi polynomials
@@ -381,7 +383,10 @@ def h(alf, bet, n, k, gn=1):
         Legendre uses gn=1.
     """
     f = gamma(alf+k, bet+k, n-k)*(psi(alf, bet, n, k))**2
-    return f if gn == 1 else sp.simplify(gn(alf, bet, n)**2*f)
+    if gn == 1:
+        return f
+    f = gn(alf, bet, n)**2*f
+    return f if f.has(sp.Float) else sp.simplify(f)
 
 def matpow(mat, q, alf, bet, i, j, gn=1):
     """Compute and return component of q'th matrix power of mat
-- 
2.43.0


From 9f1a713a2201b2901630057a9c743fd8b8d74690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 03/51] fix: first basis function of the Chebyshev ShenBiPolar
 space

---
 shenfun/chebyshev/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 43dfdb4..b4d6935 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -1950,12 +1950,12 @@ class ShenBiPolar(CompositeBase):
         N = self.N if N is None else N
         k = np.arange(N)
         d = (k + 1) * 3 / 8
-        d[0] = 0.5
         d[1] = 0.5
         d[-4:] = 0
         dm2 = -(k[2:] + 1) / 8
         dm2[-4:] = 0
         dp2 = -(k[:-2] + 1) * 3 / 8
+        dp2[0] = -0.5
         dp2[-2:] = 0
         dp4 = (k[:-4] + 1) / 8
         return SparseMatrix({-2: dm2, 0: d, 2: dp2, 4: dp4}, (N, N))
-- 
2.43.0


From bd55e647e806b99eaa3d0e7cd317c46aff652cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 04/51] fix: default boundary condition of the LowerDirichlet
 spaces is on the lower edge

---
 shenfun/chebyshevu/bases.py     | 2 +-
 shenfun/ultraspherical/bases.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 58eaeaa..0f85450 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -968,7 +968,7 @@ class LowerDirichlet(CompositeBase):
          Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="GU", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="GU", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 603f2f9..2397a25 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -852,7 +852,7 @@ class LowerDirichlet(CompositeBase):
         Map for curvilinear coordinatesystem, and parameters to :class:`~shenfun.coordinates.Coordinates`
 
     """
-    def __init__(self, N, quad="QG", bc=(None, 0), domain=Domain(-1, 1), dtype=float,
+    def __init__(self, N, quad="QG", bc=(0, None), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None,
                  alpha=0, **kw):
         assert quad == "QG"
-- 
2.43.0


From 2e430264e26dc8433a77d081215b140b728a57a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 05/51] fix: fourth and higher derivative and Robin type
 boundary conditions on all domains

---
 shenfun/spectralbase.py        | 10 +++++++++-
 shenfun/utilities/findbasis.py |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index c83fd36..da92540 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -2000,6 +2000,14 @@ class BoundaryConditions(dict):
                     val[bc] /= df**2
                 elif bc == 'N3':
                     val[bc] /= df**3
+                elif bc == 'N4':
+                    val[bc] /= df**4
+                elif bc == 'N5':
+                    val[bc] /= df**5
+                elif bc == 'R':
+                    val[bc] = (v[0]*df, v[1])
+                elif bc == 'W':
+                    val[bc] = (v[0]*df, v[1]/df)
         dict.__init__(self, bcs)
 
     def orderednames(self):
@@ -2018,7 +2026,7 @@ class BoundaryConditions(dict):
         return len(self.orderedvals())
 
     def num_derivatives(self):
-        n = {'D': 0, 'R': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        n = {'D': 0, 'R': 0, 'N': 1, 'W': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         num_diff = 0
         for val in self.values():
             for k in val:
diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index db90923..455dd78 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -39,7 +39,7 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
-    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+    bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
     lr = {'L': 0, 'R': 1}
     lra = {'L': 'left', 'R': 'right'}
     s = []
@@ -95,7 +95,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     def _computematrix(first):
-        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
+        bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
         lr = {'L': 0, 'R': 1}
         lra = {'L': 'left', 'R': 'right'}
         s = []
-- 
2.43.0


From cd110ea1fd44e408a1603d5f3ceb6de267ae87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 06/51] fix: evaluate single basis functions of Gegenbauer type
 spaces with alpha != 0, and their vanishing derivatives

---
 shenfun/jacobi/bases.py         |  4 ++++
 shenfun/ultraspherical/bases.py | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index be0e48b..4038cf6 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -249,6 +249,10 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
         if mode == 'numpy':
+            if i < k:
+                output_array[:] = 0
+                return output_array
+
             dj = np.prod(np.array([i+self.alpha+self.beta+1+j for j in range(k)]))
             output_array[:] = dj/2**k*eval_jacobi(i-k, self.alpha+k, self.beta+k, x)
         else:
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 2397a25..c0c3d77 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -181,7 +181,7 @@ class Orthogonal(JacobiBase):
             output_array = np.zeros(x.shape)
         output_array = eval_jacobi(i, float(self.alpha), float(self.alpha), x, out=output_array)
         if self.alpha != 0:
-            output_array *= cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative(self, x=None, i=0, k=0, output_array=None):
@@ -191,10 +191,14 @@ class Orthogonal(JacobiBase):
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
 
-        dj = np.prod(np.array([i+2*self.alpha+1+j for j in range(k)]))
+        if i < k:
+            output_array[:] = 0
+            return output_array
+
+        dj = float(np.prod(np.array([i+2*self.alpha+1+j for j in range(k)])))
         output_array[:] = dj/2**k*eval_jacobi(i-k, float(self.alpha+k), float(self.alpha+k), x)
         if self.alpha != 0:
-            output_array[:] = output_array*cn(self.alpha, self.alpha, i).n()
+            output_array *= float(cn(self.alpha, self.alpha, i))
         return output_array
 
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
-- 
2.43.0


From eaa22f879a039362808a2c9d95ad43f23f7d00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 07/51] fix: Jacobi spaces with alpha+beta equal to -1, 0 or 1

---
 shenfun/jacobi/bases.py         |  9 +++++---
 shenfun/jacobi/recursions.py    | 41 +++++++++++++++++++++++++--------
 shenfun/ultraspherical/bases.py |  4 ++--
 3 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index 4038cf6..71d8ff7 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -10,7 +10,7 @@ from shenfun.config import config
 from shenfun.spectralbase import SpectralBase, getCompositeBase, getBCGeneric, \
     BoundaryConditions, Domain
 from shenfun.matrixbase import SparseMatrix
-from .recursions import h, n
+from .recursions import h, n, jacobi
 
 xp = sp.Symbol('x', real=True)
 m, n, k = sp.symbols('m,n,k', real=True, integer=True)
@@ -49,7 +49,10 @@ class JacobiBase(SpectralBase):
 
     def l2_norm_sq(self, i=None):
         if i is None:
-            return sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(self.N))
+            hh = np.zeros(self.N)
+            hh[1:] = sp.lambdify(n, h(self.alpha, self.beta, n, 0, gn=self.gn))(np.arange(1, self.N))
+            hh[0] = self.L2_norm_sq(0)
+            return hh
         return h(self.alpha, self.beta, i, 0, gn=self.gn)
 
     @staticmethod
@@ -226,7 +229,7 @@ class Orthogonal(JacobiBase):
         return 'J'
 
     def orthogonal_basis_function(self, i=0, x=xp):
-        return sp.jacobi(i, self.alpha, self.beta, x)
+        return jacobi(i, self.alpha, self.beta, x)
 
     def evaluate_basis(self, x, i=0, output_array=None):
         mode = config['bases']['jacobi']['mode']
diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index 09fa7d5..d1277a0 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -23,6 +23,16 @@ def jt(alf, bet, n):
     n : int
         Index
     """
+    return jacobi(n, alf, bet, x)
+
+def jacobi(n, alf, bet, x):
+    """Jacobi polynomial, as a polynomial also for alf = -bet
+
+    Sympy returns associated Legendre functions for alf = -bet, and it is
+    undefined for the inexact alf = bet = -0.5.
+    """
+    if (alf != bet and alf+bet == 0) or (alf == bet == -0.5 and alf != -half):
+        return sp.jacobi(n, alfa, beta, x).subs([(alfa, alf), (beta, bet)])
     return sp.jacobi(n, alf, bet, x)
 
 def djt(alf, bet, n, k):
@@ -78,7 +88,7 @@ def cn(alf, bet, n):
     ----
     Used by Legendre and Chebyshev polynomials of first kind.
     """
-    return sp.S(1)/sp.jacobi(n, alf, bet, 1)
+    return sp.S(1)/jacobi(n, alf, bet, 1)
 
 def un(alf, bet, n):
     r"""Scaling function
@@ -98,7 +108,7 @@ def un(alf, bet, n):
     ----
     Used by Chebyshev polynomials of second kind
     """
-    return (n+1)/sp.jacobi(n, alf, bet, 1)
+    return (n+1)/jacobi(n, alf, bet, 1)
 
 def qn(alf, bet, n, gn=cn):
     r"""Specialized Jacobi polynomial
@@ -182,7 +192,7 @@ def _a(alf, bet, i, j):
     """
     return (
         sp.S(2)*(j+alf)*(j+bet)/((sp.S(2)*j+alf+bet+1)*(sp.S(2)*j+alf+bet))*delta(i+1, j)-
-        (alf**2-bet**2)/((sp.S(2)*j+alf+bet+sp.S(2))*(sp.S(2)*j+alf+bet))*delta(i, j)+
+        (alf-bet)*(alf+bet)/((sp.S(2)*j+alf+bet+sp.S(2))*(sp.S(2)*j+alf+bet))*delta(i, j)+
         sp.S(2)*(j+1)*(j+alf+bet+sp.S(1))/((sp.S(2)*j+alf+bet+2)*(sp.S(2)*j+alf+bet+sp.S(1)))*delta(i-1, j)
     )
 
@@ -191,7 +201,7 @@ def _b(alf, bet, i, j):
     f = ((sp.S(2)*(i+alf+bet) / ((sp.S(2)*i+alf+bet)*(sp.S(2)*i+alf+bet-sp.S(1)))) *delta(i, j+1)+
          -((sp.S(2)*(i+alf+sp.S(1))*(i+bet+sp.S(1))) / ((sp.S(2)*i+alf+bet+sp.S(3))*(sp.S(2)*i+alf+bet+sp.S(2))*(i+alf+bet+sp.S(1))))*delta(i, j-1))
     if alf != bet:
-        f += ((sp.S(2)*(alf**2-bet**2)) / ((alf+bet)*(sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
+        f += ((sp.S(2)*(alf-bet)) / ((sp.S(2)*i+alf+bet+sp.S(2))*(sp.S(2)*i+alf+bet)))*delta(i, j)
     return f
 
 def _c(alf, bet, i, j):
@@ -354,6 +364,9 @@ def gamma(alf, bet, n):
     n : int
         Index
     """
+    if n == 0:
+        # The general formula is undefined for alf+bet = -1
+        return 2**(sp.S(alf)+bet+1)*sp.gamma(alf+1)*sp.gamma(bet+1)/sp.gamma(sp.S(alf)+bet+2)
     #f = 2**(alfa+beta+1)*sp.gamma(m+alfa+1)*sp.gamma(m+beta+1)/sp.gamma(m+alfa+beta+1)/sp.gamma(m+1)/(2*m+alfa+beta+1)
     f = sp.rf(n+1, alfa)/sp.rf(n+beta+1, alfa) * 2**(alfa+beta+1)/(2*n+alfa+beta+1)
     f = f.subs([(alfa, alf), (beta, bet)])
@@ -456,10 +469,20 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
         pass
 
     d = {}
+    # The recursion coefficients have removable singularities for the first
+    # indices if alf+bet is -1, 0 or 1. The limit is then found by inserting
+    # for the index before inserting for alf and bet.
+    edge = alf+bet in (-1, 0, 1) and not alf == bet == 0
+
+    def value(f, i):
+        g = f.subs(m, i)
+        v = g.subs([(alfa, alf), (beta, bet)])
+        return v if v.is_finite else sp.simplify(g).subs([(alfa, alf), (beta, bet)])
+
     for i in range(-q, q+1):
         f = matpow(mat, q, alfa, beta, m, m+i, gn)
         fz = sp.simplify(f.subs([(alfa, alf), (beta, bet)]))
-        if not fz == 0:
+        if not fz == 0 or (edge and alf != bet):
             fz = sp.lambdify(m, fz)
             if i >= 0:
                 Z = min(N-i, M)
@@ -478,15 +501,15 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                 d[i] = np.zeros(Z)
                 if mat == b and q+i > 0:
                     d[i][:(q+i)] = 0
-                    if alf == -half and bet == -half:
-                        d[i][(q+i):q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(q+i, q)]
+                    if edge:
+                        d[i][(q+i):q] = [value(f, -i+z) for z in np.arange(q+i, q)]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
-                    if alf == -half and bet == -half:
-                        d[i][:q] = [sp.simplify(f.subs(m, -i+z)).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                    if edge:
+                        d[i][:q] = [value(f, -i+z) for z in np.arange(0, q)]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index c0c3d77..ee726f5 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -30,7 +30,7 @@ import sympy as sp
 from scipy.special import eval_jacobi, roots_jacobi #, gamma
 from shenfun.matrixbase import SparseMatrix
 from shenfun.spectralbase import getCompositeBase, getBCGeneric, BoundaryConditions, Domain
-from shenfun.jacobi.recursions import cn, h, alfa
+from shenfun.jacobi.recursions import cn, h, alfa, jacobi
 from shenfun.jacobi import JacobiBase
 
 xp = sp.Symbol('x', real=True)
@@ -160,7 +160,7 @@ class Orthogonal(JacobiBase):
         return sp.KroneckerDelta(i, j)
 
     def orthogonal_basis_function(self, i=0, x=xp):
-        return cn(self.alpha, self.alpha, i)*sp.jacobi(i, self.alpha, self.alpha, x)
+        return cn(self.alpha, self.alpha, i)*jacobi(i, self.alpha, self.alpha, x)
 
     def L2_norm_sq(self, i):
         if i == 0:
-- 
2.43.0


From 12f5e4d6c04c7e8f2ea44fbe71193eda83af4256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 08/51] fix: stencils of Jacobi type spaces with inexact
 parameters

---
 shenfun/utilities/findbasis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index 455dd78..627937a 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -37,6 +37,8 @@ def get_stencil_matrix(bcs, family, alpha=None, beta=None, gn=1):
     """
     from shenfun.spectralbase import BoundaryConditions
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
+    # Sympy cannot simplify the gamma functions of inexact numbers
+    alpha, beta = [p if p is None else sp.nsimplify(p, rational=True) for p in (alpha, beta)]
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     bc = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}
@@ -92,6 +94,8 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
     """
     from shenfun.spectralbase import BoundaryConditions
     base = importlib.import_module('.'.join(('shenfun', family.lower())))
+    # Sympy cannot simplify the gamma functions of inexact numbers
+    alpha, beta = [p if p is None else sp.nsimplify(p, rational=True) for p in (alpha, beta)]
     bnd_values = functools.partial(base.Orthogonal.bnd_values, alpha=alpha, beta=beta, gn=gn)
     bcs = BoundaryConditions(bcs)
     def _computematrix(first):
-- 
2.43.0


From cc06208fe0e87d658cb5b0b7abb2ebd771a4647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 09/51] fix: find boundary basis also when the first functions
 are resonant with Robin conditions

---
 shenfun/utilities/findbasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/utilities/findbasis.py b/shenfun/utilities/findbasis.py
index 627937a..d4d2e9d 100644
--- a/shenfun/utilities/findbasis.py
+++ b/shenfun/utilities/findbasis.py
@@ -120,7 +120,7 @@ def get_bc_basis(bcs, family, alpha=None, beta=None, gn=1):
 
     first_basis = bcs.num_derivatives()
     first = 0
-    for first in range(first_basis+1):
+    for first in range(first_basis+bcs.num_bcs()+1):
         try:
             s = _computematrix(first)
             break
-- 
2.43.0


From 74e67b1928abf3fad3871fa8cac9410cb855dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 10/51] fix: Nyquist mode counted twice, and wrong wavenumbers,
 in TensorProductSpace.eval

'ii > 0 & ii < M' is the chained comparison 'ii > (0 & ii) < M', so the
highest mode of even R2C bases was added twice by methods 0 and 1.
---
 shenfun/optimization/cython/evaluate.pyx | 38 ++++++++++++------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/shenfun/optimization/cython/evaluate.pyx b/shenfun/optimization/cython/evaluate.pyx
index 6ebadce..ae11332 100644
--- a/shenfun/optimization/cython/evaluate.pyx
+++ b/shenfun/optimization/cython/evaluate.pyx
@@ -82,7 +82,7 @@ def _evaluate_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -120,7 +120,7 @@ def _evaluate_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -156,7 +156,7 @@ def _evaluate_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 else:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
 
     return b
@@ -276,7 +276,7 @@ def _evaluate_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                     b[i] += p
                     if r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
 
     return b
@@ -341,7 +341,7 @@ def _evaluate_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -387,7 +387,7 @@ def _evaluate_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -431,7 +431,7 @@ def _evaluate_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     else:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -456,7 +456,7 @@ def _evaluate_3D_rrc1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -481,7 +481,7 @@ def _evaluate_3D_rcr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -506,7 +506,7 @@ def _evaluate_3D_crr1(np.ndarray[real_t, ndim=1] b,
                     #p = P0[i, k]*P1[i, l]*(u[k, l, m].real*p0.real - u[k, l, m].imag*p0.imag)
                     b[i] += p
                     ii = k + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -600,7 +600,7 @@ def _evaluate_lm_2D_cc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -659,7 +659,7 @@ def _evaluate_lm_2D_rc1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -718,7 +718,7 @@ def _evaluate_lm_2D_cr1(np.ndarray[real_t, ndim=1] b,
                     ii = k + start
                 elif r2c == 1:
                     ii = l + start
-                if ii > 0 & ii < M:
+                if ii > 0 and ii < M:
                     b[i] += p
     return b
 
@@ -816,7 +816,7 @@ def _evaluate_lm_3D_ccc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -883,7 +883,7 @@ def _evaluate_lm_3D_rcc1(np.ndarray[real_t, ndim=1] b,
                         ii = l + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -937,8 +937,8 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
         for k in range(u.shape[0]):
             for m in range(u.shape[2]):
                 for i in range(b.shape[0]):
-                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w1[m]*x2[i]))).real
-                    y2 = w0[k]*x0[i] + w1[m]*x2[i]
+                    #p = (u[k, l, m] * P0[i] * exp(1j*(w0[k]*x0[i] + w2[m]*x2[i]))).real
+                    y2 = w0[k]*x0[i] + w2[m]*x2[i]
                     yc = cos(y2)
                     ys = sin(y2)
                     ur = u[k, l, m].real
@@ -949,7 +949,7 @@ def _evaluate_lm_3D_crc1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 2:
                         ii = m + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
 
@@ -1016,6 +1016,6 @@ def _evaluate_lm_3D_ccr1(np.ndarray[real_t, ndim=1] b,
                         ii = k + start
                     elif r2c == 1:
                         ii = l + start
-                    if ii > 0 & ii < M:
+                    if ii > 0 and ii < M:
                         b[i] += p
     return b
-- 
2.43.0


From 3052685efe97c958621c0a516660c23bb3277047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 11/51] fix: eval for complex tensor product spaces with more
 than one non-periodic basis

---
 shenfun/tensorproductspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 8147f99..d90c574 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -688,6 +688,9 @@ class TensorProductSpace(PFFT):
             output_array[:] = 0
         if len(self.get_nonperiodic_axes()) > 1:
             method = 1
+            if np.dtype(self.forward.input_array.dtype).kind == 'c':
+                # Cython versions only for real Functions
+                method = 2
         assert self.dimensions < 4, 'eval not implemented (yet) for higher dimensions'
         if method == 0:
             return self._eval_lm_cython(points, coefficients, output_array)
-- 
2.43.0


From 1db967377e197f70dd66b452864e779a35e6a429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:08 +0000
Subject: [PATCH 12/51] fix: number of mesh points of padded spaces for all
 padding factors

floor(N*(floor(N*f)/N)) may lose a point, leaving arrays of inconsistent shapes.
---
 shenfun/chebyshev/bases.py      |  2 +-
 shenfun/chebyshevu/bases.py     |  2 +-
 shenfun/fourier/bases.py        | 10 +++++-----
 shenfun/gegenbauer/bases.py     |  2 +-
 shenfun/hermite/bases.py        |  2 +-
 shenfun/jacobi/bases.py         |  2 +-
 shenfun/laguerre/bases.py       |  6 +++---
 shenfun/legendre/bases.py       |  2 +-
 shenfun/spectralbase.py         |  6 +++---
 shenfun/tensorproductspace.py   | 14 +++++++-------
 shenfun/ultraspherical/bases.py |  2 +-
 11 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index b4d6935..92f567a 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -182,7 +182,7 @@ class Orthogonal(JacobiBase):
             self._xfftn_fwd = functools.partial(fftw.dctn, type=1)
             self._xfftn_bck = functools.partial(fftw.dctn, type=1)
             self._xfftn_fwd.opts = self._xfftn_bck.opts = config["fftw"]["dct"]
-        self.plan((int(padding_factor * N),), 0, dtype, {})
+        self.plan((self.shape(False),), 0, dtype, {})
 
     # Comment due to curvilinear issues
     # def apply_inverse_mass(self, array):
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 0f85450..39846e4 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -107,7 +107,7 @@ class Orthogonal(JacobiBase):
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
             self._xfftn_bck = functools.partial(fftw.dstn, type=1)
         self._xfftn_fwd.opts = self._xfftn_bck.opts = config['fftw']['dst']
-        self.plan((int(padding_factor*N),), 0, dtype, {})
+        self.plan((self.shape(False),), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d472e31..d6bab6a 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -329,7 +329,7 @@ class R2C(FourierBase):
         self._xfftn_bck.opts = config['fftw']['irfft']
         self._sn = []
         self._sm = []
-        self.plan((int(padding_factor*N),), (0,), float, {})
+        self.plan((self.shape(False),), (0,), float, {})
 
     def wavenumbers(self, bcast=True, scaled=False, eliminate_highest_freq=False):
         k = np.fft.rfftfreq(self.N, 1./self.N).astype(int)
@@ -361,7 +361,7 @@ class R2C(FourierBase):
 
     def _get_truncarray(self, shape, dtype):
         shape = list(shape)
-        shape[self.axis] = int(shape[self.axis] / self.padding_factor)
+        shape[self.axis] = int(np.round(shape[self.axis] / self.padding_factor))
         shape[self.axis] = shape[self.axis]//2 + 1
         return fftw.aligned(shape, dtype=dtype)
 
@@ -375,7 +375,7 @@ class R2C(FourierBase):
     def shape(self, forward_output=True):
         if forward_output:
             return self.N//2+1
-        return int(np.floor(self.padding_factor*self.N))
+        return int(np.round(self.padding_factor*self.N))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind == 'vandermonde':
@@ -516,7 +516,7 @@ class C2C(FourierBase):
         self._xfftn_bck = fftw.ifftn
         self._xfftn_fwd.opts = config['fftw']['fft']
         self._xfftn_bck.opts = config['fftw']['ifft']
-        self.plan((int(padding_factor*N),), (0,), complex, {})
+        self.plan((self.shape(False),), (0,), complex, {})
         self._slp = []
 
     @staticmethod
@@ -558,7 +558,7 @@ class C2C(FourierBase):
     def shape(self, forward_output=True):
         if forward_output:
             return self.N
-        return int(np.floor(self.padding_factor*self.N))
+        return int(np.round(self.padding_factor*self.N))
 
     def count_trailing_zeros(self, u, reltol=1e-12, abstol=1e-15):
         assert u.function_space() == self
diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index 2b8bab9..cb1a7d6 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -106,7 +106,7 @@ class Orthogonal(JacobiBase):
             coordinates=coordinates,
         )
         self.gn = wn
-        self.plan(int(N * padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @property
     def lambda_(self):
diff --git a/shenfun/hermite/bases.py b/shenfun/hermite/bases.py
index 680a00e..a926147 100644
--- a/shenfun/hermite/bases.py
+++ b/shenfun/hermite/bases.py
@@ -53,7 +53,7 @@ class Orthogonal(SpectralBase):
         SpectralBase.__init__(self, N, quad="HG", domain=Domain(-sp.S.Infinity, sp.S.Infinity),
                               dtype=dtype, padding_factor=padding_factor,
                               dealias_direct=dealias_direct, coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/jacobi/bases.py b/shenfun/jacobi/bases.py
index 71d8ff7..7fdc2a0 100644
--- a/shenfun/jacobi/bases.py
+++ b/shenfun/jacobi/bases.py
@@ -161,7 +161,7 @@ class Orthogonal(JacobiBase):
         JacobiBase.__init__(self, N, quad=quad, alpha=alpha, beta=beta, domain=domain, dtype=dtype,
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 9a62e23..440eec2 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -54,7 +54,7 @@ class Orthogonal(SpectralBase):
         SpectralBase.__init__(self, N, quad="LG", domain=Domain(0, sp.S.Infinity), dtype=dtype,
                               padding_factor=padding_factor, dealias_direct=dealias_direct,
                               coordinates=coordinates)
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
@@ -79,7 +79,7 @@ class Orthogonal(SpectralBase):
         return points, weights
 
     def vandermonde(self, x):
-        V = lag.lagvander(x, int(self.N*self.padding_factor)-1)
+        V = lag.lagvander(x, self.shape(False)-1)
         V *= np.exp(-x/2)[:, None]
         return V
 
@@ -126,7 +126,7 @@ class Orthogonal(SpectralBase):
     def evaluate_basis_derivative_all(self, x=None, k=0, argument=0):
         if x is None:
             x = self.mesh(False, False)
-        V = lag.lagvander(x, int(self.N*self.padding_factor)-1)
+        V = lag.lagvander(x, self.shape(False)-1)
         M = V.shape[1]
         if k == 1:
             D = np.zeros((M, M))
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index b3a069a..0ae5635 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -112,7 +112,7 @@ class Orthogonal(JacobiBase):
         JacobiBase.__init__(self, N, quad=quad, alpha=0, beta=0, domain=domain, dtype=dtype,
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
-        self.plan(int(padding_factor*N), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index da92540..3e70f48 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -50,7 +50,7 @@ class SpectralBase:
         self._stencil_matrix = {}
         self.padding_factor = padding_factor
         if padding_factor != 1:
-            self.padding_factor = np.floor(N*padding_factor)/N if N > 0 else 1
+            self.padding_factor = np.floor(N*padding_factor+1e-8)/N if N > 0 else 1
         self.dealias_direct = dealias_direct
         self._mass = None         # Mass matrix (if needed)
         self._dtype = dtype
@@ -487,7 +487,7 @@ class SpectralBase:
             if x is None:
                 x = self.mesh(False, False)
             N = self.N
-            a = self.get_recursion_matrix(int(N*self.padding_factor)+3, int(N*self.padding_factor)+3).diags('dia').data
+            a = self.get_recursion_matrix(int(np.round(N*self.padding_factor))+3, int(np.round(N*self.padding_factor))+3).diags('dia').data
             lib.evaluate_expansion_all(input_array, output_array, x, self.axis, a)
 
     def eval(self, x, u, output_array=None):
@@ -867,7 +867,7 @@ class SpectralBase:
         if forward_output:
             return self.N
         if self.padding_factor != 1:
-            return int(np.floor(self.padding_factor*self.N))
+            return int(np.round(self.padding_factor*self.N))
         return self.N
 
     def domain_factor(self):
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index d90c574..016cdc1 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -494,10 +494,10 @@ class TensorProductSpace(PFFT):
         self.subcomm = pencil.subcomm
         subshape = list(pencil.subshape)
         if isinstance(xfftn, R2C):
-            subshape[axes[-1]] = int(np.floor(xfftn.N*xfftn.padding_factor))
+            subshape[axes[-1]] = int(np.round(xfftn.N*xfftn.padding_factor))
             dtype = np.dtype(dtype.char.lower())
         else:
-            subshape[axes[-1]] = int(np.floor(subshape[axes[-1]]*xfftn.padding_factor))
+            subshape[axes[-1]] = int(np.round(subshape[axes[-1]]*xfftn.padding_factor))
         self.xfftn[-1].plan(subshape, axes, dtype, kw)
         if not (shape[axes[-1]] == self.xfftn[-1].forward.input_array.shape[axes[-1]] and
                 self.xfftn[-1].forward.input_array.dtype == self.xfftn[-1].forward.output_array.dtype):
@@ -511,10 +511,10 @@ class TensorProductSpace(PFFT):
             xfftn = self.bases[axes[-1]]
             subshape = list(pencilB.subshape)
             if isinstance(xfftn, R2C):
-                subshape[axes[-1]] = int(np.floor(xfftn.N*xfftn.padding_factor))
+                subshape[axes[-1]] = int(np.round(xfftn.N*xfftn.padding_factor))
                 dtype = np.dtype(dtype.char.lower())
             else:
-                subshape[axes[-1]] = int(np.floor(subshape[axes[-1]]*xfftn.padding_factor))
+                subshape[axes[-1]] = int(np.round(subshape[axes[-1]]*xfftn.padding_factor))
             xfftn.plan(subshape, axes, dtype, kw)
             self.xfftn.append(xfftn)
             self.transfer.append(transBA)
@@ -1976,7 +1976,7 @@ class BoundaryValues:
                         Yi.append(X[k][this_base.si[j]])
                     f_bci = lbci(*Yi)
                     # Put the value in the position of the bc dofs
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == int(np.round(this_base.N*this_base.padding_factor)):
                         b[this_base.si[-num_bcs+j]] = f_bci
 
                 elif isinstance(bci, Function):
@@ -1998,11 +1998,11 @@ class BoundaryValues:
                     mesh.insert(self.axis, np.ones(len(mesh[0]))*dm)
                     xj = np.vstack(mesh)
                     newb = bci.function_space().eval(xj, bci).reshape(gs)
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == int(np.round(this_base.N*this_base.padding_factor)):
                         b[this_base.si[-num_bcs+j]] = newb[sl]
 
                 elif isinstance(bci, (Number, np.ndarray)):
-                    if s.stop == int(this_base.N*this_base.padding_factor):
+                    if s.stop == int(np.round(this_base.N*this_base.padding_factor)):
                         b[this_base.si[-num_bcs+j]] = bci
 
                 else:
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index ee726f5..0087597 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -91,7 +91,7 @@ class Orthogonal(JacobiBase):
                             padding_factor=padding_factor, dealias_direct=dealias_direct,
                             coordinates=coordinates)
         self.gn = cn
-        self.plan(int(N*padding_factor), 0, dtype, {})
+        self.plan(self.shape(False), 0, dtype, {})
 
     @staticmethod
     def family():
-- 
2.43.0


From 7796123ea69f30f039d07e099b9ace475187ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 13/51] fix: padded fast transforms, and mass matrix of Phi
 bases with GC quadrature, for Chebyshev of second kind

---
 shenfun/chebyshevu/bases.py | 20 +++++++++++---------
 shenfun/matrixbase.py       |  2 ++
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 39846e4..52e8aa6 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -101,7 +101,7 @@ class Orthogonal(JacobiBase):
         if quad == 'GC':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=2)
             self._xfftn_bck = functools.partial(fftw.dstn, type=3)
-            self._sinGC = np.sin((np.arange(N)+0.5)*np.pi/N)
+            self._sinGC = np.sin((np.arange(self.shape(False))+0.5)*np.pi/self.shape(False))
 
         elif quad == 'GU':
             self._xfftn_fwd = functools.partial(fftw.dstn, type=1)
@@ -228,15 +228,16 @@ class Orthogonal(JacobiBase):
             SpectralBase._evaluate_scalar_product(self, kind=kind)
             return
 
+        M = self.shape(False)
         if self.quad == 'GU':
-            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(self.N+1)*(np.arange(1, self.N+1))))
+            self.scalar_product._input_array *= self.broadcast_to_ndims(np.sin(np.pi/(M+1)*(np.arange(1, M+1))))
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*(self.N+1)*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*(M+1)*self.domain_factor()))
 
         elif self.quad == 'GC':
             self.scalar_product._input_array *= self.broadcast_to_ndims(self._sinGC)
             out = self.scalar_product.xfftn()
-            out *= (np.pi/(2*self.N*self.padding_factor*self.domain_factor()))
+            out *= (np.pi/(2*M*self.domain_factor()))
 
     def _evaluate_expansion_all(self, input_array, output_array, x=None, kind='fast'):
         if kind != 'fast':
@@ -247,18 +248,19 @@ class Orthogonal(JacobiBase):
         assert input_array is self.backward.tmp_array
         assert output_array is self.backward.output_array
         output_array = self.backward.xfftn()
+        M = self.shape(False)
 
         if self.quad == "GU":
-            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(self.N)+1)*np.pi/(self.N+1))))
+            output_array *= 1/(2*self.broadcast_to_ndims(np.sin((np.arange(M)+1)*np.pi/(M+1))))
 
         elif self.quad == "GC":
-            s0 = self.sl[slice(self.N-1, self.N)]
-            se = self.sl[slice(0, self.N, 2)]
-            so = self.sl[slice(1, self.N, 2)]
+            s0 = self.sl[slice(M-1, M)]
+            se = self.sl[slice(0, M, 2)]
+            so = self.sl[slice(1, M, 2)]
             output_array *= 0.5
             output_array[se] += input_array[s0]/2
             output_array[so] -= input_array[s0]/2
-            output_array *= 1/(self.broadcast_to_ndims(np.sin((np.arange(self.N)+0.5)*np.pi/self.N)))
+            output_array *= 1/(self.broadcast_to_ndims(self._sinGC))
 
     @property
     def is_orthogonal(self):
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8b504fa..bc37108 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2072,7 +2072,9 @@ def assemble_phi(test, trial, measure=1):
 def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
+    # Matrices need to agree with the quadrature used by the transforms
     assert test[0].quad != 'GL'
+    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
-- 
2.43.0


From 53b828c98101cbf993006782177a459eb3130d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 14/51] fix: mass matrices of padded spaces with Gauss-Lobatto
 (and U with GC) quadrature

---
 shenfun/chebyshev/bases.py    | 4 ++--
 shenfun/chebyshev/matrices.py | 2 +-
 shenfun/chebyshevu/bases.py   | 4 ++--
 shenfun/legendre/bases.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 92f567a..76ade5a 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -272,10 +272,10 @@ class Orthogonal(JacobiBase):
         if i is None:
             f = np.full(self.N, np.pi / 2)
             f[0] *= 2
-            if self.quad == "GL":
+            if self.quad == "GL" and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == 0 or i == self.N - 1 and self.quad == "GL":
+        elif i == 0 or i == self.N - 1 and self.quad == "GL" and not self.is_padded:
             return np.pi
         return np.pi / 2
 
diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 8ac96fd..f7a018f 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -165,7 +165,7 @@ class BTTmat(SpectralMatrix):
         space = self.testfunction[0]
         u *= (2/np.pi*space.domain_factor())
         u[space.si[0]] /= 2
-        if space.quad == 'GL':
+        if space.quad == 'GL' and not space.is_padded:
             u[space.si[-1]] /= 2
         return u
 
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 52e8aa6..cfa69c5 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -181,10 +181,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = np.full(self.N, np.pi/2)
-            if self.quad == 'GC':
+            if self.quad == 'GC' and not self.is_padded:
                 f[-1] *= 2
             return f
-        elif i == self.N-1 and self.quad == 'GC':
+        elif i == self.N-1 and self.quad == 'GC' and not self.is_padded:
             return np.pi
         return np.pi/2
 
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index 0ae5635..58878c0 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -157,10 +157,10 @@ class Orthogonal(JacobiBase):
     def l2_norm_sq(self, i=None):
         if i is None:
             f = 2/(2*np.arange(self.N)+1)
-            if self.quad == 'GL':
+            if self.quad == 'GL' and not self.is_padded:
                 f[-1] = 2/(self.N-1)
             return f
-        elif i == self.N-1 and self.quad == 'GL':
+        elif i == self.N-1 and self.quad == 'GL' and not self.is_padded:
             return 2/(self.N-1)
         return 2/(2*i+1)
 
-- 
2.43.0


From 888e51057da03b4d48ddf74f8819269ac211078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 15/51] fix: matrices of Phi test functions with derivatives or
 other families, and bandwidth of boundary matrices

---
 shenfun/matrixbase.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index bc37108..b91f8f2 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1974,7 +1974,6 @@ def _assemble_stencil_bc(test, trial, measure=1):
     if len(B) == 0:
         return {}
     K = test[0].stencil_matrix()
-    q = sp.degree(measure)
 
     K.shape = (test[0].dim(), test[0].N)
     S = extract_diagonal_matrix(trial[0].stencil_matrix().T).diags('csr')
@@ -1997,7 +1996,9 @@ def _assemble_stencil_bc(test, trial, measure=1):
         A = K.diags('csr') * B.diags('csr') * S
     M = B.shape[1]
     K.shape = (test[0].N, test[0].N)
-    d = extract_diagonal_matrix(A, lowerband=M+q, upperband=M)
+    # All lower diagonals, because the bandwidth depends on both the stencil
+    # and the derivatives of the test function
+    d = extract_diagonal_matrix(A, upperband=M)
     d = d._storage
     return d
 
@@ -2065,6 +2066,11 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
+    # The recursions are for undifferentiated test functions, and the same
+    # family of polynomials for test and trial functions
+    assert test[1] == 0
+    assert test[0].family() == trial[0].family()
+    assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     if trial[0].is_boundary_basis:
         return _assemble_phi_bc(test, trial, measure)
     return _assemble_phi(test, trial, measure)
@@ -2073,8 +2079,9 @@ def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
     from shenfun.utilities import split
     # Matrices need to agree with the quadrature used by the transforms
-    assert test[0].quad != 'GL'
-    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC')
+    # (the quadrature of a padded space is exact)
+    assert test[0].quad != 'GL' or test[0].is_padded
+    assert not (test[0].family() == 'chebyshevu' and test[0].quad == 'GC') or test[0].is_padded
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
-- 
2.43.0


From 106950d94bb7ba8f96cc22bdd74ec27e665af0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 16/51] fix: banded solvers along one axis of more than
 three-dimensional arrays

---
 shenfun/la.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index ad462bf..89bd375 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -257,7 +257,14 @@ class BandedMatrixSolver(SparseMatrixSolver):
         if u is not b:
             sl = u.function_space().slice() if hasattr(u, 'function_space') else slice(None)
             u[sl] = b[sl]
-        self.Solve(u, lu.data, axis)
+        if u.ndim > 3:
+            # The optimized solvers are for up to three dimensions
+            w = np.moveaxis(u, axis, 0)
+            v = np.array(w).reshape((w.shape[0], -1))
+            self.Solve(v, lu.data, 0)
+            w[:] = v.reshape(w.shape)
+        else:
+            self.Solve(u, lu.data, axis)
         return u
 
     @staticmethod
-- 
2.43.0


From 00e94a76bb7db2cbc7c87c3cc350106c18ac4cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 17/51] fix: boundary conditions of named Jacobi bases

---
 shenfun/forms/arguments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index ed16a5b..cfa40fa 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -408,6 +408,8 @@ def FunctionSpace(N, family='Fourier', bc=None, dtype='d', quad=None,
         if basis is not None:
             assert isinstance(basis, str)
             B = getattr(jacobi.bases, basis)
+            if isinstance(bc, tuple):
+                par['bc'] = bc # interpreted by the basis itself
         else:
             B = bases[''.join(key)]
 
-- 
2.43.0


From 6f8796a5d3eab0942d9578a0c8eafceabe3a8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 18/51] fix: diagonals of matrices of basis functions with
 small norms

---
 shenfun/matrixbase.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index b91f8f2..f5bf1e5 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1766,6 +1766,18 @@ def extract_diagonal_matrix(M, lowerband=None, upperband=None, abstol=1e-10, rel
             d[i] = np.array(u, dtype=dtype)
     return SparseMatrix(d, M.shape)
 
+def _get_abstol(scale):
+    """Return tolerance for zero diagonals in :func:`.extract_diagonal_matrix`
+
+    Parameters
+    ----------
+    scale : Number
+        The magnitude of the terms that are summed to get the items of the
+        matrix. Small for matrices of functions with small norms.
+
+    """
+    return 1e-10*min(1, float(scale))
+
 def extract_bc_matrices(mats):
     """Extract boundary matrices from list of ``mats``
 
@@ -1866,9 +1878,11 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
                 return {}
         v = test[0].evaluate_basis_derivative_all(x=x, k=test[1])[:, :K0]
         V = np.dot(np.conj(v.T)*ws[np.newaxis, :], u)
+        scale = np.dot(abs(v.T)*abs(ws)[np.newaxis, :], abs(u)).max(initial=0)
 
     else: # exact or adaptive
 
+        scale = 1
         x = sp.Symbol('x', real=True)
 
         # Exact integration is much more expensive than quadrature and
@@ -1959,7 +1973,7 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             V = V.real.copy()
         elif np.linalg.norm(V.real) / ni > 1e14:
             V = V.real.copy()
-    return extract_diagonal_matrix(V)
+    return extract_diagonal_matrix(V, abstol=_get_abstol(scale))
 
 def assemble_stencil(test, trial, measure=1):
     if trial[0].is_boundary_basis:
@@ -2098,13 +2112,14 @@ def _assemble_phi(test, trial, measure=1):
         Ax = Lmat(k, qi, l, test[0].dim(), trial[0].N, alpha, beta, gn)
         D = D + sc*Ax
     if trial[0].is_orthogonal:
-        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l)
+        d = extract_diagonal_matrix(D, lowerband=q-k+l, upperband=q+k+l, abstol=_get_abstol(abs(D).max()))
     else:
         K = trial[0].stencil_matrix()
         K.shape = (trial[0].dim(), trial[0].N)
         keys = np.sort(np.array(list(K.keys())))
         lb, ub = -keys[0], keys[-1]
-        d = extract_diagonal_matrix(D*K.diags('csr').T, lowerband=q-k+l+ub, upperband=q+k+l+lb)
+        K0 = K.diags('csr').T
+        d = extract_diagonal_matrix(D*K0, lowerband=q-k+l+ub, upperband=q+k+l+lb, abstol=_get_abstol((abs(D)*abs(K0)).max()))
         K.shape = (trial[0].N, trial[0].N)
     d = d._storage
     return d
@@ -2135,7 +2150,8 @@ def _assemble_phi_bc(test, trial, measure=1):
         d = {0: 1}
     else:
         K = trial[0].stencil_matrix()
-        d = extract_diagonal_matrix(D*extract_diagonal_matrix(K).diags('csr').T, lowerband=N+q, upperband=N)
+        K = extract_diagonal_matrix(K).diags('csr').T
+        d = extract_diagonal_matrix(D*K, lowerband=N+q, upperband=N, abstol=_get_abstol((abs(D)*abs(K)).max()))
         d = d._storage
     return d
 
-- 
2.43.0


From ca0fafdf7c2dcae9e49a2e50fe950dd29099e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 19/51] fix: banded solvers for non-contiguous arrays of more
 than three dimensions

---
 shenfun/la.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 89bd375..478731b 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -260,7 +260,7 @@ class BandedMatrixSolver(SparseMatrixSolver):
         if u.ndim > 3:
             # The optimized solvers are for up to three dimensions
             w = np.moveaxis(u, axis, 0)
-            v = np.array(w).reshape((w.shape[0], -1))
+            v = np.array(w, order="C").reshape((w.shape[0], -1))
             self.Solve(v, lu.data, 0)
             w[:] = v.reshape(w.shape)
         else:
-- 
2.43.0


From 71f3539ed493999791476a6bfa1aa3d9e62a978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:15 +0000
Subject: [PATCH 20/51] fix: vandermonde matrix of padded ultraspherical and
 gegenbauer spaces

---
 shenfun/gegenbauer/bases.py     | 2 +-
 shenfun/ultraspherical/bases.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/gegenbauer/bases.py b/shenfun/gegenbauer/bases.py
index cb1a7d6..2c24293 100644
--- a/shenfun/gegenbauer/bases.py
+++ b/shenfun/gegenbauer/bases.py
@@ -150,7 +150,7 @@ class Orthogonal(JacobiBase):
         if self.alpha != 0:
             # V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
             V *= np.array(
-                [wn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)],
+                [wn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])],
                 dtype=V.dtype,
             )[None, :]
         return V
diff --git a/shenfun/ultraspherical/bases.py b/shenfun/ultraspherical/bases.py
index 0087597..413ebf6 100644
--- a/shenfun/ultraspherical/bases.py
+++ b/shenfun/ultraspherical/bases.py
@@ -141,7 +141,7 @@ class Orthogonal(JacobiBase):
         V = self.jacobiQ(x, self.alpha, self.shape(False))
         if self.alpha != 0:
             #V *= sp.lambdify(n, cn(self.alpha, self.alpha, n))(np.arange(self.N))[None, :]
-            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(self.N)], dtype=V.dtype)[None, :]
+            V *= np.array([cn(self.alpha, self.alpha, n).subs(n, i) for i in np.arange(V.shape[1])], dtype=V.dtype)[None, :]
         return V
 
     @property
-- 
2.43.0


From 95d0337eee7f74963886c74b57cc491eca1791ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 21/51] fix: scaling of boundary values on mapped domains for
 Chebyshev U CompactNeumann and Generic

---
 shenfun/chebyshevu/bases.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index cfa69c5..7ac4a21 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -854,7 +854,7 @@ class CompactNeumann(CompositeBase):
     def __init__(self, N, quad="GU", bc=(0, 0), domain=Domain(-1, 1), dtype=float,
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         if isinstance(bc, (tuple, list)):
-            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}})
+            bc = BoundaryConditions({'left': {'N': bc[0]}, 'right': {'N': bc[1]}}, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
@@ -1178,7 +1178,7 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
         self._stencil = get_stencil_matrix(bc, 'chebyshevu', half, half, un)
-        bc = BoundaryConditions(bc)
+        bc = BoundaryConditions(bc, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
-- 
2.43.0


From feeb91bb3a876d9b36afb33d6cf4b121ddb2316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 22/51] fix: do not scale boundary values twice in Chebyshev U
 Generic

---
 shenfun/chebyshevu/bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 7ac4a21..2882102 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -1178,7 +1178,8 @@ class Generic(CompositeBase):
                  padding_factor=1, dealias_direct=False, coordinates=None, **kw):
         from shenfun.utilities.findbasis import get_stencil_matrix
         self._stencil = get_stencil_matrix(bc, 'chebyshevu', half, half, un)
-        bc = BoundaryConditions(bc, domain=domain)
+        if not isinstance(bc, BoundaryConditions):
+            bc = BoundaryConditions(bc, domain=domain)
         CompositeBase.__init__(self, N, quad=quad, domain=domain, dtype=dtype, bc=bc,
                                padding_factor=padding_factor, dealias_direct=dealias_direct,
                                coordinates=coordinates)
-- 
2.43.0


From 17963635c49563a186eedda1438512f15035838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 23/51] fix: recursion matrices of small shapes, inexact
 parameters and cached arrays

---
 shenfun/jacobi/recursions.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index d1277a0..e031cd1 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -468,6 +468,9 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
     except:
         pass
 
+    key = (mat, q, alf, bet, M, N, gn)
+    # Use exact numbers, because inexact cannot be simplified
+    alf, bet = [sp.nsimplify(p, rational=True) for p in (alf, bet)]
     d = {}
     # The recursion coefficients have removable singularities for the first
     # indices if alf+bet is -1, 0 or 1. The limit is then found by inserting
@@ -486,6 +489,8 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
             fz = sp.lambdify(m, fz)
             if i >= 0:
                 Z = min(N-i, M)
+                if Z <= 0:
+                    continue
                 d[i] = np.zeros(Z)
                 if mat == b:
                     d[i][:q] = 0
@@ -494,26 +499,28 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > q+1:
                         d[i][q+1:] = fz(np.arange(q+1, Z))
                 else:
-                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, q)]
+                    d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
                     d[i][q:] = fz(np.arange(q, Z))
             else:
                 Z = min(M-abs(i), N)
+                if Z <= 0:
+                    continue
                 d[i] = np.zeros(Z)
                 if mat == b and q+i > 0:
                     d[i][:(q+i)] = 0
                     if edge:
-                        d[i][(q+i):q] = [value(f, -i+z) for z in np.arange(q+i, q)]
+                        d[i][(q+i):q] = [value(f, -i+z) for z in np.arange(q+i, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][(q+i):] = fz(np.arange(q, Z-i))
 
                 else:
                     if edge:
-                        d[i][:q] = [value(f, -i+z) for z in np.arange(0, q)]
+                        d[i][:q] = [value(f, -i+z) for z in np.arange(0, min(q, Z))]
                         d[i][q:] = fz(np.arange(-i+q, Z-i))
                     else:
                         d[i][:] = fz(np.arange(-i, Z-i))
-    _pmat[(mat, q, alf, bet, M, N, gn)] = d
+    _pmat[key] = deepcopy(d)
     return SparseMatrix(d, (M, N))
 
 _amat = {}
@@ -547,6 +554,9 @@ def a_mat(mat, k, q, alf, bet, M, N, gn=1):
         return SparseMatrix(deepcopy(d), (M, N))
     except:
         pass
+
+    key = (mat, k, q, alf, bet, M, N, gn)
+    alf, bet = [sp.nsimplify(p, rational=True) for p in (alf, bet)]
     d = {}
     for i in range(-q, q+1):
         f = mat(k, q, alfa, beta, m, m+i, gn)
@@ -565,9 +575,10 @@ def a_mat(mat, k, q, alf, bet, M, N, gn=1):
                 Z = min(M-abs(i), N)
                 if Z > 0:
                     d[i] = np.zeros(Z)
-                    d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
+                    if Z > k:
+                        d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
                     d[i][k+1:] = fz(np.arange(-i+k+1, Z-i))
-    _amat[(mat, k, q, alf, bet, M, N, gn)] = d
+    _amat[key] = deepcopy(d)
     return SparseMatrix(d, (M, N))
 
 def ShiftedMatrix(mat, q, r, s, M=0, N=0, k=None, alf=0, bet=0, gn=1):
-- 
2.43.0


From eabbb1697231ec8057b9465c9fbe83d197b8c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:43 +0000
Subject: [PATCH 24/51] fix: assembly of matrices with measures, different
 sizes, adaptive quadrature and opposite signs

---
 shenfun/chebyshev/matrices.py |  4 +--
 shenfun/legendre/matrices.py  | 45 ++++++++++++++----------
 shenfun/matrixbase.py         | 66 +++++++++++++----------------------
 3 files changed, 54 insertions(+), 61 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index f7a018f..efb61af 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -198,8 +198,8 @@ class BTLmat(SpectralMatrix):
         d = {}
         for n in range(0, N, 2):
             d[n] = np.exp(gammaln((n+1)/2)-gammaln((n+2)/2)) * np.exp(gammaln((2*k[:N-n]+n+1)/2) - gammaln((2*k[:N-n]+n+2)/2))
-        if test[0].quad == 'GL':
-            d[0][-1] *= 2
+        if test[0].quad == 'GL' and N >= M:
+            d[0][-1] *= 2 # only the highest Chebyshev polynomial
         return d
 
     def matvec(self, v, c, format=None, axis=0):
diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 1bd97ef..7a7a577 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -90,6 +90,15 @@ xp = sp.symbols('x', real=True, positive=True)
 
 #pylint: disable=unused-variable, redefined-builtin, bad-continuation
 
+def _negative(d):
+    """Return diagonals of matrix with opposite sign, for inner products that
+    have been integrated by parts once.
+
+    Note that the sign is part of the implemented diagonals, because the matrix
+    may as well be assembled by quadrature.
+    """
+    return {key: -val for key, val in d.items()}
+
 class BLLmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
 
@@ -289,7 +298,7 @@ class ASDSDmat(SpectralMatrix):
             d = {0: 4*k+6}
         else:
             d = {0: 1}
-        return d
+        return d if test[1] == trial[1] else _negative(d)
 
 
 class ASNSNmat(SpectralMatrix):
@@ -312,7 +321,7 @@ class ASNSNmat(SpectralMatrix):
         alpha = k*(k+1)/(k+2)/(k+3)
         d0 = 2./(2*k+1)
         d = {0: d0*alpha*(k+0.5)*((k+2)*(k+3)-k*(k+1))}
-        return d
+        return d if test[1] == trial[1] else _negative(d)
 
 
 class ASBSBmat(SpectralMatrix):
@@ -336,7 +345,7 @@ class ASBSBmat(SpectralMatrix):
         d = {0: 2*(2*k+3)*(1+gk),
              2: -2*(2*k[:-2]+3)}
         d[-2] = d[2].copy()
-        return d
+        return d if test[1] == trial[1] else _negative(d)
 
 class ADNDNmat(SpectralMatrix):
     r"""Stiffness matrix :math:`A=(a_{kj}) \in \mathbb{R}^{M \times N}`, where
@@ -356,7 +365,7 @@ class ADNDNmat(SpectralMatrix):
         N = test[0].N
         k = np.arange(N-2, dtype=float)
         d = {0: ((k+1)/(k+2))**2*((k+2)*(k+3)- k*(k+1))}
-        return d
+        return d if test[1] == trial[1] else _negative(d)
 
 
 class SBFBFmat(SpectralMatrix):
@@ -400,16 +409,16 @@ class ALLmat(SpectralMatrix):
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
         M, N = test[0].N, trial[0].N
-        k = np.arange(min(M, N), dtype=float)
         self._keyscale = 1
         def _getkey(i):
             j = abs(i)
-            return self._keyscale*((k[:-j]+0.5)*(k[j:]*(k[j:]+1) - k[:-j]*(k[:-j]+1))*2./(2*k[:-j]+1))
+            k = np.arange(min(M, N-i) if i > 0 else min(M+i, N), dtype=float)
+            return self._keyscale*((k+0.5)*((k+j)*(k+j+1) - k*(k+1))*2./(2*k+1))
 
         if trial[1]:
             d = dict.fromkeys(np.arange(2, N, 2), _getkey)
         else:
-            d = dict.fromkeys(-np.arange(2, N, 2), _getkey)
+            d = dict.fromkeys(-np.arange(2, M, 2), _getkey)
         return d
 
     #def matvec(self, v, c, format='cython', axis=0):
@@ -506,7 +515,7 @@ class CLLmatT(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], L)
         assert isinstance(trial[0], L)
-        N = trial[0].N
+        N = test[0].N
         self._keyscale = 1
         def _getkey(i):
             return 2*self._keyscale
@@ -583,7 +592,7 @@ class CSDSDmat(SpectralMatrix):
             k = np.arange(N-2, dtype=float)
             d[-1] = -2/np.sqrt(4*k[:-1]+6)
             d[1] = 2/np.sqrt(4*k[:-1]+6)
-        return d
+        return d if trial[1] == 1 else _negative(d)
 
 class CSDSDTmat(SpectralMatrix):
     r"""Derivative matrix :math:`C=(c_{kj}) \in \mathbb{R}^{M \times N}`, where
@@ -916,24 +925,24 @@ mat = SpectralMatDict({
     ((L,  0), (SD, 1)): CLSDmat,
     ((SD, 1), (L,  0)): CSDLmat,
     ((SD, 0), (SD, 1)): CSDSDmat,
-    ((SD, 1), (SD, 0)): functools.partial(CSDSDmat, scale=-1.),
+    ((SD, 1), (SD, 0)): functools.partial(CSDSDmat),
     ((SD, 0), (SD, 0)): BSDSDmat,
     ((SB, 0), (SB, 0)): BSBSBmat,
     ((SN, 0), (SN, 0)): BSNSNmat,
     ((SD, 0), (L,  0)): BSDLmat,
     ((L,  0), (SD, 0)): BLSDmat,
     ((SD, 1), (SD, 1)): ASDSDmat,
-    ((SD, 2), (SD, 0)): functools.partial(ASDSDmat, scale=-1.),
-    ((SD, 0), (SD, 2)): functools.partial(ASDSDmat, scale=-1.),
+    ((SD, 2), (SD, 0)): functools.partial(ASDSDmat),
+    ((SD, 0), (SD, 2)): functools.partial(ASDSDmat),
     ((SN, 1), (SN, 1)): ASNSNmat,
-    ((SN, 2), (SN, 0)): functools.partial(ASNSNmat, scale=-1.),
-    ((SN, 0), (SN, 2)): functools.partial(ASNSNmat, scale=-1.),
+    ((SN, 2), (SN, 0)): functools.partial(ASNSNmat),
+    ((SN, 0), (SN, 2)): functools.partial(ASNSNmat),
     ((L,  2), (L,  0)): ALLmat,
     ((L,  0), (L,  2)): ALLmat,
     ((SB, 2), (SB, 2)): SSBSBmat,
     ((SB, 1), (SB, 1)): ASBSBmat,
-    ((SB, 0), (SB, 2)): functools.partial(ASBSBmat, scale=-1.),
-    ((SB, 2), (SB, 0)): functools.partial(ASBSBmat, scale=-1.),
+    ((SB, 0), (SB, 2)): functools.partial(ASBSBmat),
+    ((SB, 2), (SB, 0)): functools.partial(ASBSBmat),
     ((SB, 0), (SB, 4)): SSBSBmat,
     ((SB, 4), (SB, 0)): SSBSBmat,
     ((SD, 0), (SD, 2), 1+x): ASDSD2rp1mat,
@@ -950,8 +959,8 @@ mat = SpectralMatDict({
     ((LD, 0), (LD, 0)): BLDLDmat,
     ((DN, 0), (DN, 0)): BDNDNmat,
     ((DN, 1), (DN, 1)): ADNDNmat,
-    ((DN, 2), (DN, 0)): functools.partial(ADNDNmat, scale=-1.),
-    ((DN, 0), (DN, 2)): functools.partial(ADNDNmat, scale=-1.),
+    ((DN, 2), (DN, 0)): functools.partial(ADNDNmat),
+    ((DN, 0), (DN, 2)): functools.partial(ADNDNmat),
     ((BF, 4), (BF, 0)): SBFBFmat,
     ((BF, 0), (BF, 4)): SBFBFmat,
     ((BF, 2), (BF, 2)): SBFBFmat,
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index f5bf1e5..3f3ff41 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -168,9 +168,12 @@ class SparseMatrix(MutableMapping):
         """
         format = config['matrix']['sparse']['diags'] if format is None else format
         self.sort()
-        self._diags = sp_diags(list(self.values()),
-                               list(self.keys()),
-                               shape=self.shape, format=format)
+        if len(self) == 0: # zero matrix
+            self._diags = sp_diags([0.], [0], shape=self.shape, format=format)
+        else:
+            self._diags = sp_diags(list(self.values()),
+                                   list(self.keys()),
+                                   shape=self.shape, format=format)
         scale = self.scale
         if isinstance(scale, np.ndarray):
             scale = np.atleast_1d(scale).item()
@@ -668,8 +671,11 @@ class SpectralMatrix(SparseMatrix):
                                 kind = 'vandermonde'
                         else:
                             if test[0].is_jacobi and sp.sympify(measure).is_polynomial() and not (test[0].is_orthogonal and trial[0].is_orthogonal):
-                                d = assemble_stencil(test, trial, measure)
-                                _assembly_method += '_stencil'
+                                try:
+                                    d = assemble_stencil(test, trial, measure)
+                                    _assembly_method += '_stencil'
+                                except AssertionError:
+                                    kind = 'vandermonde'
                             else:
                                 kind = 'vandermonde'
 
@@ -1897,11 +1903,11 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
             # Transform integral using x=cos(theta)
             if not measure == 1:
                 if isinstance(measure, sp.Expr):
+                    # Note that measure is here a function of the reference coordinate
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, sp.cos(xm))
+                    measure = measure.subs(x, sp.cos(x))
                 else:
                     assert isinstance(measure, Number)
             assert test[1] == 0
@@ -1930,11 +1936,10 @@ def _get_matrix(test, trial, measure=1, assemble=None, fixed_resolution=None):
         else:
             if not measure == 1:
                 if isinstance(measure, sp.Expr):
+                    # Note that measure is here a function of the reference coordinate
                     s = measure.free_symbols
                     assert len(s) == 1
                     x = s.pop()
-                    xm = test[0].map_true_domain(x)
-                    measure = measure.subs(x, xm)
                 else:
                     assert isinstance(measure, Number)
 
@@ -1984,6 +1989,7 @@ def _assemble_stencil_bc(test, trial, measure=1):
     from shenfun.spectralbase import inner_product
     Tv = test[0].get_orthogonal(domain=(-1, 1))
     Tu = trial[0].get_orthogonal(domain=(-1, 1))
+    assert measure == 1 or test[1] == 0 # See _assemble_stencil
     B = inner_product((Tv, test[1]), (Tu, trial[1]))
     if len(B) == 0:
         return {}
@@ -2023,10 +2029,15 @@ def _assemble_stencil(test, trial, measure=1):
     alpha = test[0].alpha
     beta = test[0].beta
     gn = test[0].gn
+    if measure != 1:
+        # The recursion is for the product of measure and test function, and
+        # as such it is not for the derivatives of the test function.
+        assert test[1] == 0
+        if test[0].N < trial[0].N:
+            Tv = Tv.get_refined(trial[0].N)
     # This needs to be either implemented or quadrature:
     B = inner_product((Tv, test[1]), (Tu, trial[1]))
     K = test[0].stencil_matrix()
-    q = sp.degree(measure)
 
     K.shape = (test[0].dim(), test[0].N)
     S = trial[0].stencil_matrix()
@@ -2034,13 +2045,12 @@ def _assemble_stencil(test, trial, measure=1):
     if measure != 1:
         from shenfun.jacobi.recursions import pmat, a
         from shenfun.utilities import split
-        assert sp.sympify(measure).is_polynomial()
         A = sp.S(0)
         for dv in split(measure, expand=True):
             sc = dv['coeff']
             msi = dv['x']
             qi = sp.degree(msi)
-            Ax = pmat(a, qi, alpha, beta, test[0].N, test[0].N, gn)
+            Ax = pmat(a, qi, alpha, beta, Tv.N, test[0].N, gn)
             A = A + sc*Ax.diags('csr')
         A = K.diags('csr') * A.T * B.diags('csr') * S.diags('csr').T
     else:
@@ -2048,33 +2058,7 @@ def _assemble_stencil(test, trial, measure=1):
 
     K.shape = (test[0].N, test[0].N)
     S.shape = (trial[0].N, trial[0].N)
-    if test[1]+trial[1] == 0 and test[0].family() == trial[0].family():
-        keysK = np.sort(np.array(list(K.keys())))
-        keysS = np.sort(np.array(list(S.keys())))
-        lb = -keysK[0]+keysS[-1]+q
-        ub = keysK[-1]-keysS[0]+q
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
-    else:
-        # compute the sparsity pattern
-        Ac = A.tocsc()
-        ub = Ac.getrow(0).indices
-        ub2 = Ac.getrow(1).indices
-        if len(ub) == 0 and len(ub2) == 0:
-            ub = 0
-        else:
-            ub = trial[0].dim() if len(ub) == 0 else ub.max()
-            ub2 = trial[0].dim() if len(ub2) == 0 else ub2.max()-1
-            ub = max(ub, ub2)
-
-        lb = Ac.getcol(0).indices
-        lb2 = Ac.getcol(1).indices
-        if len(lb) == 0 and len(lb2) == 0:
-            lb = 0
-        else:
-            lb = test[0].dim() if len(lb) == 0 else lb.max()
-            lb2 = test[0].dim() if len(lb2) == 0 else lb2.max()-1
-            lb = max(lb, lb2)
-        d = extract_diagonal_matrix(A, lowerband=lb, upperband=ub)
+    d = extract_diagonal_matrix(A)
     d = d._storage
     return d
 
@@ -2138,7 +2122,7 @@ def _assemble_phi_bc(test, trial, measure=1):
     l = k-trial[1]
     assert l >= 0
     D = sp.S(0)
-    if k <= N:
+    if l > 0 or k < N: # otherwise the derivative of the boundary functions is zero
         for dv in split(measure, expand=True):
             sc = dv['coeff']
             msi = dv['x']
@@ -2147,7 +2131,7 @@ def _assemble_phi_bc(test, trial, measure=1):
             Ax = Lmat(k, qi, l, M, N, alpha, beta, gn)
             D = D + sc*Ax
     if D is sp.S.Zero:
-        d = {0: 1}
+        d = {}
     else:
         K = trial[0].stencil_matrix()
         K = extract_diagonal_matrix(K).diags('csr').T
-- 
2.43.0


From c5902b3db14b6218be6504f487cd54f2981b0e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 25/51] fix: evaluation of numbers, of expressions of real
 Fourier series, on mapped domains and of complex spaces, and repeated padded
 backward transforms

---
 shenfun/forms/arguments.py | 22 ++++++++++++++++------
 shenfun/spectralbase.py    |  1 +
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index cfa40fa..784650e 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -760,9 +760,12 @@ class Expr:
                     xx = np.atleast_1d(test_sp[axis].map_reference_domain(np.squeeze(x[axis])))
                     P = test_sp[axis].evaluate_basis_derivative_all(xx, k=k)
                     if not test_sp[axis].domain_factor() == 1:
-                        P *= test_sp[axis].domain_factor()**(k)
+                        P *= float(test_sp[axis].domain_factor())**k
                     if len(x) > 1:
-                        M.append(P[..., V.local_slice()[axis]])
+                        P = P[..., V.local_slice()[axis]]
+                        if work.dtype.kind == 'c':
+                            P = P.astype(complex)
+                        M.append(P)
 
                     if isinstance(test_sp[axis], R2C) and len(x) > 1:
                         r2c = axis
@@ -776,7 +779,15 @@ class Expr:
                 bv = basis if basis.tensor_rank == 0 else basis[ind[base_j]]
                 work.fill(0)
                 if len(x) == 1:
-                    work = np.dot(P, bv)
+                    if isinstance(test_sp[0], R2C):
+                        # Add the conjugate modes that are not stored
+                        wk = np.full(P.shape[1], 2)
+                        wk[0] = 1
+                        if test_sp[0].N % 2 == 0:
+                            wk[-1] = 1
+                        work = np.dot(P, wk*bv).real
+                    else:
+                        work = np.dot(P, bv)
 
                 elif len(x) == 2:
                     work = cython.evaluate.evaluate_2D(work, bv, M, r2c, last_conj_index, sl)
@@ -1622,9 +1633,8 @@ class Function(ShenfunBaseArray, BasisFunction):
                 # Note that the output_array is not the same shape as
                 # space.backward.output_array for spaces of rank > 0.
                 # Also, it is probably not safe to return space.backward.output_array
-                if hasattr(self, '_backward_work_array'):
-                    output_array = self._backward_work_array
-                else:
+                output_array = getattr(self, '_backward_work_array', None)
+                if output_array is None or output_array.shape != space.shape(False):
                     output_array = Array(space)
                     self._backward_work_array = output_array
             output_array = space.backward(self, output_array, kind=kind, mesh=mesh)
diff --git a/shenfun/spectralbase.py b/shenfun/spectralbase.py
index 3e70f48..8cd0da8 100644
--- a/shenfun/spectralbase.py
+++ b/shenfun/spectralbase.py
@@ -507,6 +507,7 @@ class SpectralBase:
             output_array
 
         """
+        x = np.atleast_1d(x)
         if output_array is None:
             output_array = np.zeros(x.shape, dtype=self.dtype)
         x = self.map_reference_domain(x)
-- 
2.43.0


From 4fc46bb53ef402ba222f1f1948005e0c10c3e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 26/51] fix: refinement of real Fourier functions of odd size,
 and diagonal solves reading past the diagonal

---
 shenfun/forms/arguments.py         | 16 ++++------------
 shenfun/optimization/cython/la.pyx |  4 ++--
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 784650e..2716cb0 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1772,9 +1772,9 @@ class Function(ShenfunBaseArray, BasisFunction):
             return output_array
 
         if isinstance(N, Number):
-            N = (N,)*len(self)
+            N = (N,)*self.function_space().dimensions
         elif isinstance(N, (tuple, list, np.ndarray)):
-            assert len(N) == len(self.function_space())
+            assert len(N) == self.function_space().dimensions
 
         space = self.function_space()
 
@@ -1793,11 +1793,7 @@ class Function(ShenfunBaseArray, BasisFunction):
         axes = [bx for ax in space.axes for bx in ax]
         base = space.bases[axes[0]]
         global_shape = list(self.global_shape) # Global shape in spectral space
-        factor = N[axes[0]]/self.function_space().bases[axes[0]].N
-        if isinstance(base, R2C):
-            global_shape[axes[0]] = int((2*global_shape[axes[0]]-2)*factor)//2+1
-        else:
-            global_shape[axes[0]] = int(global_shape[axes[0]]*factor)
+        global_shape[axes[0]] = N[axes[0]]//2+1 if isinstance(base, R2C) else N[axes[0]]
         c1 = DistArray(global_shape,
                        subcomm=self.pencil.subcomm,
                        dtype=self.dtype,
@@ -1808,14 +1804,10 @@ class Function(ShenfunBaseArray, BasisFunction):
             base._truncation_forward(self, c1)
         for ax in axes[1:]:
             c0 = c1.redistribute(ax)
-            factor = N[ax]/self.function_space().bases[ax].N
 
             # Get a new padded array
             base = space.bases[ax]
-            if isinstance(base, R2C):
-                global_shape[ax] = int(base.N*factor)//2+1
-            else:
-                global_shape[ax] = int(global_shape[ax]*factor)
+            global_shape[ax] = N[ax]//2+1 if isinstance(base, R2C) else N[ax]
             c1 = DistArray(global_shape,
                            subcomm=c0.pencil.subcomm,
                            dtype=c0.dtype,
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index e41c0b0..b5273a3 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -129,7 +129,7 @@ cpdef DiagMA_Solve_2D(np.ndarray[T, ndim=2] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
+        int N = data.shape[1]
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
         DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
@@ -139,7 +139,7 @@ cpdef DiagMA_Solve_3D(np.ndarray[T, ndim=3] u, double[:, ::1] data, int axis):
     cdef:
         int st = u.strides[axis]/u.itemsize
         np.flatiter ita = np.PyArray_IterAllButAxis(u, &axis)
-        int N = u.shape[axis]
+        int N = data.shape[1]
         double* dp = &data[0, 0]
     while np.PyArray_ITER_NOTDONE(ita):
         DiagMA_inner_solve_ptr[T](<T*>np.PyArray_ITER_DATA(ita), st, dp, 0, N)
-- 
2.43.0


From d25785fdae80852f0d48b2309626b75195acc795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 27/51] fix: sign in third derivative of all Laguerre functions

---
 shenfun/laguerre/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/laguerre/bases.py b/shenfun/laguerre/bases.py
index 440eec2..cee03c6 100644
--- a/shenfun/laguerre/bases.py
+++ b/shenfun/laguerre/bases.py
@@ -149,7 +149,7 @@ class Orthogonal(SpectralBase):
             D[:-2, :] -= lag.lagder(np.eye(M), 2)*3/2
             D[:-1, :] += lag.lagder(np.eye(M), 1)*3/4
             W = np.dot(V, D)
-            W += V/8
+            W -= V/8
             V = W*np.exp(-x/2)[:, np.newaxis]
 
         elif k == 4:
-- 
2.43.0


From 113ad894811a1e60f75b7cd2990e885c2c7713a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 28/51] fix: scaled Legendre Dirichlet matrices, and Chebyshev
 matrices of few functions

---
 shenfun/chebyshevu/matrices.py |  4 +--
 shenfun/legendre/matrices.py   | 49 +++++++++++++++++-----------------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/shenfun/chebyshevu/matrices.py b/shenfun/chebyshevu/matrices.py
index 50127cb..aa101ac 100644
--- a/shenfun/chebyshevu/matrices.py
+++ b/shenfun/chebyshevu/matrices.py
@@ -113,7 +113,7 @@ class BP1SDmat(SpectralMatrix):
             B2 = SparseMatrix({0: (k[:-2]+2)}, (N, N)).diags('csr')*B2
         M = B2 * K.diags('csr').T
         K.shape = (N+2, N+2)
-        d = {-2: M.diagonal(-2), 0: M.diagonal(0), 2: M.diagonal(2), 4: M.diagonal(4)}
+        d = {key: M.diagonal(key) for key in (-2, 0, 2, 4) if abs(key) < N}
         return d
 
 class AP1SDmat(SpectralMatrix):
@@ -167,7 +167,7 @@ class BP1SNmat(SpectralMatrix):
             B2 = SparseMatrix({0: (k[:-2]+2)}, (N, N)).diags('csr')*B2
         M = B2 * K.diags('csr').T
         K.shape = (N+2, N+2)
-        d = {-2: M.diagonal(-2), 0: M.diagonal(0), 2: M.diagonal(2), 4: M.diagonal(4)}
+        d = {key: M.diagonal(key) for key in (-2, 0, 2, 4) if abs(key) < N}
         return d
 
 class AP1SNmat(SpectralMatrix):
diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index 7a7a577..ab9fac5 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -99,6 +99,21 @@ def _negative(d):
     """
     return {key: -val for key, val in d.items()}
 
+def _scaled(d, test, trial):
+    """Return diagonals of matrix of ShenDirichlet bases, where the diagonals
+    in ``d`` have been computed without scaling.
+    """
+    if not (test[0].is_scaled() or trial[0].is_scaled()):
+        return d
+    M = test[0].N-2
+    N = trial[0].N-2
+    si = 1/np.sqrt(4*np.arange(M)+6) if test[0].is_scaled() else np.ones(M)
+    sj = 1/np.sqrt(4*np.arange(N)+6) if trial[0].is_scaled() else np.ones(N)
+    for key in d:
+        i = np.arange(max(0, -key), min(M, N-key))
+        d[key] = d[key]*si[i]*sj[i+key]
+    return d
+
 class BLLmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
 
@@ -134,13 +149,8 @@ class BSDSDmat(SpectralMatrix):
         d0 = get_norm_sq(test[0], trial[0], method)
         d = {0: d0[:-2]+d0[2:], -2: -d0[2:-2]}
 
-        if test[0].is_scaled():
-            k = np.arange(test[0].N-2)
-            d[0] /= (4*k+6)
-            d[-2] /= (np.sqrt(4*k[2:]+6)*np.sqrt(4*k[:-2]+6))
-
         d[2] = d[-2].copy()
-        return d
+        return _scaled(d, test, trial)
 
     def get_solver(self):
         return TDMA
@@ -294,10 +304,10 @@ class ASDSDmat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         N = test[0].N
         k = np.arange(N-2, dtype=float)
-        if not test[0].is_scaled():
-            d = {0: 4*k+6}
-        else:
+        if test[0].is_scaled() and trial[0].is_scaled():
             d = {0: 1}
+        else:
+            d = _scaled({0: 4*k+6}, test, trial)
         return d if test[1] == trial[1] else _negative(d)
 
 
@@ -586,12 +596,7 @@ class CSDSDmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SD)
         assert isinstance(trial[0], SD)
-        N = test[0].N
-        d = {-1: -2, 1: 2}
-        if trial[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[-1] = -2/np.sqrt(4*k[:-1]+6)
-            d[1] = 2/np.sqrt(4*k[:-1]+6)
+        d = _scaled({-1: -2, 1: 2}, test, trial)
         return d if trial[1] == 1 else _negative(d)
 
 class CSDSDTmat(SpectralMatrix):
@@ -609,13 +614,7 @@ class CSDSDTmat(SpectralMatrix):
         test, trial = self.testfunction, self.trialfunction
         assert isinstance(test[0], SD)
         assert isinstance(trial[0], SD)
-        N = test[0].N
-        d = {-1: 2, 1: -2}
-        if trial[0].is_scaled():
-            k = np.arange(N-2, dtype=float)
-            d[-1] = 2/np.sqrt(4*k[:-1]+6)
-            d[1] = -2/np.sqrt(4*k[:-1]+6)
-        return d
+        return _scaled({-1: 2, 1: -2}, test, trial)
 
 
 class ASDSDrp1mat(SpectralMatrix):
@@ -636,7 +635,7 @@ class ASDSDrp1mat(SpectralMatrix):
 
         k = np.arange(test[0].N-2)
         d = {0: 4*k+6, 1: 2*k[:-1]+4, -1: 2*k[:-1]+4}
-        return d
+        return _scaled(d, test, trial)
 
 
 class ASDSD2rp1mat(SpectralMatrix):
@@ -656,7 +655,7 @@ class ASDSD2rp1mat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         k = np.arange(test[0].N-2)
         d = {0: -(4*k+6), 1: -(2*k[:-1]+6), -1: -(2*k[:-1]+2)}
-        return d
+        return _scaled(d, test, trial)
 
 
 class ASDSD2Trp1mat(SpectralMatrix):
@@ -676,7 +675,7 @@ class ASDSD2Trp1mat(SpectralMatrix):
         assert isinstance(trial[0], SD)
         k = np.arange(test[0].N-2)
         d = {0: -(4*k+6), -1: -(2*k[:-1]+6), 1: -(2*k[:-1]+2)}
-        return d
+        return _scaled(d, test, trial)
 
 
 class AUDUDrp1mat(SpectralMatrix):
-- 
2.43.0


From aba04de88bc355da11508e2ca545a0bfe47c0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 29/51] fix: operator objects agree with the matrices they
 represent (matvec of small/scaled matrices, copies, block matrix updates)

---
 shenfun/chebyshev/matrices.py           |  63 +++----------
 shenfun/hermite/matrices.py             |  13 +--
 shenfun/legendre/matrices.py            |   5 +-
 shenfun/matrixbase.py                   | 119 +++++++++++++++---------
 shenfun/optimization/numba/helmholtz.py |   2 +-
 5 files changed, 98 insertions(+), 104 deletions(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index efb61af..1b6bb22 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -202,21 +202,6 @@ class BTLmat(SpectralMatrix):
             d[0][-1] *= 2 # only the highest Chebyshev polynomial
         return d
 
-    def matvec(self, v, c, format=None, axis=0):
-        # Roll relevant axis to first
-        c.fill(0)
-        if axis > 0:
-            v = np.moveaxis(v, axis, 0)
-            c = np.moveaxis(c, axis, 0)
-
-        N = self.testfunction[0].N
-        for n in range(0, N, 2):
-            c[:(N-n)] += self.a[n//2]*self.a[n//2:(N-n//2)]*v[n:]
-
-        if axis > 0:
-            c = np.moveaxis(c, 0, axis)
-            v = np.moveaxis(v, 0, axis)
-        return c
 
 class BSDSDmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
@@ -252,8 +237,8 @@ class BSDSDmat(SpectralMatrix):
         format = 'cython' if format is None else format
         N, M = self.shape
         c.fill(0)
-        # Cython implementation only handles square matrix
-        if not M == N:
+        # Cython implementation only handles square matrix with at least four rows
+        if not M == N or M < 4:
             format = 'csr'
 
         d0 = np.array(self[0]).astype(float)
@@ -344,7 +329,7 @@ class BSDSNmat(SpectralMatrix):
         N, M = self.shape
         if not M == N:
             format = 'csr'
-        if format == 'cython' and v.ndim == 3:
+        if format == 'cython' and v.ndim == 3 and N >= 4:
             cython.Matvec.BDN_matvec(v, c, axis, self[-2], self[0], self[2])
             self.scale_array(c, self.scale)
         else:
@@ -403,29 +388,6 @@ class BSNSNmat(SpectralMatrix):
     def get_solver(self):
         return generic_TDMA
 
-    def matvec(self, v, c, format=None, axis=0):
-        # Move axis to first
-        if axis > 0:
-            v = np.moveaxis(v, axis, 0)
-            c = np.moveaxis(c, axis, 0)
-
-        N = self.testfunction[0].N-2
-        k = np.arange(N)
-        d0 = self[0]
-        d2 = self[2]
-        c[0] = d0[0]*v[0] + d2[0]*v[2]
-        c[1] = d0[1]*v[1] + d2[1]*v[3]
-        for k in range(2, N-2):
-            c[k] = d2[k-2]* v[k-2] + d0[k]*v[k] + d2[k]*v[k+2]
-
-        c[N-2] = d2[N-4]*v[N-4] + d0[N-2]*v[N-2]
-        c[N-1] = d2[N-3]*v[N-3] + d0[N-1]*v[N-1]
-        c *= self.scale
-        if axis > 0:
-            v = np.moveaxis(v, 0, axis)
-            c = np.moveaxis(c, 0, axis)
-        return c
-
 
 class BSDTmat(SpectralMatrix):
     r"""Mass matrix :math:`B=(b_{kj}) \in \mathbb{R}^{M \times N}`, where
@@ -525,16 +487,19 @@ class BSBSBmat(SpectralMatrix):
         }
         d[-2] = d[2].copy()
         d[-4] = d[4].copy()
-        return d
+        # Diagonals outside the matrix of a small space
+        return {k: di for k, di in d.items() if abs(k) < len(d[0])}
 
     def get_solver(self):
+        if len(self) < 5: # fewer than five basis functions
+            return super().get_solver()
         return generic_PDMA
 
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
         N, M = self.shape
-        if not M == N:
+        if not M == N or (format == 'self' and N < 5):
             format = 'csr'
 
         if format == 'self':
@@ -554,7 +519,7 @@ class BSBSBmat(SpectralMatrix):
                 c = np.moveaxis(c, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython' and v.ndim == 3:
+        elif format == 'cython' and v.ndim == 3 and N >= 8:
             cython.Matvec.Pentadiagonal_matvec(v, c, axis, self[-4], self[-2], self[0],
                                                self[2], self[4])
             self.scale_array(c, self.scale)
@@ -618,7 +583,7 @@ class BSBSDmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and N >= 4:
             cython.Matvec.BBD_matvec(v, c, axis, self[-2], self[0], self[2], self[4])
             self.scale_array(c, self.scale)
         else:
@@ -981,7 +946,7 @@ class CSDSBmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and M >= 4:
             cython.Matvec.CDB_matvec(v, c, axis, self[-3], self[-1], self[1])
             self.scale_array(c, self.scale)
         else:
@@ -1034,7 +999,7 @@ class ASBSBmat(SpectralMatrix):
                 v = np.moveaxis(v, 0, axis)
             self.scale_array(c, self.scale)
 
-        elif format == 'cython':
+        elif format == 'cython' and N >= 4:
             cython.Matvec.Tridiagonal_matvec(v, c, axis, self[-2], self[0], self[2])
             self.scale_array(c, self.scale)
         else:
@@ -1125,7 +1090,8 @@ class ASNSNmat(SpectralMatrix):
         return ANNSolver
 
     def matvec(self, v, c, format=None, axis=0):
-        if format == 'numba':
+        c.fill(0)
+        if format == 'numba' and v.ndim < 4:
             try:
                 c = numba.helmholtz.ANN_matvec(v, c, self, axis)
                 return c
@@ -1158,7 +1124,6 @@ class ASNSNmat(SpectralMatrix):
             else:
                 s1 += vc[k+2]
                 c[k] += s1*d2[k]
-        c *= self.scale
         if axis > 0:
             v = np.moveaxis(v, 0, axis)
             c = np.moveaxis(c, 0, axis)
diff --git a/shenfun/hermite/matrices.py b/shenfun/hermite/matrices.py
index b11e580..74d38b2 100644
--- a/shenfun/hermite/matrices.py
+++ b/shenfun/hermite/matrices.py
@@ -72,17 +72,8 @@ class AHHmat(SpectralMatrix):
     def matvec(self, v, c, format='cython', axis=0):
         N, M = self.shape
         c.fill(0)
-        if format == 'cython' and v.ndim == 3:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec3D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 2:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec2D_ptr(v, c, ld, self[0], ld, axis)
-            self.scale_array(c, self.scale)
-        elif format == 'cython' and v.ndim == 1:
-            ld = self[-2]*np.ones(M-2)
-            cython.Matvec.Tridiagonal_matvec(v, c, ld, self[0], ld)
+        if format == 'cython':
+            cython.Matvec.Tridiagonal_matvec(v, c, axis, self[-2], self[0], self[2])
             self.scale_array(c, self.scale)
         elif format == 'self':
             if axis > 0:
diff --git a/shenfun/legendre/matrices.py b/shenfun/legendre/matrices.py
index ab9fac5..812a99f 100644
--- a/shenfun/legendre/matrices.py
+++ b/shenfun/legendre/matrices.py
@@ -205,9 +205,12 @@ class BSBSBmat(SpectralMatrix):
         }
         d[-2] = d[2].copy()
         d[-4] = d[4].copy()
-        return d
+        # Diagonals outside the matrix of a small space
+        return {k: di for k, di in d.items() if abs(k) < len(d[0])}
 
     def get_solver(self):
+        if len(self) < 5: # fewer than five basis functions
+            return super().get_solver()
         return PDMA
 
 
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 3f3ff41..c58b04f 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -133,9 +133,8 @@ class SparseMatrix(MutableMapping):
         else:
             diags = self.diags(format=format)
             P = int(np.prod(v.shape[1:]))
-            y = diags.dot(v[:M].reshape(M, P)).squeeze()
-            d = tuple([slice(0, m) for m in y.shape])
-            c[d] = y.reshape(c[d].shape)
+            y = diags.dot(v[:M].reshape(M, P))
+            c[:N] = y.reshape((N,)+v.shape[1:])
 
         if axis > 0:
             c = np.moveaxis(c, 0, axis)
@@ -373,7 +372,9 @@ class SparseMatrix(MutableMapping):
 
     def __deepcopy__(self, memo=None, _nil=[]):
         if self.__class__.__name__ == 'Identity':
-            return Identity(self.shape, self.scale)
+            A = Identity(self.shape, self.scale)
+            A._storage = deepcopy(self._storage)
+            return A
         return SparseMatrix(deepcopy(dict(self)), self.shape, self.scale)
 
     def __neg__(self):
@@ -1012,19 +1013,25 @@ class BlockMatrix:
                 mat = [mat]
             for m in mat:
                 assert isinstance(m, (TPMatrix, SparseMatrix))
+                if isinstance(m, TPMatrix) and len(m.naxes) > 0:
+                    m = m.get_simplified()
                 i, j = m.global_index
                 m0 = self.mats[i][j]
                 if isinstance(m0, int):
                     self.mats[i][j] = [m]
                 else:
                     found = False
-                    for n in m0:
-                        if m == n:
-                            n += m
+                    for k, n in enumerate(m0):
+                        if isinstance(n, TPMatrix) and m == n:
+                            m0[k] = n + m
                             found = True
-                            continue
+                            break
                     if not found:
                         self.mats[i][j].append(m)
+        # Assembled matrices and solvers of the old blocks
+        self._Ai = None
+        self.solver = None
+        return self
 
     def get_mats(self, return_first=False):
         """Return flattened list of matrices in self
@@ -1080,7 +1087,7 @@ class BlockMatrix:
         v = np.expand_dims(v, 0) if nvars == 1 else v
         c.v.fill(0)
         use_scipy = config['matrix']['block']['use_scipy'] if use_scipy is None else use_scipy
-        if self.contains_bc_matrix():
+        if self.contains_bc_matrix() or self._contains_empty_row_or_column():
             use_scipy = False
 
         if use_scipy:
@@ -1088,8 +1095,7 @@ class BlockMatrix:
             daxes = self.testbase.get_diagonal_axes()
             if len(daxes) == self.testbase.dimensions:
                 # Only Fourier
-                assert isinstance(self._Ai, spmatrix)
-                c.flatten()[:] = self._Ai * v.flatten()
+                c[:] = (self._Ai[0] * v.flatten()).reshape(c.shape)
             else:
                 if len(daxes) > 0:
                     daxes += 1
@@ -1125,6 +1131,11 @@ class BlockMatrix:
     def __getitem__(self, ij):
         return self.mats[ij[0]][ij[1]]
 
+    def _contains_empty_row_or_column(self):
+        # Scipy's bmat cannot find the size of a block row, or column, without matrices
+        empty = np.array([[isinstance(mij, Number) for mij in mi] for mi in self.mats])
+        return empty.all(axis=0).any() or empty.all(axis=1).any()
+
     def contains_bc_matrix(self):
         for mi in self.mats:
             for mij in mi:
@@ -1320,7 +1331,7 @@ class TPMatrix:
                  testbase=None, trialbase=None):
         assert isinstance(mats, (list, tuple))
         assert len(mats) == len(testspace)
-        self.mats = mats
+        self.mats = list(mats)
         self.space = testspace
         self.trialspace = trialspace
         self.scale = scale
@@ -1361,12 +1372,7 @@ class TPMatrix:
                     ss[axis] = ls[axis]
             tpmat.scale = (tpmat.scale[tuple(ss)]).copy()
 
-        # If only one non-diagonal matrix, then make a simple link to
-        # this matrix.
-        if len(tpmat.naxes) == 1:
-            tpmat.pmat = tpmat.mats[tpmat.naxes[0]]
-        elif len(tpmat.naxes) == 2: # 2 nondiagonal
-            tpmat.pmat = tpmat.mats
+        tpmat._link_nondiagonal()
         tpmat._issimplified = True
         return tpmat
 
@@ -1399,12 +1405,7 @@ class TPMatrix:
                     ss[axis] = ls[axis]
             self.scale = (self.scale[tuple(ss)]).copy()
 
-        # If only one non-diagonal matrix, then make a simple link to
-        # this matrix.
-        if len(self.naxes) == 1:
-            self.pmat = self.mats[self.naxes[0]]
-        elif len(self.naxes) == 2: # 2 nondiagonal
-            self.pmat = self.mats
+        self._link_nondiagonal()
         self._issimplified = True
 
     def solve(self, b, u=None, constraints=()):
@@ -1438,6 +1439,9 @@ class TPMatrix:
             from shenfun.la import SolverGeneric2ND
             H = SolverGeneric2ND([tpmat])
             u = H(b, u, constraints=constraints)
+
+        else:
+            raise NotImplementedError('solve with more than two non-diagonal axes')
         return u
 
     def matvec(self, v, c, format=None):
@@ -1453,6 +1457,12 @@ class TPMatrix:
             else:
                 c = tpmat.pmat.matvec(v[tpmat.global_index[1]], c, format=format, axis=axis)
             c[:] = c*tpmat.scale
+        elif np.prod([s.Get_size() for s in tpmat.space.forward.output_pencil.subcomm]) == 1:
+            # Several non-periodic directions, not distributed
+            w = v
+            for axis in tpmat.naxes:
+                w = tpmat.mats[axis].matvec(w, np.zeros_like(c), format=format, axis=axis)
+            c[:] = w*tpmat.scale
         elif len(tpmat.naxes) == 2:
             # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
             npaxes = deepcopy(list(tpmat.naxes))
@@ -1484,6 +1494,9 @@ class TPMatrix:
             if newspace:
                 space.destroy()
 
+        else:
+            raise NotImplementedError('distributed matvec with more than two non-diagonal axes')
+
         return c
 
     def get_key(self):
@@ -1508,11 +1521,35 @@ class TPMatrix:
         """Return dimension of TPMatrix"""
         return len(self.mats)
 
+    def _with_scale(self, scale, mats=None):
+        """Return TPMatrix like self, but with the given scale
+
+        Parameters
+        ----------
+        scale : Number or array
+        mats : sequence of matrices, optional
+            Use these matrices instead of self.mats
+        """
+        A = TPMatrix(self.mats if mats is None else mats, self.space,
+                     self.trialspace, scale, self.global_index,
+                     self.testbase, self.trialbase)
+        A._issimplified = self._issimplified
+        if self._issimplified:
+            A._link_nondiagonal()
+        return A
+
+    def _link_nondiagonal(self):
+        # If only one non-diagonal matrix, then make a simple link to
+        # this matrix.
+        if len(self.naxes) == 1:
+            self.pmat = self.mats[self.naxes[0]]
+        elif len(self.naxes) == 2: # 2 nondiagonal
+            self.pmat = self.mats
+
     def __mul__(self, a):
         """Returns copy of self.__mul__(a) <==> self*a"""
         if isinstance(a, Number):
-            return TPMatrix(self.mats, self.space, self.trialspace, self.scale*a,
-                            self.global_index, self.testbase, self.trialbase)
+            return self._with_scale(self.scale*a)
 
         assert isinstance(a, np.ndarray)
         c = np.empty_like(a)
@@ -1529,7 +1566,7 @@ class TPMatrix:
     def __imul__(self, a):
         """Returns self.__imul__(a) <==> self*=a"""
         if isinstance(a, Number):
-            self.scale *= a
+            self.scale = self.scale*a
         elif isinstance(a, np.ndarray):
             self.scale = self.scale*a
         return self
@@ -1537,8 +1574,7 @@ class TPMatrix:
     def __div__(self, a):
         """Returns copy self.__div__(a) <==> self/a"""
         if isinstance(a, Number):
-            return TPMatrix(self.mats, self.space, self.trialspace, self.scale/a,
-                            self.global_index, self.testbase, self.trialbase)
+            return self._with_scale(self.scale/a)
         elif isinstance(a, np.ndarray):
             b = np.zeros_like(a)
             b = self.solve(a, b)
@@ -1546,11 +1582,13 @@ class TPMatrix:
         else:
             raise NotImplementedError
 
+    def __truediv__(self, a):
+        """Returns copy self.__div__(a) <==> self/a"""
+        return self.__div__(a)
+
     def __neg__(self):
         """self.__neg__() <==> -self"""
-        A = self.copy()
-        A.scale = self.scale*-1
-        return A
+        return self._with_scale(self.scale*-1)
 
     def __eq__(self, a):
         """Check if matrices and global_index are the same.
@@ -1576,8 +1614,7 @@ class TPMatrix:
         """Return copy of self.__add__(a) <==> self+a"""
         assert isinstance(a, TPMatrix)
         assert self == a
-        return TPMatrix(self.mats, self.space, self.trialspace, self.scale+a.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._with_scale(self.scale+a.scale)
 
     def __iadd__(self, a):
         """self.__iadd__(a) <==> self += a"""
@@ -1590,8 +1627,7 @@ class TPMatrix:
         """Return copy of self.__sub__(a) <==> self-a"""
         assert isinstance(a, TPMatrix)
         assert self == a
-        return TPMatrix(self.mats, self.space, self.trialspace, self.scale-a.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._with_scale(self.scale-a.scale)
 
     def __isub__(self, a):
         """self.__isub__(a) <==> self -= a"""
@@ -1608,15 +1644,13 @@ class TPMatrix:
         mats = []
         for mat in self.mats:
             mats.append(mat.__copy__())
-        return TPMatrix(mats, self.space, self.trialspace, self.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._with_scale(copy(self.scale), mats)
 
     def __deepcopy__(self, memo=None, _nil=[]):
         mats = []
         for mat in self.mats:
             mats.append(mat.__deepcopy__())
-        return TPMatrix(mats, self.space, self.trialspace, self.scale,
-                        self.global_index, self.testbase, self.trialbase)
+        return self._with_scale(copy(self.scale), mats)
 
     def diags(self, format=None):
         assert self._issimplified is False
@@ -1674,10 +1708,11 @@ def get_simplified_tpmatrices(tpmats):
     B = [A[0]]
     for a in A[1:]:
         found = False
-        for b in B:
+        for k, b in enumerate(B):
             if a == b:
-                b += a
+                B[k] = b + a
                 found = True
+                break
         if not found:
             B.append(a)
     return B
diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index fe007c5..e8c1134 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -460,7 +460,7 @@ def ANN_matvec1D(v, c, d0, d2, scale=1):
             s1 += v[k+2]*(k+2)**2
             c[k] += s1*d2[k]/(k+2)**2
     if scale != 1:
-        c /= scale
+        c *= scale
 
 @nb.jit(nopython=True, fastmath=True, cache=True)
 def ANN_matvec2D(v, b, d0, d2, scale, axis):
-- 
2.43.0


From 0b602625ab2c9ff4ac71db69cc2ad51fb1f74ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:41 +0000
Subject: [PATCH 30/51] fix: tensor product matvec with different test and
 trial shapes

---
 shenfun/matrixbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index c58b04f..b5e3939 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -1461,8 +1461,10 @@ class TPMatrix:
             # Several non-periodic directions, not distributed
             w = v
             for axis in tpmat.naxes:
-                w = tpmat.mats[axis].matvec(w, np.zeros_like(c), format=format, axis=axis)
-            c[:] = w*tpmat.scale
+                shape = w.shape[:axis]+(c.shape[axis],)+w.shape[axis+1:]
+                w = tpmat.mats[axis].matvec(w, np.zeros(shape, dtype=c.dtype), format=format, axis=axis)
+            w = w*tpmat.scale
+            c[tuple([slice(0, n) for n in w.shape])] = w
         elif len(tpmat.naxes) == 2:
             # 2 non-periodic directions (may be non-aligned in second axis, hence transfers)
             npaxes = deepcopy(list(tpmat.naxes))
-- 
2.43.0


From 6a25908a53a9642cbddc0aa6f3cc22db90d29d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 31/51] fix: assembly of scaled Phi test functions

---
 shenfun/matrixbase.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index b5e3939..dda2b6b 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -189,9 +189,11 @@ class SparseMatrix(MutableMapping):
 
     def __delitem__(self, key):
         del self._storage[key]
+        self.solver = None
 
     def __setitem__(self, key, val):
         self._storage[key] = val
+        self.solver = None
 
     def __iter__(self):
         return iter(self._storage)
@@ -435,8 +437,10 @@ class SparseMatrix(MutableMapping):
         Vectors may be one- or multidimensional.
 
         """
-        if self.solver is None:
-            self.solver = self.get_solver()(self)
+        if self.solver is None or self.solver.scale != self.scale:
+            solver = self.get_solver()(self)
+            solver.scale = self.scale
+            self.solver = solver
         u = self.solver(b, u=u, axis=axis, constraints=constraints)
         return u
 
@@ -2101,9 +2105,10 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
-    # The recursions are for undifferentiated test functions, and the same
-    # family of polynomials for test and trial functions
+    # The recursions are for undifferentiated and unscaled test functions, and
+    # the same family of polynomials for test and trial functions
     assert test[1] == 0
+    assert not test[0].is_scaled()
     assert test[0].family() == trial[0].family()
     assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     if trial[0].is_boundary_basis:
-- 
2.43.0


From ca828348b5d0f9976ca201632321c44452bb205d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 32/51] fix: integer overflow in recursion matrices

---
 shenfun/jacobi/recursions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/shenfun/jacobi/recursions.py b/shenfun/jacobi/recursions.py
index e031cd1..adb0486 100644
--- a/shenfun/jacobi/recursions.py
+++ b/shenfun/jacobi/recursions.py
@@ -497,10 +497,10 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > q:
                         d[i][q] = f.subs(m, q).subs([(alfa, alf), (beta, bet)])
                     if len(d[i]) > q+1:
-                        d[i][q+1:] = fz(np.arange(q+1, Z))
+                        d[i][q+1:] = fz(np.arange(q+1, Z, dtype=float))
                 else:
                     d[i][:q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(0, min(q, Z))]
-                    d[i][q:] = fz(np.arange(q, Z))
+                    d[i][q:] = fz(np.arange(q, Z, dtype=float))
             else:
                 Z = min(M-abs(i), N)
                 if Z <= 0:
@@ -510,16 +510,16 @@ def pmat(mat, q, alf, bet, M, N, gn=1):
                     d[i][:(q+i)] = 0
                     if edge:
                         d[i][(q+i):q] = [value(f, -i+z) for z in np.arange(q+i, min(q, Z))]
-                        d[i][q:] = fz(np.arange(-i+q, Z-i))
+                        d[i][q:] = fz(np.arange(-i+q, Z-i, dtype=float))
                     else:
-                        d[i][(q+i):] = fz(np.arange(q, Z-i))
+                        d[i][(q+i):] = fz(np.arange(q, Z-i, dtype=float))
 
                 else:
                     if edge:
                         d[i][:q] = [value(f, -i+z) for z in np.arange(0, min(q, Z))]
-                        d[i][q:] = fz(np.arange(-i+q, Z-i))
+                        d[i][q:] = fz(np.arange(-i+q, Z-i, dtype=float))
                     else:
-                        d[i][:] = fz(np.arange(-i, Z-i))
+                        d[i][:] = fz(np.arange(-i, Z-i, dtype=float))
     _pmat[key] = deepcopy(d)
     return SparseMatrix(d, (M, N))
 
@@ -570,14 +570,14 @@ def a_mat(mat, k, q, alf, bet, M, N, gn=1):
                     if len(d[i]) > k:
                         d[i][k:k+q] = [f.subs(m, z).subs([(alfa, alf), (beta, bet)]) for z in np.arange(k, min(k+q, len(d[i])))]
                     if len(d[i]) > k+q:
-                        d[i][k+q:] = fz(np.arange(k+q, Z))
+                        d[i][k+q:] = fz(np.arange(k+q, Z, dtype=float))
             else:
                 Z = min(M-abs(i), N)
                 if Z > 0:
                     d[i] = np.zeros(Z)
                     if Z > k:
                         d[i][k] = sp.simplify(f.subs(m, -i+k)).subs([(alfa, alf), (beta, bet)])
-                    d[i][k+1:] = fz(np.arange(-i+k+1, Z-i))
+                    d[i][k+1:] = fz(np.arange(-i+k+1, Z-i, dtype=float))
     _amat[key] = deepcopy(d)
     return SparseMatrix(d, (M, N))
 
-- 
2.43.0


From a8f63d904fbbc893f2694729ccf14f7bea026654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 33/51] fix: Legendre-Chebyshev conversions for odd sizes, any
 layout, complex data and optional output

---
 shenfun/legendre/dlt.py                    | 36 +++++++++-------------
 shenfun/optimization/cython/leg2chebm.pyx  |  3 +-
 shenfun/optimization/cython/transforms.pyx | 28 +++++++++++------
 3 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/shenfun/legendre/dlt.py b/shenfun/legendre/dlt.py
index da2d909..0ceb8a9 100644
--- a/shenfun/legendre/dlt.py
+++ b/shenfun/legendre/dlt.py
@@ -396,7 +396,7 @@ def leg2cheb(cl, cc=None, axis=0, transpose=False):
         cl = np.moveaxis(cl, axis, 0)
         cc = np.moveaxis(cc, axis, 0)
     N = cl.shape[0]
-    k = np.arange(N)
+    k = np.arange(N, dtype=float)
     a = Lambda(k)
     sl = [None]*cc.ndim
     ck = np.full(N, np.pi/2); ck[0] = np.pi
@@ -457,7 +457,7 @@ def cheb2leg(cc, cl=None, axis=0):
         cl = np.moveaxis(cl, axis, 0)
         cc = np.moveaxis(cc, axis, 0)
     N = cc.shape[0]
-    k = np.arange(N, dtype=float)
+    k = np.arange(N, dtype=float).reshape((N,)+(1,)*(cc.ndim-1))
     k[0] = 1
     vn = cc*k
     a = 1/(2*Lambda(k)*k*(k+0.5))
@@ -465,7 +465,7 @@ def cheb2leg(cc, cl=None, axis=0):
     a[0] = 2/np.sqrt(np.pi)
     cl[:] = np.sqrt(np.pi)*a*vn
     for n in range(2, N, 2):
-        dn = Lambda(np.array([(n-2)/2]))/n
+        dn = Lambda(np.array([(n-2)/2]))[0]/n
         cl[:(N-n)] -= dn*a[n//2:(N-n//2)]*vn[n:]
     cl *= (k+0.5)
     if axis > 0:
@@ -554,8 +554,9 @@ class Leg2chebHaleTownsend:
             return
 
         self.L = FunctionSpace(self.N, 'L')
-        self.U = FunctionSpace(self.N, 'U', quad='GC')
-        self.T = FunctionSpace(self.N, 'C', quad='GC')
+        dtype = input_array.dtype.char
+        self.U = FunctionSpace(self.N, 'U', quad='GC', dtype=dtype)
+        self.T = FunctionSpace(self.N, 'C', quad='GC', dtype=dtype)
         self.a = self.L.get_recursion_matrix(self.N+3, self.N+3).diags('dia').data
 
         if input_array.ndim > 1:
@@ -1052,8 +1053,7 @@ class FMMLeg2Cheb(FMMLevel):
         """
         self.plan(input_array.shape, input_array.dtype, self.axis, output_array, self.use_direct)
         if input_array.shape[self.axis] <= self.use_direct and input_array.ndim == 1:
-            self._output_array[...] = 0
-            _leg2cheb(input_array, self._output_array, self.a, transpose)
+            leg2cheb(input_array, self._output_array, transpose=transpose)
             if output_array is not None:
                 output_array[...] = self._output_array
                 return output_array
@@ -1063,12 +1063,15 @@ class FMMLeg2Cheb(FMMLevel):
             input_array[self.si[0]] *= 0.5
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect1(input_array, self._output_array, self.axis, self.a, self.N//2, transpose)
+            FMMdirect1(input_array, self._output_array, self.axis, self.a, (self.N+1)//2, transpose)
         else:
             self.apply(input_array, self._output_array, transpose)
         if transpose is False:
             self._output_array *= (2/np.pi)
             self._output_array[self.si[0]] *= 0.5
+        if output_array is not None:
+            output_array[...] = self._output_array
+            return output_array
         return self._output_array
 
     def apply(self, input_array, output_array, transpose):
@@ -1134,8 +1137,8 @@ class FMMCheb2Leg(FMMLevel):
             N = input.shape[axis]
             shape = input.shape
             dtype = input.dtype
-        FMMLevel.__init__(self, N, domains=domains,
-                          diagonals=diagonals, levels=levels, maxs=maxs, l2c=False, use_direct=use_direct)
+        FMMLevel.__init__(self, N, domains=domains, levels=levels, maxs=maxs,
+                          l2c=False, use_direct=use_direct)
         k = np.arange(self.Nn, dtype='d')
         k[0] = 1
         self.dn = Lambda((k[::2]-2)/2)/k[::2]
@@ -1157,8 +1160,7 @@ class FMMCheb2Leg(FMMLevel):
         assert isinstance(input_array, np.ndarray)
         self.plan(input_array.shape, input_array.dtype, self.axis, output_array, self.use_direct)
         if input_array.shape[self.axis] <= self.use_direct and input_array.ndim == 1:
-            self._output_array[...] = 0
-            _cheb2leg(input_array, self._output_array, self.dn, self.a)
+            cheb2leg(input_array, self._output_array)
             if output_array is not None:
                 output_array[...] = self._output_array
                 return output_array
@@ -1172,7 +1174,7 @@ class FMMCheb2Leg(FMMLevel):
 
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array.fill(0)
-            FMMdirect4(w0, self._output_array, self.axis, self.dn[:self.N//2], self.a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self.dn[:(self.N+1)//2], self.a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
 
@@ -1187,14 +1189,6 @@ class FMMCheb2Leg(FMMLevel):
         FMMdirect4(input_array, output_array, self.axis, self.dn[:self.N//2], self.a[:self.N], self.diags)
         FMMdirect3(input_array, output_array, self.axis, self.dn, self.a, 2*self.s, get_number_of_blocks(self.L, self.D), 2*self.diags)
 
-@runtimeoptimizer
-def _cheb2leg(u, v, dn, a):
-    pass
-
-@runtimeoptimizer
-def _leg2cheb(u, v, a, trans):
-    pass
-
 @runtimeoptimizer
 def FMMdirect1(u, v, axis, a, n0, trans):
     N = u.shape[0]
diff --git a/shenfun/optimization/cython/leg2chebm.pyx b/shenfun/optimization/cython/leg2chebm.pyx
index 7fc09f2..fadee5e 100644
--- a/shenfun/optimization/cython/leg2chebm.pyx
+++ b/shenfun/optimization/cython/leg2chebm.pyx
@@ -62,6 +62,7 @@ cdef class FMMLevel:
                 if levels is None:
                     doms = np.cumsum(domains**np.arange(16))
                     levels = np.where((N//2-diagonals)/doms < maxs)[0][0]
+                levels = max(1, levels)
                 self.D = np.full(levels, domains, dtype=int)
 
             else:
@@ -233,7 +234,7 @@ cdef class Cheb2Leg(FMMLevel):
         w0[self.sn1] *= np.arange(1, self.N)[self.s0]
         if input_array.shape[self.axis] <= self.use_direct:
             self._output_array[...] = 0
-            FMMdirect4(w0, self._output_array, self.axis, self._dn[:self.N//2], self._a[:self.N], self.N//2)
+            FMMdirect4(w0, self._output_array, self.axis, self._dn[:(self.N+1)//2], self._a[:self.N], (self.N+1)//2)
         else:
             self.apply(w0, self._output_array)
         self._output_array *= (np.arange(self.N)+0.5)[self.s0]
diff --git a/shenfun/optimization/cython/transforms.pyx b/shenfun/optimization/cython/transforms.pyx
index 15b2e13..e7bbae3 100644
--- a/shenfun/optimization/cython/transforms.pyx
+++ b/shenfun/optimization/cython/transforms.pyx
@@ -541,10 +541,12 @@ cpdef _cheb2leg(T[::1] ui, T[::1] uo, double[::1] dn, double[::1] a):
     cdef DI di = DI(&a[0], &dn[0])
     _cheb2leg_ptr[T](&ui[0], &uo[0], ui.strides[0]/ui.itemsize, ui.shape[0], &di)
 
-cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array, int axis=0):
+cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array=None, int axis=0):
     cdef:
         int N = input_array.shape[axis]
-        int st = input_array.strides[axis]//input_array.itemsize
+        np.ndarray x = np.ascontiguousarray(input_array)
+        np.ndarray y = np.zeros_like(x)
+        int st = x.strides[axis]//x.itemsize
         int Ne = N//2+N%2
         str dtype = input_array.dtype.char
         np.ndarray[double, ndim=1] k = np.arange(N, dtype='d')
@@ -557,31 +559,37 @@ cpdef np.ndarray cheb2leg(np.ndarray input_array, np.ndarray output_array, int a
     dn[:] = _Lambda((k[::2]-2)/2)/k[::2]
     a[:] = 1/(2*_Lambda(k)*k*(k+0.5))
     a[0] = 2/np.sqrt(np.pi)
-    output_array.fill(0)
     if dtype == 'd':
-        IterAllButAxis[double](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[double](_cheb2leg_ptr, np.PyArray_Ravel(x, np.NPY_CORDER), np.PyArray_Ravel(y, np.NPY_CORDER), st, N, axis, shape, shape, &d)
     elif dtype == 'D':
-        IterAllButAxis[complex](_cheb2leg_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[complex](_cheb2leg_ptr, np.PyArray_Ravel(x, np.NPY_CORDER), np.PyArray_Ravel(y, np.NPY_CORDER), st, N, axis, shape, shape, &d)
     else:
         raise NotImplementedError
+    if output_array is None:
+        return y
+    output_array[...] = y
     return output_array
 
-cpdef np.ndarray leg2cheb(np.ndarray input_array, np.ndarray output_array, int axis=0, int transpose=0):
+cpdef np.ndarray leg2cheb(np.ndarray input_array, np.ndarray output_array=None, int axis=0, int transpose=0):
     cdef:
         int N = input_array.shape[axis]
-        int st = input_array.strides[axis]//input_array.itemsize
+        np.ndarray x = np.ascontiguousarray(input_array)
+        np.ndarray y = np.zeros_like(x)
+        int st = x.strides[axis]//x.itemsize
         str dtype = input_array.dtype.char
         np.ndarray[double, ndim=1] a = Lambda(np.arange(N, dtype=np.float64))
         DL d = DL(&a[0], transpose)
         tuple shape = np.shape(input_array)
 
-    output_array.fill(0)
     if dtype == 'd':
-        IterAllButAxis[double](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[double](_leg2cheb_ptr, np.PyArray_Ravel(x, np.NPY_CORDER), np.PyArray_Ravel(y, np.NPY_CORDER), st, N, axis, shape, shape, &d)
     elif dtype == 'D':
-        IterAllButAxis[complex](_leg2cheb_ptr, np.PyArray_Ravel(input_array, np.NPY_CORDER), np.PyArray_Ravel(output_array, np.NPY_CORDER), st, N, axis, shape, shape, &d)
+        IterAllButAxis[complex](_leg2cheb_ptr, np.PyArray_Ravel(x, np.NPY_CORDER), np.PyArray_Ravel(y, np.NPY_CORDER), st, N, axis, shape, shape, &d)
     else:
         raise NotImplementedError
+    if output_array is None:
+        return y
+    output_array[...] = y
     return output_array
 
 @cython.cdivision(True)
-- 
2.43.0


From d9a673ab5aa3f77b4811fb1479b8f0afa0584a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:07 +0000
Subject: [PATCH 34/51] fix: solver constraints, cached factors, small and
 scaled systems, Helmholtz and Biharmonic solvers

---
 shenfun/chebyshev/la.py                  | 54 +++++++++++++++---------
 shenfun/chebyshev/matrices.py            |  8 ++--
 shenfun/la.py                            | 39 +++++++++--------
 shenfun/optimization/cython/la.pyx       |  8 ++--
 shenfun/optimization/numba/biharmonic.py |  2 +
 shenfun/optimization/numba/helmholtz.py  |  4 +-
 shenfun/optimization/numba/threedma.py   |  2 +-
 7 files changed, 69 insertions(+), 48 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 1b18caf..49f45f8 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -45,8 +45,8 @@ class ADDSolver(SparseMatrixSolver):
             se = 0.0
             so = 0.0
         else:
-            se = np.zeros(us.shape[1:])
-            so = np.zeros(us.shape[1:])
+            se = np.zeros(us.shape[1:], dtype=us.dtype)
+            so = np.zeros(us.shape[1:], dtype=us.dtype)
 
         d = A[0]
         d1 = A[2]
@@ -67,7 +67,6 @@ class ADDSolver(SparseMatrixSolver):
             u = np.moveaxis(u, 0, axis)
             if u is not b:
                 b = np.moveaxis(b, 0, axis)
-        u.set_boundary_dofs()
         return u
 
 
@@ -75,7 +74,7 @@ class ANNSolver(SparseMatrixSolver):
 
     def __call__(self, b, u=None, axis=0, constraints=((0, 0),)):
         A = self.mat
-        assert A.shape[0] + 2 == b.shape[0]
+        assert A.shape[0] + 2 == b.shape[axis]
         s = A.trialfunction[0].slice()
 
         if u is None:
@@ -98,9 +97,8 @@ class ANNSolver(SparseMatrixSolver):
             se = 0.0
             so = 0.0
         else:
-            se = np.zeros(u.shape[1:])
-            so = np.zeros(u.shape[1:])
-            j2.repeat(np.prod(bs.shape[1:])).reshape(bs.shape)
+            se = np.zeros(u.shape[1:], dtype=u.dtype)
+            so = np.zeros(u.shape[1:], dtype=u.dtype)
         d = A[0]*j2
         d1 = A[2]*j2[2:]
         M = us.shape
@@ -223,6 +221,7 @@ class Helmholtz:
     def __init__(self, *args):
         if len(args) == 1:
             args = args[0]
+        args = list(args)
         self.bc_mats = []
         if isinstance(args[-1], TPMatrix):
             args = get_simplified_tpmatrices(args)
@@ -243,8 +242,8 @@ class Helmholtz:
             if isinstance(self.A, TPMatrix):
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.alfa = self.alfa*self.A.scale
+                self.beta = self.beta*self.B.scale
         elif len(args) == 4:
             self.alfa = args[2]
             self.beta = args[3]
@@ -300,6 +299,8 @@ class Helmholtz:
         determined on creation of the class.
 
         """
+        if u is None:
+            u = b
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
@@ -328,11 +329,9 @@ class Helmholtz:
         -------
             c : array
         """
-        c[:] = 0
-        if not self.neumann:
-            self.Helmholtz_matvec(v, c, self.alfa, self.beta, self.A, self.B, self.axis)
-        else:
-            self.Helmholtz_Neumann_matvec(v, c, self.alfa, self.beta, self.A, self.B, self.axis)
+        w = np.zeros_like(c)
+        c[:] = self.alfa/self.A.scale*self.A.matvec(v, w, axis=self.axis)
+        c += self.beta/self.B.scale*self.B.matvec(v, w, axis=self.axis)
         if len(self.bc_mats) > 0:
             v.set_boundary_dofs()
             w0 = np.zeros_like(v)
@@ -468,8 +467,9 @@ class Biharmonic:
                 self.S = self.S.pmat
                 self.A = self.A.pmat
                 self.B = self.B.pmat
-                self.alfa *= self.A.scale
-                self.beta *= self.B.scale
+                self.a0 = a0 = a0*self.S.scale
+                self.alfa = self.alfa*self.A.scale
+                self.beta = self.beta*self.B.scale
         elif len(args) == 6:
             self.a0 = a0 = np.atleast_1d(args[3]).item()
             self.alfa = alfa = args[4]
@@ -479,10 +479,17 @@ class Biharmonic:
         self.axis = S.axis
         T = S.tensorproductspace
         if T is None:
-            shape = [S[0].shape]
+            shape = [1]
         else:
             shape = list(T.shape(True))
-        sii, siu, siuu = S[0], S[2], S[4]
+            shape[S.axis] = 1
+        self.alfa = alfa = np.broadcast_to(np.atleast_1d(self.alfa).astype(float), shape).copy()
+        self.beta = beta = np.broadcast_to(np.atleast_1d(self.beta).astype(float), shape).copy()
+        assert S.shape[0] >= 10, 'Biharmonic requires at least 10 basis functions'
+        # The solver uses the unscaled SSBSBmat of the reference domain
+        fac = S[0][0]/(64*np.pi)
+        self.a0 = a0 = a0*fac
+        self.sdiags = sii, siu, siuu = S[0]/fac, S[2]/fac, S[4]/fac
         ail, aii, aiu = A[-2], A[0], A[2]
         bill, bil, bii, biu, biuu = B[-4], B[-2], B[0], B[2], B[4]
         M = sii[::2].shape[0]
@@ -539,6 +546,8 @@ class Biharmonic:
         determined on creation of the class.
 
         """
+        if u is None:
+            u = b
         if len(self.bc_mats) > 0:
             u.set_boundary_dofs()
             w0 = np.zeros_like(u)
@@ -551,8 +560,13 @@ class Biharmonic:
 
     def matvec(self, v, c):
         c[:] = 0
-        self.Biharmonic_matvec(v, c, self.a0, self.alfa, self.beta, self.S[0],
-                               self.S[2], self.S[4], self.A[-2], self.A[0],
+        self.Biharmonic_matvec(v, c, self.a0, self.alfa, self.beta, *self.sdiags,
+                               self.A[-2], self.A[0],
                                self.A[2], self.B[-4], self.B[-2], self.B[0],
                                self.B[2], self.B[4], self.axis)
+        if len(self.bc_mats) > 0:
+            v.set_boundary_dofs()
+            w0 = np.zeros_like(v)
+            for bc_mat in self.bc_mats:
+                c += bc_mat.matvec(v, w0)
         return c
diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 1b6bb22..5d724c7 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -162,11 +162,9 @@ class BTTmat(SpectralMatrix):
             u = b
         else:
             u[:] = b
-        space = self.testfunction[0]
-        u *= (2/np.pi*space.domain_factor())
-        u[space.si[0]] /= 2
-        if space.quad == 'GL' and not space.is_padded:
-            u[space.si[-1]] /= 2
+        s = [np.newaxis]*u.ndim # broadcasting
+        s[axis] = slice(None)
+        u /= (self.scale*self[0])[tuple(s)]
         return u
 
 class BTLmat(SpectralMatrix):
diff --git a/shenfun/la.py b/shenfun/la.py
index 478731b..00df937 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -89,9 +89,7 @@ class SparseMatrixSolver:
         # Only apply constraint to matrix first time around
 
         if len(constraints) > 0:
-            if b.ndim > 1:
-                T = b.function_space().bases[axis]
-
+            s = [slice(None)]*b.ndim
             A = self.mat
             if isinstance(A, spmatrix):
                 for (row, val) in constraints:
@@ -100,14 +98,14 @@ class SparseMatrixSolver:
                         _, zerorow = A[row].nonzero()
                         A[(row, zerorow)] = 0
                         A[row, row] = 1
-                        self.mat = A.tocsc()
+                        self.mat = A = A.tocsc()
 
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+                    s[axis] = row
+                    b[tuple(s)] = val
 
             elif isinstance(A, SparseMatrix):
+                if self._lu is None: # leave the original matrix unmodified
+                    A = self.mat = SparseMatrix(dict(A), A.shape, scale=A.scale)
                 for (row, val) in constraints:
                     if self._lu is None:
                         for key, vals in A.items():
@@ -119,13 +117,11 @@ class SparseMatrixSolver:
                             elif key < 0:
                                 M = A.shape[0]+key
                                 v = np.broadcast_to(np.atleast_1d(vals), M).copy()
-                                if row+key < M and row+key > 0:
+                                if row+key < M and row+key >= 0:
                                     v[row+key] = 0
                             A[key] = v
-                    if b.ndim > 1:
-                        b[T.si[row]] = val
-                    else:
-                        b[row] = val
+                    s[axis] = row
+                    b[tuple(s)] = val
         return b
 
     def perform_lu(self):
@@ -133,7 +129,7 @@ class SparseMatrixSolver:
             if isinstance(self.mat, SparseMatrix):
                 self.mat = self.mat.diags('csc')
             self.mat.eliminate_zeros()
-            if self.mat.nnz < 2:
+            if self.mat.nnz < min(2, self.mat.shape[0]):
                 self._lu = None
                 return self._lu
             self._lu = splu(self.mat, permc_spec=config['matrix']['sparse']['permc_spec'])
@@ -414,6 +410,17 @@ class TDMA_O(BandedMatrixSolver):
     def __init__(self, mats):
         BandedMatrixSolver.__init__(self, mats)
 
+    def apply_constraints(self, b, constraints, axis=0):
+        if len(constraints) > 0:
+            assert len(constraints) == 1
+            assert constraints[0][0] == 0, 'Can only fix first row of TDMA_O'
+            self._lu.diagonal(0)[0] = 1
+            self._lu.diagonal(1)[0] = 0
+            s = [slice(None)]*len(b.shape)
+            s[axis] = 0
+            b[tuple(s)] = constraints[0][1]
+        return b
+
     def perform_lu(self):
         if self._inner_arg is None:
             self.LU(self._lu.data)
@@ -481,7 +488,6 @@ class PDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
@@ -697,7 +703,7 @@ class ThreeDMA(BandedMatrixSolver):
     def inner_solve(u, data):
         d = data[0, :]
         u1 = data[1, 2:]
-        u2 = data[1, 4:]
+        u2 = data[2, 4:]
         n = d.shape[0]
         u[n-1] = u[n-1]/d[n-1]
         u[n-2] = u[n-2]/d[n-2]
@@ -744,7 +750,6 @@ class HeptaDMA(BandedMatrixSolver):
                 b[tuple(s)] = constraints[0][1]
             else:
                 b[0] = constraints[0][1]
-            self._inner_arg = self._lu.data
         return b
 
     @staticmethod
diff --git a/shenfun/optimization/cython/la.pyx b/shenfun/optimization/cython/la.pyx
index b5273a3..d22acc0 100644
--- a/shenfun/optimization/cython/la.pyx
+++ b/shenfun/optimization/cython/la.pyx
@@ -571,7 +571,7 @@ cdef void ThreeDMA_inner_solve_ptr(T* u, int st, double* data, int m0, int m1):
         int i, n = m1
         double* d = &data[0]
         double* u1 = &data[m1+2]
-        double* u2 = &data[m1+4]
+        double* u2 = &data[m1*2+4]
     u[(n-1)*st] = u[(n-1)*st]/d[n-1]
     u[(n-2)*st] = u[(n-2)*st]/d[n-2]
     u[(n-3)*st] = (u[(n-3)*st]-u1[n-3]*u[(n-1)*st])/d[n-3]
@@ -708,7 +708,7 @@ cdef void Poisson_Solve_ADD_1D_ptr(double* d,
 def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     n = d0.ndim
     if n == 1:
-        LU_Helmholtz_1D(A, B, A_s, B_s, neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A, B, A_s.item(), B_s.item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A, B, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
@@ -976,7 +976,7 @@ def LU_Biharmonic(a0, alfa, beta, sii, siu, siuu, ail, aii, aiu,
                   bill, bil, bii, biu, biuu, u0, u1,
                   u2, l0, l1, axis):
     if l1.ndim == 2:
-        LU_Biharmonic_1D(a0, alfa, beta, sii, siu, siuu, ail, aii, aiu,
+        LU_Biharmonic_1D(a0, alfa.item(), beta.item(), sii, siu, siuu, ail, aii, aiu,
                          bill, bil, bii, biu, biuu, u0, u1,
                          u2, l0, l1)
     elif l1.ndim == 3:
@@ -1303,6 +1303,8 @@ def Solve_oe_Biharmonic_1D(bint odd,
 
     M = u0.shape[0]
     ForwardBsolve_L(y, l0, l1, fk)
+    if u0[M-1] == 0: # fewer odd than even basis functions
+        M -= 1
 
     # Solve Backward U u = y
     BackBsolve_U(M, odd, y, uk, u0, u1, u2, l0, l1, a, b, ac)
diff --git a/shenfun/optimization/numba/biharmonic.py b/shenfun/optimization/numba/biharmonic.py
index 9fec816..4718b5d 100644
--- a/shenfun/optimization/numba/biharmonic.py
+++ b/shenfun/optimization/numba/biharmonic.py
@@ -282,6 +282,8 @@ def Solve_oe_Biharmonic_1D(odd, fk, uk, u0, u1, u2, l0, l1, a, b, ac):
     y = np.zeros(u0.shape[0], dtype=fk.dtype)
     M = u0.shape[0]
     ForwardBsolve_L(y, l0, l1, fk)
+    if u0[M-1] == 0: # fewer odd than even basis functions
+        M -= 1
 
     # Solve Backward U u = y
     BackBsolve_U(M, odd, y, uk, u0, u1, u2, l0, l1, a, b, ac)
diff --git a/shenfun/optimization/numba/helmholtz.py b/shenfun/optimization/numba/helmholtz.py
index e8c1134..385f144 100644
--- a/shenfun/optimization/numba/helmholtz.py
+++ b/shenfun/optimization/numba/helmholtz.py
@@ -13,7 +13,7 @@ def LU_Helmholtz(A, B, A_s, B_s, neumann, d0, d1, d2, L, axis):
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B, neumann)
 
     if n == 1:
-        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, np.asscalar(A_s), np.asscalar(B_s), neumann, d0, d1, d2, L)
+        LU_Helmholtz_1D(A_0, A_2, A_4, B_m2, B_0, B_2, A_s.item(), B_s.item(), neumann, d0, d1, d2, L)
     elif n == 2:
         LU_Helmholtz_2D(A_0, A_2, A_4, B_m2, B_0, B_2, axis, A_s, B_s, neumann, d0, d1, d2, L)
     elif n == 3:
@@ -275,7 +275,7 @@ def Helmholtz_matvec(v, b, alfa, beta, A, B, axis):
     n = v.ndim
     A_0, A_2, A_4, B_m2, B_0, B_2 = preLU(A, B)
     if n == 1:
-        Helmholtz_matvec1D(v, b, np.asscalar(alfa), np.asscalar(beta), A_0, A_2, B_0)
+        Helmholtz_matvec1D(v, b, alfa.item(), beta.item(), A_0, A_2, B_0)
     elif n == 2:
         Helmholtz_matvec2D(v, b, alfa, beta, A_0, A_2, B_0, axis)
     elif n == 3:
diff --git a/shenfun/optimization/numba/threedma.py b/shenfun/optimization/numba/threedma.py
index 881fe3d..2695c5f 100644
--- a/shenfun/optimization/numba/threedma.py
+++ b/shenfun/optimization/numba/threedma.py
@@ -25,7 +25,7 @@ def ThreeDMA_Solve(x, data, axis=0):
 def ThreeDMA_inner_solve(u, data):
     d = data[0, :]
     u1 = data[1, 2:]
-    u2 = data[1, 4:]
+    u2 = data[2, 4:]
     n = d.shape[0]
     u[n-1] = u[n-1]/d[n-1]
     u[n-2] = u[n-2]/d[n-2]
-- 
2.43.0


From f5a9976f5bf34d3409b0daa4829a55701a34e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:51 +0000
Subject: [PATCH 35/51] fix: assembly of scaled Phi test functions with exact
 recursions

---
 shenfun/matrixbase.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index dda2b6b..8093069 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -2105,15 +2105,23 @@ def _assemble_stencil(test, trial, measure=1):
 
 def assemble_phi(test, trial, measure=1):
     assert test[0].short_name() in ('P1', 'P2', 'P3', 'P4', 'P6')
-    # The recursions are for undifferentiated and unscaled test functions, and
-    # the same family of polynomials for test and trial functions
+    # The recursions are for undifferentiated test functions, and the same
+    # family of polynomials for test and trial functions
     assert test[1] == 0
-    assert not test[0].is_scaled()
     assert test[0].family() == trial[0].family()
     assert (test[0].alpha, test[0].beta) == (trial[0].alpha, trial[0].beta)
     if trial[0].is_boundary_basis:
-        return _assemble_phi_bc(test, trial, measure)
-    return _assemble_phi(test, trial, measure)
+        d = _assemble_phi_bc(test, trial, measure)
+    else:
+        d = _assemble_phi(test, trial, measure)
+    if test[0].is_scaled():
+        # The recursions are for unscaled test functions
+        M = test[0].dim()
+        K = test[0].stencil_matrix()
+        K0 = test[0].get_unplanned(scaled=False).stencil_matrix()
+        sc = K[0][:M]/K0[0][:M]
+        d = {key: val*sc[max(0, -key):max(0, -key)+len(val)] for key, val in d.items()}
+    return d
 
 def _assemble_phi(test, trial, measure=1):
     from shenfun.jacobi.recursions import Lmat
-- 
2.43.0


From a561e67f1616505d8c0265153f30d29e3a8e8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 36/51] fix: Cartesian components of vectors with covariant
 basis or constant basis vectors

---
 shenfun/forms/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 2716cb0..893398a 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -2006,11 +2006,11 @@ class Array(ShenfunBaseArray):
         T = self.function_space()
         psi = T.coors.psi
         x = T.local_mesh(True)
-        b = T.coors.get_basis()
+        b = T.coors.get_basis(config['basisvectors'])
         bij = np.zeros(b.shape, dtype=object)
         for bi in np.ndindex(bij.shape):
             bij[bi] = sp.lambdify(psi, b[bi])(*x)
-            if isinstance(bij[bi], int):
+            if np.ndim(bij[bi]) == 0:
                 bij[bi] = np.full(x[0].shape, bij[bi])
         bij = np.array(bij.tolist())
         sl = [slice(None)]*bij.ndim
-- 
2.43.0


From c8bcb64f8a1bef4b3cb409594c80baca301cd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:37 +0000
Subject: [PATCH 37/51] fix: Chebyshev Poisson solver for complex, few and
 many-dimensional unknowns

---
 shenfun/chebyshev/la.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/shenfun/chebyshev/la.py b/shenfun/chebyshev/la.py
index 49f45f8..56cfeaf 100644
--- a/shenfun/chebyshev/la.py
+++ b/shenfun/chebyshev/la.py
@@ -17,7 +17,11 @@ class ADDSolver(SparseMatrixSolver):
     def solve(self, b, u, axis, lu):
         if u is not b:
             u[:] = b
-        self.Poisson_Solve_ADD(self.mat, b, u, axis=axis)
+        solve = self.Poisson_Solve_ADD
+        if u.ndim > 3 or u.dtype.char != 'd' or len(self.mat) < 2:
+            # Not covered by the optimized versions
+            solve = solve.func
+        solve(self.mat, b, u, axis=axis)
         return u
 
     def perform_lu(self):
@@ -49,10 +53,11 @@ class ADDSolver(SparseMatrixSolver):
             so = np.zeros(us.shape[1:], dtype=us.dtype)
 
         d = A[0]
-        d1 = A[2]
+        d1 = A[2] if 2 in A else None
         M = us.shape
         us[-1] = bs[-1] / d[-1]
-        us[-2] = bs[-2] / d[-2]
+        if M[0] > 1:
+            us[-2] = bs[-2] / d[-2]
         for k in range(M[0]-3, -1, -1):
             if k%2 == 0:
                 se += us[k+2]
@@ -100,10 +105,11 @@ class ANNSolver(SparseMatrixSolver):
             se = np.zeros(u.shape[1:], dtype=u.dtype)
             so = np.zeros(u.shape[1:], dtype=u.dtype)
         d = A[0]*j2
-        d1 = A[2]*j2[2:]
+        d1 = A[2]*j2[2:] if 2 in A else None
         M = us.shape
         us[-1] = bs[-1] / d[-1]
-        us[-2] = bs[-2] / d[-2]
+        if M[0] > 1:
+            us[-2] = bs[-2] / d[-2]
         for k in range(M[0]-3, 0, -1):
             if k%2 == 0:
                 se += us[k+2]
-- 
2.43.0


From ce40958bfca3695309aaf7244d8be5a5fed7a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 38/51] fix: energy_fourier uses the size of the space to
 recognise even sizes in 1D

---
 shenfun/fourier/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/fourier/__init__.py b/shenfun/fourier/__init__.py
index f5d9b0d..acf89a1 100644
--- a/shenfun/fourier/__init__.py
+++ b/shenfun/fourier/__init__.py
@@ -25,7 +25,7 @@ def energy_fourier(u, T):
         # Just a 1D basis
         assert u.ndim == 1
         if isinstance(T, R2C):
-            if u.shape[0] % 2 == 0:
+            if T.N % 2 == 0:
                 result = (2*np.sum(abs(u[1:-1])**2) +
                           np.sum(abs(u[0])**2) +
                           np.sum(abs(u[-1])**2))
-- 
2.43.0


From 999b117bbcc6f84fde25590ba65eb7825a1b2d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 39/51] fix: direct dealiasing of complex Fourier bases with
 fewer than six points

---
 shenfun/fourier/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/fourier/bases.py b/shenfun/fourier/bases.py
index d6bab6a..f36debd 100644
--- a/shenfun/fourier/bases.py
+++ b/shenfun/fourier/bases.py
@@ -594,7 +594,7 @@ class C2C(FourierBase):
 
         elif self.dealias_direct:
             N = trunc_array.shape[self.axis]
-            su = self.sl[slice(N//3, -(N//3)+1)]
+            su = self.sl[slice(N//3, N-N//3+1)]
             padded_array[su] = 0
 
     def convolve(self, u, v, uv=None, fast=True):
-- 
2.43.0


From a6fe434e4af4272e2440a2ab6d24b6b1de930f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 40/51] fix: Convolve builds its space from the padded shape,
 get_dealiased tells direct dealiasing apart

---
 shenfun/tensorproductspace.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 016cdc1..4eda99a 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -558,9 +558,11 @@ class TensorProductSpace(PFFT):
             padding_factor = (padding_factor,)*len(self)
         elif isinstance(padding_factor, (tuple, list, np.ndarray)):
             assert len(padding_factor) == len(self)
-        
-        if padding_factor in self._padded_space:
-            return self._padded_space[padding_factor]
+            padding_factor = tuple(padding_factor)
+
+        key = (padding_factor, bool(dealias_direct))
+        if key in self._padded_space:
+            return self._padded_space[key]
         
         padded_bases = [base.get_dealiased(padding_factor=padding_factor[axis],
                                            dealias_direct=dealias_direct)
@@ -574,7 +576,7 @@ class TensorProductSpace(PFFT):
                                          dtype=self.forward.output_array.dtype,
                                          backward_from_pencil=self.forward.output_pencil,
                                          coordinates=self.coors.coordinates)
-        self._padded_space[padding_factor] = paddedspace
+        self._padded_space[key] = paddedspace
         return paddedspace
 
     def get_refined(self, N):
@@ -1826,15 +1828,15 @@ class Convolve:
 
     def __init__(self, padding_space):
         self.padding_space = padding_space
-        shape = padding_space.shape()
+        shape = padding_space.global_shape()
         bases = []
         for i, base in enumerate(padding_space.bases):
-            newbase = base.__class__(shape[i], padding_factor=1.0)
+            newbase = base.get_refined(shape[i], padding_factor=1)
             bases.append(newbase)
         axes = []
         for axis in padding_space.axes:
-            axes.append(axis[0])
-        newspace = TensorProductSpace(padding_space.comm, bases, axes=axes)
+            axes.extend(axis)
+        newspace = TensorProductSpace(padding_space.comm, bases, axes=tuple(axes))
         self.newspace = newspace
 
     def __call__(self, a_hat, b_hat, ab_hat=None):
-- 
2.43.0


From 236e8d81cc44cbeba9d2e231a106387008973aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:30 +0000
Subject: [PATCH 41/51] fix: linear form of a scalar with a test function over
 a composite space

---
 shenfun/forms/inner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shenfun/forms/inner.py b/shenfun/forms/inner.py
index 527f806..e6db984 100644
--- a/shenfun/forms/inner.py
+++ b/shenfun/forms/inner.py
@@ -502,6 +502,8 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
             wh = b.matvec(uh.v[b.global_index[1]], wh)
         elif uh.function_space().is_composite_space and wh.ndim > b.dimensions:
             wh[b.global_index[0]] = b.matvec(uh.v[b.global_index[1]], wh[b.global_index[0]])
+        elif wh.ndim > uh.ndim: # scalar trial, but test over a composite space, e.g., inner(div(v), p)
+            wh[b.global_index[0]] = b.matvec(uh, wh[b.global_index[0]])
         else:
             wh = b.matvec(uh, wh)
         output_array += wh
-- 
2.43.0


From b0f1add5bf175a921856a8cd2655e2c2320484ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:14 +0000
Subject: [PATCH 42/51] fix: integrals in non-orthogonal coordinates with unit
 scaling factors, fixed_resolution of complex Fourier bases

---
 shenfun/forms/inner.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/shenfun/forms/inner.py b/shenfun/forms/inner.py
index e6db984..cae5127 100644
--- a/shenfun/forms/inner.py
+++ b/shenfun/forms/inner.py
@@ -193,7 +193,7 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
                 #return (expr0/df)*dx(expr1.backward())
                 expr1 = expr1.backward()
             if hasattr(space, 'hi'):
-                if space.hi.prod() != 1:
+                if space.hi.prod() != 1 or space.coors.sg != 1:
                     expr1 = space.get_measured_array(expr1.copy())
             return (expr0/df)*dx(expr1)
 
@@ -211,7 +211,7 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
                 #return (expr1/df)*dx(expr0.backward())
                 expr0 = expr0.backward()
             if hasattr(space, 'hi'):
-                if space.hi.prod() != 1:
+                if space.hi.prod() != 1 or space.coors.sg != 1:
                     expr0 = space.get_measured_array(expr0.copy())
             return (expr1/df)*dx(expr0)
 
@@ -263,7 +263,15 @@ def inner(expr0, expr1, output_array=None, assemble=None, kind=None, fixed_resol
                     M = fixed_resolution
                     testM = test.function_space().get_refined(M)
                     outM = testM.scalar_product(Array(testM, buffer=trial), kind=kind)
-                    output_array[test.function_space().slice()] = outM[test.function_space().slice()]
+                    # The modes of the refined space that are also in the test space
+                    space = test.function_space()
+                    modes = []
+                    for base in getattr(space, 'bases', [space]):
+                        if base.family() == 'fourier':
+                            modes.append(base.wavenumbers(bcast=False))
+                        else:
+                            modes.append(np.arange(base.N)[base.slice()])
+                    output_array[space.slice()] = outM[np.ix_(*modes)]
                 else:
                     output_array = test.function_space().scalar_product(Array(test.function_space(), buffer=trial), output_array, kind=kind)
             return output_array
-- 
2.43.0


From 5e5f21f3c0ab0f4c9b24f50de70a3ff6d97a9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:56 +0000
Subject: [PATCH 43/51] fix: project, assign and refine for different sizes,
 boundary conditions and two non-periodic axes

---
 shenfun/forms/arguments.py | 24 +++++++++++++++-----
 shenfun/forms/project.py   | 45 ++++++++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index 893398a..b5e62ef 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1437,6 +1437,14 @@ class ShenfunBaseArray(DistArray):
         return self.function_space().tensor_rank
 
 
+def same_basis(base0, base1):
+    """Return True if the two bases have the same basis functions, apart from
+    their number"""
+    if not base0.__class__ == base1.__class__:
+        return False
+    return (getattr(base0, 'bcs', None) == getattr(base1, 'bcs', None) and tuple(base0.domain) == tuple(base1.domain) and
+            (getattr(base0, 'alpha', 0), getattr(base0, 'beta', 0)) == (getattr(base1, 'alpha', 0), getattr(base1, 'beta', 0)))
+
 class Function(ShenfunBaseArray, BasisFunction):
     r"""
     Spectral Galerkin function for given :class:`.TensorProductSpace` or :class:`.SpectralBase`
@@ -1680,6 +1688,10 @@ class Function(ShenfunBaseArray, BasisFunction):
 
         if space.dimensions > 1:
             naxes = space.get_nonperiodic_axes()
+            if len(naxes) == 0:
+                output_array[:] = self
+                return output_array
+
             axis = naxes[0]
             base = space.bases[axis]
             if not base.is_orthogonal:
@@ -1714,12 +1726,14 @@ class Function(ShenfunBaseArray, BasisFunction):
         from shenfun import VectorSpace
         if self.ndim == 1:
             assert u_hat.__class__ == self.__class__
+            base0, base1 = self.function_space(), u_hat.function_space()
+            assert same_basis(base0, base1), "Can only assign on spaces with the same underlying bases"
             if self.shape[0] < u_hat.shape[0]:
                 self.function_space()._padding_backward(self, u_hat)
             elif self.shape[0] == u_hat.shape[0]:
                 u_hat[:] = self
             elif self.shape[0] > u_hat.shape[0]:
-                self.function_space()._truncation_forward(self, u_hat)
+                u_hat.function_space()._truncation_forward(self, u_hat)
             return u_hat
 
         space = self.function_space()
@@ -1732,7 +1746,7 @@ class Function(ShenfunBaseArray, BasisFunction):
 
         same_bases = True
         for base0, base1 in zip(space.bases, newspace.bases):
-            if not base0.__class__ == base1.__class__:
+            if not same_basis(base0, base1):
                 same_bases = False
                 break
         assert same_bases, "Can only assign on spaces with the same underlying bases"
@@ -1790,6 +1804,7 @@ class Function(ShenfunBaseArray, BasisFunction):
                 output_array = Function(VT, buffer=output_array)
             return output_array
 
+        refined_space = space.get_refined(N) if output_array is None else output_array.function_space()
         axes = [bx for ax in space.axes for bx in ax]
         base = space.bases[axes[0]]
         global_shape = list(self.global_shape) # Global shape in spectral space
@@ -1801,7 +1816,7 @@ class Function(ShenfunBaseArray, BasisFunction):
         if self.global_shape[axes[0]] <= global_shape[axes[0]]:
             base._padding_backward(self, c1)
         else:
-            base._truncation_forward(self, c1)
+            refined_space.bases[axes[0]]._truncation_forward(self, c1)
         for ax in axes[1:]:
             c0 = c1.redistribute(ax)
 
@@ -1817,14 +1832,13 @@ class Function(ShenfunBaseArray, BasisFunction):
             if self.global_shape[ax] <= global_shape[ax]:
                 base._padding_backward(c0, c1)
             else:
-                base._truncation_forward(c0, c1)
+                refined_space.bases[ax]._truncation_forward(c0, c1)
 
         # Reverse transfer to get the same distribution as u_hat
         for ax in reversed(axes[:-1]):
             c1 = c1.redistribute(ax)
 
         if output_array is None:
-            refined_space = space.get_refined(N)
             output_array = Function(refined_space, buffer=c1)
         else:
             output_array[:] = c1
diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 6ee83e5..54e2155 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -4,9 +4,11 @@ from shenfun import la
 from shenfun.utilities import CachedArrayDict
 from shenfun.tensorproductspace import TensorProductSpace
 from shenfun.matrixbase import TPMatrix, BlockMatrix, SpectralMatrix, \
+    extract_bc_matrices, \
     Identity
 from .arguments import Expr, TestFunction, TrialFunction, BasisFunction, \
     Function, Array
+from shenfun.spectralbase import SpectralBase
 from .inner import inner
 
 __all__ = ('project', 'Project')
@@ -136,29 +138,40 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
         if len(T.get_nonperiodic_axes()) == 2:
             # Means we have two non-periodic directions
             B = [B] if isinstance(B, TPMatrix) else B
-            npaxes = list(B[0].naxes)
-            assert len(npaxes) == 2
+            bc_mats = extract_bc_matrices([B])
+            assert len(B) == 1
+            if len(bc_mats) > 0:
+                ub = Function(T)
+                ub.set_boundary_dofs()
+                wh = np.zeros_like(output_array)
+                for bc in bc_mats:
+                    output_array -= bc.matvec(ub, wh)
 
             pencilA = T.forward.output_pencil
-            axis = pencilA.axis
-            npaxes.remove(axis)
-            second_axis = npaxes[0]
-            pencilB = pencilA.pencil(second_axis)
-            transAB = pencilA.transfer(pencilB, output_array.dtype.char)
-            output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
-            b = B[0].mats[axis]
-            output_array = b.solve(output_array, output_array, axis=axis)
-            transAB.forward(output_array, output_arrayB)
-            b = B[0].mats[second_axis]
-            output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=second_axis)
-            transAB.backward(output_arrayB2, output_array)
-            transAB.destroy()
+            for axis in T.get_nonperiodic_axes():
+                b = B[0].mats[axis]
+                if axis == pencilA.axis:
+                    output_array[:] = b.solve(output_array, output_array, axis=axis)
+                else:
+                    pencilB = pencilA.pencil(axis)
+                    transAB = pencilA.transfer(pencilB, output_array.dtype.char)
+                    output_arrayB = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+                    output_arrayB2 = np.zeros(transAB.subshapeB, dtype=output_array.dtype)
+                    transAB.forward(output_array, output_arrayB)
+                    output_arrayB2 = b.solve(output_arrayB, output_arrayB2, axis=axis)
+                    transAB.backward(output_arrayB2, output_array)
+                    transAB.destroy()
+            if len(bc_mats) > 0:
+                output_array.set_boundary_dofs()
             return output_array
 
     if isinstance(B, (TPMatrix, SpectralMatrix)):
         output_array = B.solve(output_array)
 
+    elif isinstance(T, SpectralBase):
+        # 1D with inhomogeneous boundary conditions
+        output_array = la.Solver(B)(output_array, output_array)
+
     elif T.coors.is_orthogonal and (len(output_array) == len(B)):
         for oa, b in zip(output_array.v, B):
             oa = b.solve(oa, oa)
-- 
2.43.0


From 10361ba58aac1a59cfc35c94e79d63b7a9d08afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:05 +0000
Subject: [PATCH 44/51] fix: diagonal axes of scalar spaces in block matrices,
 project onto a scalar space with boundary conditions

---
 shenfun/forms/project.py      | 2 +-
 shenfun/tensorproductspace.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shenfun/forms/project.py b/shenfun/forms/project.py
index 54e2155..ff617f8 100644
--- a/shenfun/forms/project.py
+++ b/shenfun/forms/project.py
@@ -172,7 +172,7 @@ def project(uh, T, output_array=None, fill=True, use_to_ortho=True, use_assign=T
         # 1D with inhomogeneous boundary conditions
         output_array = la.Solver(B)(output_array, output_array)
 
-    elif T.coors.is_orthogonal and (len(output_array) == len(B)):
+    elif T.rank > 0 and T.coors.is_orthogonal and (len(output_array) == len(B)):
         for oa, b in zip(output_array.v, B):
             oa = b.solve(oa, oa)
 
diff --git a/shenfun/tensorproductspace.py b/shenfun/tensorproductspace.py
index 4eda99a..8a2fed7 100644
--- a/shenfun/tensorproductspace.py
+++ b/shenfun/tensorproductspace.py
@@ -1369,7 +1369,7 @@ class TensorProductSpace(PFFT):
         assert len(j) == len(daxes)
         sa = np.array(sl)
         if len(daxes) > 0:
-            sa.T[daxes] = j if isinstance(j, int) else np.array(j)[:, None]
+            sa[daxes] = j
         return np.atleast_2d(sa)
 
     def _get_ndiag_slices_and_dims(self, j=()):
-- 
2.43.0


From 5330a4ece72a9a49c80e106cefdb1b3f52ae5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:28 +0000
Subject: [PATCH 45/51] fix: to_ortho of functions that already are in an
 orthogonal basis

---
 shenfun/chebyshev/bases.py  | 3 +--
 shenfun/chebyshevu/bases.py | 3 +--
 shenfun/forms/arguments.py  | 2 ++
 shenfun/legendre/bases.py   | 3 +--
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/shenfun/chebyshev/bases.py b/shenfun/chebyshev/bases.py
index 76ade5a..d10c3d4 100644
--- a/shenfun/chebyshev/bases.py
+++ b/shenfun/chebyshev/bases.py
@@ -380,8 +380,7 @@ class Orthogonal(JacobiBase):
         return sp.KroneckerDelta(i, j)
 
     def to_ortho(self, input_array, output_array=None):
-        assert input_array.__class__.__name__ == "Orthogonal"
-        if output_array:
+        if output_array is not None:
             output_array[:] = input_array
             return output_array
         return input_array
diff --git a/shenfun/chebyshevu/bases.py b/shenfun/chebyshevu/bases.py
index 2882102..dd2e5b3 100644
--- a/shenfun/chebyshevu/bases.py
+++ b/shenfun/chebyshevu/bases.py
@@ -271,8 +271,7 @@ class Orthogonal(JacobiBase):
         return 'U'
 
     def to_ortho(self, input_array, output_array=None):
-        assert input_array.__class__.__name__ == 'Orthogonal'
-        if output_array:
+        if output_array is not None:
             output_array[:] = input_array
             return output_array
         return input_array
diff --git a/shenfun/forms/arguments.py b/shenfun/forms/arguments.py
index b5e62ef..b1b9d9d 100644
--- a/shenfun/forms/arguments.py
+++ b/shenfun/forms/arguments.py
@@ -1706,6 +1706,8 @@ class Function(ShenfunBaseArray, BasisFunction):
                     input_array[:] = output_array
                     if not base.is_orthogonal:
                         output_array = base.to_ortho(input_array, output_array)
+        elif space.is_orthogonal:
+            output_array[:] = self
         else:
             output_array = space.to_ortho(self, output_array)
         return output_array
diff --git a/shenfun/legendre/bases.py b/shenfun/legendre/bases.py
index 58878c0..1608596 100644
--- a/shenfun/legendre/bases.py
+++ b/shenfun/legendre/bases.py
@@ -248,8 +248,7 @@ class Orthogonal(JacobiBase):
         return self._bc_space
 
     def to_ortho(self, input_array, output_array=None):
-        assert input_array.function_space().__class__.__name__ == 'Orthogonal'
-        if output_array:
+        if output_array is not None:
             output_array[:] = input_array
             return output_array
         return input_array
-- 
2.43.0


From e50ee50b0d1114bbb70e86fa685e3a1bd2a9b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:51 +0000
Subject: [PATCH 46/51] fix: Chebyshev derivative matrix of different sizes

---
 shenfun/chebyshev/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/chebyshev/matrices.py b/shenfun/chebyshev/matrices.py
index 5d724c7..4a89793 100644
--- a/shenfun/chebyshev/matrices.py
+++ b/shenfun/chebyshev/matrices.py
@@ -840,7 +840,7 @@ class CTTmat(SpectralMatrix):
     def matvec(self, v, c, format=None, axis=0):
         format = 'cython' if format is None else format
         c.fill(0)
-        if format == 'cython':
+        if format == 'cython' and self.shape[0] == self.shape[1]:
             cython.Matvec.CTT_matvec(v, c, axis)
             self.scale_array(c, self.scale*self._keyscale)
         else:
-- 
2.43.0


From ce16e948f434228d394d5b5600824347eac526f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:51 +0000
Subject: [PATCH 47/51] fix: complex matrices and unlike wavenumbers in
 SolverGeneric1ND, block solver of Fourier spaces with complex data and
 repeated constraints

---
 shenfun/la.py         | 28 ++++++++++++++++++++--------
 shenfun/matrixbase.py |  5 ++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 00df937..24934ce 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -1308,6 +1308,18 @@ class SolverGeneric1ND:
                     lu = mij.perform_lu()
         self._lu = True
 
+    def _has_fast_solver(self):
+        """Return True if all wavenumbers, with the possible exception of the
+        zero wavenumber, use the same tailored solver with real data"""
+        sols = self.solvers1D
+        if self.mats[0].dimensions == 3:
+            sols = [sol for m in sols for sol in m]
+        last = sols[-1]
+        if comm.Get_rank() == 0 and len(sols) > 1:
+            sols = sols[1:]
+        return all(type(sol) is type(last) and isinstance(sol._inner_arg, np.ndarray)
+                   and sol._inner_arg.dtype.char not in 'FDG' for sol in sols)
+
     def get_data(self, is_rank_zero):
         if not self._data is None:
             return self._data
@@ -1432,11 +1444,7 @@ class SolverGeneric1ND:
         if not self._lu:
             self.perform_lu()
 
-        sol1 = self.solvers1D[-1] if u.ndim == 2 else self.solvers1D[-1][-1]
-        if isinstance(sol1._inner_arg, tuple):
-            fast = False
-
-        if not fast:
+        if not fast or not self._has_fast_solver():
             self.solve(u, b, self.solvers1D, self.naxes)
         else:
             self.fast_solve(u, b, self.solvers1D, self.naxes)
@@ -1517,12 +1525,16 @@ class BlockMatrixSolver:
             if isinstance(self._lu, dict):
                 for con in constraints:
                     Ai, gi = self.apply_constraint(Ai, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
+                self._lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
             else:
                 for con in constraints:
                     _, gi = self.apply_constraint(None, gi, int(np.sum(np.array(space.dims()[:con[0]]))), 0, con)
-            lu = sp.linalg.splu(Ai, permc_spec=config['matrix']['block']['permc_spec'])
-            self._lu = lu
-            u[:] = lu.solve(gi).reshape(u.shape)
+            lu = self._lu
+            if b.dtype.char in 'fdg' or lu.U.dtype.char in 'FDG':
+                gi = lu.solve(gi)
+            else:
+                gi = lu.solve(gi.real) + 1j*lu.solve(gi.imag)
+            u[:] = gi.reshape(u.shape)
 
         else:
             sl, dims = space._get_ndiag_slices_and_dims()
diff --git a/shenfun/matrixbase.py b/shenfun/matrixbase.py
index 8093069..6977fd0 100644
--- a/shenfun/matrixbase.py
+++ b/shenfun/matrixbase.py
@@ -460,7 +460,10 @@ class SparseMatrix(MutableMapping):
         if len(self) == 1:
             if list(self.keys())[0] == 0:
                 return DiagMA
-        elif len(self) == 2:
+        if np.iscomplexobj(self.scale) or any(np.iscomplexobj(val) for val in self.values()):
+            # The tailored solvers are for real matrices
+            return Solve
+        if len(self) == 2:
             if np.all(self.sorted_keys() == (0, 2)):
                 return TwoDMA
         elif len(self) == 3:
-- 
2.43.0


From f14bbd4d8c9ffa0ddb55096e27a8fbc9d64361f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:17 +0000
Subject: [PATCH 48/51] fix: integrators with complex linear operators, first
 step and Nyquist mask of BackwardEuler, IMEXRK3 and IMEXRK011 in several
 dimensions

---
 shenfun/utilities/integrators.py | 54 ++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 4a40408..2ed4874 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -171,6 +171,7 @@ class IRK3(IntegratorBase):
                 mats = inner(v, u-((a[rk]+b[rk])*dt/2)*u0)
             else:
                 mats = inner(v, u)
+            mats = mats if isinstance(mats, list) else [mats]
             if self.T.dimensions == 1:
                 self.solver.append(la.Solver(mats))
 
@@ -188,6 +189,7 @@ class IRK3(IntegratorBase):
                 rhs_mats = inner(v, u+((a[rk]+b[rk])*dt/2)*u0)
             else:
                 rhs_mats = inner(v, u)
+            rhs_mats = rhs_mats if isinstance(rhs_mats, list) else [rhs_mats]
             mat = ScipyMatrix if self.T.dimensions == 1 else BlockMatrix
             self.rhs_mats.append(mat(rhs_mats))
 
@@ -247,7 +249,7 @@ class BackwardEuler(IntegratorBase):
                  **params):
         IntegratorBase.__init__(self, T, L=L, N=N, update=update, **params)
         self.dU = Function(T)
-        self.dU1 = Function(T)
+        self.dU1 = None
         self.solver = None
         self.rhs_mats = None
         self.w0 = Function(self.T)
@@ -263,11 +265,12 @@ class BackwardEuler(IntegratorBase):
         u = TrialFunction(self.T)
         v = TestFunction(self.T)
         mats = inner(u-dt*self.LinearRHS(u), v)
+        mats = mats if isinstance(mats, list) else [mats]
         M = inner(u, v)
 
         if self.T.dimensions == 1:
             self.solver = la.Solve(mats)
-            self.rhs_mats = M
+            self.rhs_mats = ScipyMatrix(M)
             return
 
         if self.T.tensor_rank == 0:
@@ -281,13 +284,16 @@ class BackwardEuler(IntegratorBase):
             self.solver = la.BlockMatrixSolver(mats)
         self.rhs_mats = BlockMatrix(M if isinstance(M, list) else [M])
 
-    def compute_rhs(self, u, u_hat, dU, dU1):
+    def compute_rhs(self, u, u_hat, dU):
         dt = self.params['dt']
         dU = self.NonlinearRHS(u, u_hat, dU, **self.params)
-        if self.mask:
+        if self.mask is not None:
             dU.mask_nyquist(self.mask)
-        w1 = dU*2*dt - dU1*dt
-        dU1[:] = dU
+        if self.dU1 is None: # first step
+            self.dU1 = Function(self.T)
+            self.dU1[:] = dU
+        w1 = dU*2*dt - self.dU1*dt
+        self.dU1[:] = dU
         return w1
 
     def solve(self, u, u_hat, dt, trange):
@@ -298,10 +304,10 @@ class BackwardEuler(IntegratorBase):
         while t < end_time-1e-8:
             self.params['ti'] = t
             self.tstep = tstep
-            dU = self.compute_rhs(u, u_hat, self.dU, self.dU1)
+            dU = self.compute_rhs(u, u_hat, self.dU)
             dU += self.rhs_mats.matvec(u_hat, self.w0)
             u_hat = self.solver(dU, u=u_hat)
-            if self.mask:
+            if self.mask is not None:
                 u_hat.mask_nyquist(self.mask)
             t += dt
             tstep += 1
@@ -363,6 +369,14 @@ class ETD(IntegratorBase):
         hL = L*dt
         self.ehL = np.exp(hL)
         M = 50
+        if np.iscomplexobj(hL):
+            # Full circle required for complex L
+            psi = self.psi = np.zeros(hL.shape, dtype=complex)
+            for k in range(1, 2*M+1):
+                ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
+                psi += (np.exp(ll)-1.)/ll
+            psi /= 2*M
+            return
         psi = self.psi = np.zeros(hL.shape, dtype=float)
         for k in range(1, M+1):
             ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
@@ -460,14 +474,19 @@ class ETDRK4(IntegratorBase):
         self.ehL = np.exp(hL)
         self.ehL_h = np.exp(hL/2.)
         M = 50
-        psi = self.psi = np.zeros((4,) + hL.shape, dtype=float)
+        # The upper half of the circle is sufficient for real L
+        part = np.asarray if np.iscomplexobj(hL) else np.real
+        if np.iscomplexobj(hL):
+            M = 100
+        psi = self.psi = np.zeros((4,) + hL.shape, dtype=hL.dtype)
         for k in range(1, M+1):
-            ll = hL+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[0] += ((np.exp(ll)-1.)/ll).real
-            psi[1] += ((np.exp(ll)-ll-1.)/ll**2).real
-            psi[2] += ((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3).real
-            ll2 = hL/2.+np.exp(np.pi*1j*(k-0.5)/M)
-            psi[3] += ((np.exp(ll2)-1.)/(ll2)).real
+            r = np.exp(np.pi*1j*(k-0.5)/50)
+            ll = hL+r
+            psi[0] += part((np.exp(ll)-1.)/ll)
+            psi[1] += part((np.exp(ll)-ll-1.)/ll**2)
+            psi[2] += part((np.exp(ll)-0.5*ll**2-ll-1.)/ll**3)
+            ll2 = hL/2.+r
+            psi[3] += part((np.exp(ll2)-1.)/(ll2))
 
         psi /= M
         a = [psi[0]-3*psi[1]+4*psi[2]]
@@ -640,9 +659,9 @@ class IMEXRK3:
         if solver is None:
             if v.dimensions == 1:
                 self._solver = la.Solver
-            elif len(T.get_nondiagonal_axes().ndim) == 1:
+            elif len(T.get_nondiagonal_axes()) == 1:
                 self._solver = la.SolverGeneric1ND
-            elif len(T.get_nondiagonal_axes().ndim) == 2:
+            elif len(T.get_nondiagonal_axes()) == 2:
                self._solver = la.SolverGeneric2ND
             else:
                 raise NotImplementedError
@@ -785,6 +804,7 @@ class PDEIMEXRK:
         ul = copy.copy(self.u)
         ul._basis = TrialFunction(self.u.function_space())
         mats = inner(self.v, ul - dt*a[1, 1]*self.L(ul))
+        mats = mats if isinstance(mats, list) else [mats]
         self.solvers.append(self._solver(mats))
         self.linear_rhs = Inner(self.v, self.L(self.u))
         self.u0_rhs = Inner(self.v, self.u)
-- 
2.43.0


From bb37094a92de69095598025d230586a1dff6cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:17 +0000
Subject: [PATCH 49/51] fix: SolverGeneric2ND with complex coefficients and
 with constraints

---
 shenfun/la.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/shenfun/la.py b/shenfun/la.py
index 24934ce..15d966d 100644
--- a/shenfun/la.py
+++ b/shenfun/la.py
@@ -922,31 +922,38 @@ class SolverGeneric2ND:
             A0 = m.mats[naxes[0]].diags('csc')
             A1 = m.mats[naxes[1]].diags('csc')
             M0 = kron(A0, A1, 'csc')
-            M0 *= m.scale[tuple(sc)]
+            M0 = M0*m.scale[tuple(sc)]
             for m in self.tpmats[1:]:
                 A0 = m.mats[naxes[0]].diags('csc')
                 A1 = m.mats[naxes[1]].diags('csc')
                 M1 = kron(A0, A1, 'csc')
                 sc[diagonal_axis] = i if m.scale.shape[diagonal_axis] > 1 else 0
-                M1 *= m.scale[tuple(sc)]
+                M1 = M1*m.scale[tuple(sc)]
                 M0 = M0 + M1
         self.mats2D[i] = M0
         return M0
 
     def apply_constraints(self, b, constraints):
-        if len(constraints) > 0:
-            if self._lu is None:
-                A = self.mats2D[0]
-                A = A.tolil()
-                for (row, val) in constraints:
-                    _, zerorow = A[row].nonzero()
-                    A[(row, zerorow)] = 0
-                    A[row, row] = 1
-                    b[row] = val
-                self.mats2D[0] = A.tocsc()
-            else:
-                for (row, val) in constraints:
-                    b[row] = val
+        if len(constraints) == 0:
+            return b
+        naxes = self.T.get_nondiagonal_axes()
+        if self.T.dimensions == 3:
+            # Only for wavenumber zero
+            if self.T.local_slice()[self.get_diagonal_axis()].start != 0:
+                return b
+        dims = np.take(self.T.dims(), naxes)
+        index = [0]*self.T.dimensions
+        A = self.mats2D[0].tolil() if self._lu is None else None
+        for (row, val) in constraints:
+            if A is not None:
+                _, zerorow = A[row].nonzero()
+                A[(row, zerorow)] = 0
+                A[row, row] = 1
+            for axis, k in zip(naxes, np.unravel_index(row, dims)):
+                index[axis] = k
+            b[tuple(index)] = val
+        if A is not None:
+            self.mats2D[0] = A.tocsc()
         return b
 
     def assemble(self):
-- 
2.43.0


From cc351a79ca50f9f70c7d77af214a7846373b874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:06 +0000
Subject: [PATCH 50/51] fix: ETD and RK4 in one dimension

---
 shenfun/utilities/integrators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/shenfun/utilities/integrators.py b/shenfun/utilities/integrators.py
index 2ed4874..d984f62 100644
--- a/shenfun/utilities/integrators.py
+++ b/shenfun/utilities/integrators.py
@@ -352,7 +352,11 @@ class ETD(IntegratorBase):
         L = self.LinearRHS(u, **self.params)
         if isinstance(L, Expr):
             L = inner(v, L)
-            L = get_simplified_tpmatrices(L)[0]
+            if isinstance(L, list):
+                if isinstance(L[0], TPMatrix):
+                    L = get_simplified_tpmatrices(L)[0]
+                elif isinstance(L[0], SpectralMatrix):
+                    L = sum(L[1:], L[0])
         if isinstance(L, list):
             assert self.T.tensor_rank == 1
             assert L[0].isidentity()
@@ -590,7 +594,11 @@ class RK4(IntegratorBase):
         L = self.LinearRHS(ut, **self.params)
         if isinstance(L, Expr):
             L = inner(vt, L)
-            L = get_simplified_tpmatrices(L)[0]
+            if isinstance(L, list):
+                if isinstance(L[0], TPMatrix):
+                    L = get_simplified_tpmatrices(L)[0]
+                elif isinstance(L[0], SpectralMatrix):
+                    L = sum(L[1:], L[0])
         if isinstance(L, list):
             assert self.T.tensor_rank == 1
             assert L[0].isidentity()
-- 
2.43.0


From 85e0bde9c8ed79f12134ffe6bf760d75aa2d5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:50 +0000
Subject: [PATCH 51/51] fix: differential operators on expressions that are
 identically zero

---
 shenfun/forms/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shenfun/forms/operators.py b/shenfun/forms/operators.py
index af5700e..979e724 100644
--- a/shenfun/forms/operators.py
+++ b/shenfun/forms/operators.py
@@ -13,7 +13,7 @@ def _expr_from_vector_components(comp, basis):
     """
     hi = basis.function_space().coors.hi
     terms, scales, indices = [], [], []
-    ndim = len(comp[0].terms()[0][0])
+    ndim = basis.function_space().dimensions
     his = [1]*len(comp)
     if config['basisvectors'] == 'normal':
         if len(comp) == ndim:
-- 
2.43.0

