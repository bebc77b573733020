From 03bb5649a9482b71ffbaa85365eb3e0710973228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:24 +0000
Subject: [PATCH 01/68] fix: mpiutil.grid_search with non-double function
 values or idle ranks

Function values of non-float64 type were reinterpreted as doubles by the
gather, and a rank without grid points entered a different collective
call than the other ranks when the function is vector valued.
---
 sporco/mpiutil.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sporco/mpiutil.py b/sporco/mpiutil.py
index 2e0c3e0..8f30f5c 100644
--- a/sporco/mpiutil.py
+++ b/sporco/mpiutil.py
@@ -131,14 +131,20 @@ def grid_search(fn, grid, comm=None, mpidtype=None, fmin=True):
     iterlen = afprm.shape[0]
     begin, end = _get_rank_limits(comm, iterlen)
     rankgrid = (afprm[begin:end, :])
-    rankfval = np.asarray(list(map(fn, rankgrid)))
+    rankfval = np.asarray(list(map(fn, rankgrid)), dtype=np.float64)
 
-    if rankfval.ndim == 1:  # Function with a scalar return value
+    # Number of function values, which cannot be determined locally by a
+    # process without any grid points (zero for a scalar return value)
+    nfnv = rankfval.shape[1] if rankfval.ndim > 1 else 0
+    nfnv = comm.allreduce(nfnv, op=MPI.MAX)
+
+    if nfnv == 0:  # Function with a scalar return value
         fval = np.empty(afprm.shape[0])
         comm.Allgatherv([rankfval, mpidtype], [fval, mpidtype])
     else:  # Function with a vector return value
+        rankfval = rankfval.reshape((-1, nfnv))
         # Vector for gathering all the results
-        fval = np.empty([afprm.shape[0], rankfval.shape[1]])
+        fval = np.empty([afprm.shape[0], nfnv])
         # Size of values to collect locally
         sizeL = np.array(np.prod(np.array(rankfval.shape)))
         # Number of processes to collect from
-- 
2.43.0


From 428ea7eeb8b38e21ecfdeb5b0de3572f42cc822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 02/68] fix: netgetdata retry of timeouts not wrapped by urllib

A socket.timeout raised while waiting for or reading the response was
neither retried nor reported as the documented URLError.
---
 sporco/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sporco/util.py b/sporco/util.py
index be39ecd..705ab83 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -202,6 +202,9 @@ def netgetdata(url, maxtry=3, timeout=10):
             err = e
             if not isinstance(e.reason, socket.timeout):
                 raise
+        except socket.timeout as e:
+            # Timeout after connection is established is not wrapped by urllib
+            err = urlerror.URLError(e)
     else:
         raise err
 
-- 
2.43.0


From 779ddfb40dbfe9c992dd354c61b4c312c24effa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:45 +0000
Subject: [PATCH 03/68] fix: set ConvBPDN lmbda and rho before base class
 initialisation

Specifying option Y0 without U0 raised AttributeError, and the cached
component of the linear solver with HighMemSolve was computed with the
wrong penalty parameter when the default rho was used.
---
 sporco/admm/cbpdn.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7b08026..efd8d1a 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -566,14 +566,12 @@ class ConvBPDN(GenericConvBPDN):
         # Set dtype attribute based on S.dtype and opt['DataType']
         self.set_dtype(opt, S.dtype)
 
-        # Call parent class __init__
-        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
-
         # Set default lambda value if not specified
         if lmbda is None:
             cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
-            Df = self.fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
-            Sf = self.fftn(S.reshape(cri.shpS), axes=cri.axisN)
+            fftn = fftn_func(np.isrealobj(D) and np.isrealobj(S))
+            Df = fftn(D.reshape(cri.shpD), cri.Nv, axes=cri.axisN)
+            Sf = fftn(S.reshape(cri.shpS), axes=cri.axisN)
             b = np.conj(Df) * Sf
             lmbda = 0.1 * abs(b).max()
 
@@ -592,6 +590,11 @@ class ConvBPDN(GenericConvBPDN):
         self.set_attr('rho_xi', opt['AutoRho', 'RsdlTarget'], dval=rho_xi,
                       dtype=real_dtype(self.dtype), reset=True)
 
+        # Call parent class __init__ (after setting lmbda and rho since they
+        # are required in the initialisation of U and the setup of the
+        # linear solver)
+        super(ConvBPDN, self).__init__(D, S, opt, dimK, dimN)
+
         # Set l1 term weight array
         self.wl1 = np.asarray(opt['L1Weight'], dtype=real_dtype(self.dtype))
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
-- 
2.43.0


From af51e8df82b38b635ca840ab8de14f3f849629fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 04/68] fix: ConvElasticNet and ConvBPDNGradReg linear solver
 cache update

With HighMemSolve enabled, an automatic rho update replaced the cached
component of the linear solver with that of the standard ConvBPDN
problem, ignoring the additional quadratic term.
---
 sporco/admm/cbpdn.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index efd8d1a..17c91bc 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -990,6 +990,15 @@ class ConvElasticNet(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbi_sm_c(self.Df, np.conj(self.Df),
+                                      self.mu + self.rho, self.cri.axisM)
+
+
+
 
 
 class ConvBPDNGradReg(ConvBPDN):
@@ -1218,6 +1227,16 @@ class ConvBPDNGradReg(ConvBPDN):
 
 
 
+    def rhochange(self):
+        """Updated cached c array when rho changes."""
+
+        if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+            self.c = sl.solvedbd_sm_c(
+                self.Df, np.conj(self.Df), self.mu*self.GHGf + self.rho,
+                self.cri.axisM)
+
+
+
 
 
 class ConvBPDNProjL1(GenericConvBPDN):
-- 
2.43.0


From f2bef36e34aae6c7f80cfa1afddeb465d9c0232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 05/68] fix: ConvMinL1InL2Ball initialisation of U when only Y0
 is given

The code had been copied from a class with the opposite block order and
raised AttributeError (nonexistent sporco.linalg.atleast_nd).
---
 sporco/admm/cbpdn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 17c91bc..9a02484 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2031,9 +2031,8 @@ class ConvMinL1InL2Ball(ConvTwoBlockCnstrnt):
             # If initial Y is non-zero, initial U is chosen so that
             # the relevant dual optimality criterion (see (3.10) in
             # boyd-2010-distributed) is satisfied.
-            U0 = np.sign(self.block_sep0(self.Y)) / self.rho
-            U1 = self.block_sep1(self.Y) - sl.atleast_nd(self.cri.dimN+3,
-                                                         self.S)
+            U0 = self.block_sep0(self.Y)
+            U1 = np.sign(self.block_sep1(self.Y)) / self.rho
             return self.block_cat(U0, U1)
 
 
-- 
2.43.0


From 3e0e846002f86d7171bb87999f11202a7ba2af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 06/68] fix: ConvBPDNMaskDcpl initialisation of U when only Y0
 is given

Attributes lmbda and W are used in method uinit, which is called by the
base class initialiser, so that they have to be set before it.
---
 sporco/admm/cbpdn.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 9a02484..a7493a4 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2230,13 +2230,19 @@ class ConvBPDNMaskDcpl(ConvTwoBlockCnstrnt):
         if opt is None:
             opt = ConvBPDNMaskDcpl.Options()
 
-        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
+        # Attributes lmbda and W are required in the initialisation of U
         self.lmbda = self.dtype.type(lmbda)
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
-        self.W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.W = np.asarray(W.reshape(cr.mskWshape(W, cri)),
                             dtype=self.dtype)
+
+        super(ConvBPDNMaskDcpl, self).__init__(D, S, opt, dimK=dimK, dimN=dimN)
+
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
         self.wl1 = self.wl1.reshape(cr.l1Wshape(self.wl1, self.cri))
 
-- 
2.43.0


From 0c6e3b715cd8f1a418d6378b9d4280c65a9a1f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:07 +0000
Subject: [PATCH 07/68] fix: ConvL1L1Grd initialisation with HighMemSolve
 enabled

Attributes mu and GHGf are used in method setdict, which is called by
the base class initialiser, so that they have to be set before it.
---
 sporco/admm/cbpdn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index a7493a4..f50ae02 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2669,8 +2669,8 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         if opt is None:
             opt = ConvL1L1Grd.Options()
 
-        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
-                                          dimN=dimN)
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
 
         self.mu = self.dtype.type(mu)
         if hasattr(opt['GradWeight'], 'ndim'):
@@ -2679,10 +2679,16 @@ class ConvL1L1Grd(ConvBPDNMaskDcpl):
         else:
             self.Wgrd = np.asarray(opt['GradWeight'], dtype=self.dtype)
 
-        self.Gf, GHGf = gradient_filters(self.cri.dimN+3, self.cri.axisN,
-                                         self.cri.Nv, dtype=self.dtype)
+        cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
+        self.Gf, GHGf = gradient_filters(cri.dimN+3, cri.axisN, cri.Nv,
+                                         dtype=self.dtype)
         self.GHGf = self.Wgrd * GHGf
 
+        # Call parent class __init__ (after setting mu and GHGf since they
+        # are required in the setup of the linear solver)
+        super(ConvL1L1Grd, self).__init__(D, S, lmbda, W, opt, dimK=dimK,
+                                          dimN=dimN)
+
 
 
     def setdict(self, D=None):
-- 
2.43.0


From 958647edce4dc35effec55ae0464b0fd840bd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 08/68] fix: MinL1InL2Ball initialisation of U when only Y0 is
 given

Attribute S is used in method uinit, which is called by the base class
initialiser, so that it has to be set before it.
---
 sporco/admm/bpdn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 459ee9d..4092f7d 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -1061,6 +1061,13 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         Nm = S.shape[1]
         if opt is None:
             opt = MinL1InL2Ball.Options()
+
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
+
+        # Attribute S is required in the initialisation of U
+        self.S = np.asarray(S, dtype=self.dtype)
+
         super(MinL1InL2Ball, self).__init__(Nc * Nm, (Nc + Nr, Nm), 0, Nc,
                                             S.dtype, opt)
 
@@ -1068,7 +1075,6 @@ class MinL1InL2Ball(admm.ADMMTwoBlockCnstrnt):
         self.epsilon = self.dtype.type(epsilon)
         self.wl1 = np.asarray(opt['L1Weight'], dtype=self.dtype)
 
-        self.S = np.asarray(S, dtype=self.dtype)
         self.setdict(D)
 
 
-- 
2.43.0


From 29a1c9e28ad723d7c98849afdfc5fd16e1040541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 09/68] fix: SplineL1 initialisation of U when only Y0 is given

Attribute Wdf is used in method uinit, which is called by the base class
initialiser, so that it has to be set before it.
---
 sporco/admm/spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/spline.py b/sporco/admm/spline.py
index 6eb2df5..9ca99c0 100644
--- a/sporco/admm/spline.py
+++ b/sporco/admm/spline.py
@@ -154,11 +154,13 @@ class SplineL1(admm.ADMM):
         self.set_attr('rho', opt['rho'], dval=(2.0*self.lmbda + 0.1),
                       dtype=self.dtype)
 
+        # Attribute Wdf is required in the initialisation of U
+        self.Wdf = np.asarray(opt['DFidWeight'], dtype=self.dtype)
+
         Nx = S.size
         super(SplineL1, self).__init__(Nx, S.shape, S.shape, S.dtype, opt)
 
         self.S = np.asarray(S, dtype=self.dtype)
-        self.Wdf = np.asarray(self.opt['DFidWeight'], dtype=self.dtype)
 
         ashp = [1,] * S.ndim
         for ax in axes:
-- 
2.43.0


From 4757f8eeddcbaeda1ae36dad62b26c0a6f73dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:18 +0000
Subject: [PATCH 10/68] fix: ConvBPDNScalarTV y step

The TV term is a sum over coefficient maps and pixels of gradient
magnitudes, so the proximal operator must take the norm over the gradient
axis only, not over the entire array.
---
 sporco/admm/cbpdntv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 5981405..6baf958 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -316,7 +316,8 @@ class ConvBPDNScalarTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho)
+        self.Y[..., 0:-1] = sp.prox_l2(AXU[..., 0:-1], self.mu/self.rho,
+                                       axis=-1)
         self.Y[..., -1] = sp.prox_l1(AXU[..., -1],
                                      (self.lmbda/self.rho) * self.Wl1)
 
-- 
2.43.0


From 8e4b0af0ff3dff92fd6c6367bbf72950d6ea2426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:18 +0000
Subject: [PATCH 11/68] fix: ConvBPDNScalarTV x step with filter-dependent
 TVWeight

The diagonal of the linear system is not constant along the filter axis
in this case, so that solvedbd_sm is required.
---
 sporco/admm/cbpdntv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6baf958..7de7817 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -256,7 +256,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         if self.cri.Cd > 1:
             self.DSf = np.sum(self.DSf, axis=self.cri.axisC, keepdims=True)
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
         else:
@@ -268,7 +268,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         """Updated cached c array when rho changes."""
 
         if self.opt['HighMemSolve'] and self.cri.Cd == 1:
-            self.c = sl.solvedbi_sm_c(
+            self.c = sl.solvedbd_sm_c(
                 self.Df, np.conj(self.Df), self.rho*self.GHGf + self.rho,
                 self.cri.axisM)
 
@@ -287,7 +287,7 @@ class ConvBPDNScalarTV(admm.ADMM):
             np.conj(self.Gf) * YUf[..., 0:-1], axis=-1))
 
         if self.cri.Cd == 1:
-            self.Xf[:] = sl.solvedbi_sm(
+            self.Xf[:] = sl.solvedbd_sm(
                 self.Df, self.rho*self.GHGf + self.rho, b, self.c,
                 self.cri.axisM)
         else:
-- 
2.43.0


From 9f5a27bd0c404ab49c82ae0324e2b3e443949069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:18 +0000
Subject: [PATCH 12/68] fix: ConvBPDNScalarTV/VectorTV l1 term with array
 L1Weight

---
 sporco/admm/cbpdntv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 7de7817..6b71125 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -442,7 +442,7 @@ class ConvBPDNScalarTV(admm.ADMM):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()[..., 0]).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2, axis=-1)))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
 
@@ -722,7 +722,7 @@ class ConvBPDNVectorTV(ConvBPDNScalarTV):
         function.
         """
 
-        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()).ravel(), 1)
+        rl1 = np.linalg.norm((self.Wl1 * self.obfn_g1var()[..., 0]).ravel(), 1)
         rtv = np.sum(np.sqrt(np.sum(self.obfn_g0var()**2,
                                     axis=(self.cri.axisM, -1))))
         return (self.lmbda*rl1 + self.mu*rtv, rl1, rtv)
-- 
2.43.0


From 26b1343bb6a30601508df972b6dcbc767c68406c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:29 +0000
Subject: [PATCH 13/68] fix: ConvBPDNRecTV y step with multi-channel dictionary
 and multiple signals

block_sep1 is not able to construct a view of Y in this case, so that the
assignment to its output was lost.
---
 sporco/admm/cbpdntv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index 6b71125..ee7747f 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1101,10 +1101,11 @@ class ConvBPDNRecTV(admm.ADMM):
         :math:`\mathbf{y}`."""
 
         AXU = self.AX + self.U
-        self.block_sep0(self.Y)[:] = sp.prox_l1(
+        Y0 = sp.prox_l1(
             self.block_sep0(AXU), (self.lmbda/self.rho) * self.Wl1)
-        self.block_sep1(self.Y)[:] = sp.prox_l2(
+        Y1 = sp.prox_l2(
             self.block_sep1(AXU), self.mu/self.rho, axis=(self.cri.axisC, -1))
+        self.Y = self.block_cat(Y0, Y1)
 
 
 
-- 
2.43.0


From 6fcd5ec0b2a30c80cf576ed261f2baa966c67fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 14/68] fix: ConvBPDNRecTV dual residual with multi-channel
 dictionary

The adjoint of the constraint operator must sum over the channel axis.
---
 sporco/admm/cbpdntv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/cbpdntv.py b/sporco/admm/cbpdntv.py
index ee7747f..eb63114 100644
--- a/sporco/admm/cbpdntv.py
+++ b/sporco/admm/cbpdntv.py
@@ -1281,8 +1281,10 @@ class ConvBPDNRecTV(admm.ADMM):
         """
 
         Y1f = rfftn(Y1, None, axes=self.cri.axisN)
-        return irfftn(np.conj(self.GDf) * Y1f, self.cri.Nv,
-                      self.cri.axisN)
+        X1f = np.conj(self.GDf) * Y1f
+        if self.cri.Cd > 1:
+            X1f = np.sum(X1f, axis=self.cri.axisC, keepdims=True)
+        return irfftn(X1f, self.cri.Nv, self.cri.axisN)
 
 
 
-- 
2.43.0


From 7e0988b7ceb69c1c6e4913322326f83e1d991f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:53 +0000
Subject: [PATCH 15/68] fix: gradient_filters for axes other than the leading
 ones

Also allow the documented default value of the dtype parameter.
---
 sporco/signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 802b091..0b7c1dc 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -226,11 +226,11 @@ def gradient_filters(ndim, axes, axshp, dtype=None):
     """
 
     if dtype is None:
-        dtype = np.float32
+        dtype = np.dtype(np.float32)
     g = np.zeros([2 if k in axes else 1 for k in range(ndim)] +
                  [len(axes),], dtype)
-    for k in axes:
-        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (k,)] = \
+    for i, k in enumerate(axes):
+        g[(0,) * k + (slice(None),) + (0,) * (g.ndim - 2 - k) + (i,)] = \
             np.array([1, -1])
     if is_complex_dtype(dtype):
         Gf = fftn(g, axshp, axes=axes)
-- 
2.43.0


From d87ac05037c6c6372473de080a6e64093017df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:00 +0000
Subject: [PATCH 16/68] fix: TVL1Denoise and TVL2Denoise with axes other than
 the leading ones

---
 sporco/admm/tvl1.py | 3 ++-
 sporco/admm/tvl2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/tvl1.py b/sporco/admm/tvl1.py
index 5380f68..004fb1d 100644
--- a/sporco/admm/tvl1.py
+++ b/sporco/admm/tvl1.py
@@ -333,7 +333,8 @@ class TVL1Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes] +
+            [gradT(X[..., i], ax)[..., np.newaxis]
+             for i, ax in enumerate(self.axes)] +
             [X[..., -1:],], axis=X.ndim-1), axis=X.ndim-1)
 
 
diff --git a/sporco/admm/tvl2.py b/sporco/admm/tvl2.py
index 348fb36..15aba8f 100644
--- a/sporco/admm/tvl2.py
+++ b/sporco/admm/tvl2.py
@@ -323,7 +323,8 @@ class TVL2Denoise(admm.ADMM):
         """
 
         return np.sum(np.concatenate(
-            [gradT(X[..., ax], ax)[..., np.newaxis] for ax in self.axes],
+            [gradT(X[..., i], ax)[..., np.newaxis]
+             for i, ax in enumerate(self.axes)],
             axis=X.ndim-1), axis=X.ndim-1)
 
 
-- 
2.43.0


From 75bda2578fbf98cfa0e24566f040fe232932ed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:54 +0000
Subject: [PATCH 17/68] fix: ConvProdDictL1L1Grd ignores options Y0 and U0

Also correct the number of constraints used in the stopping criteria.
---
 sporco/admm/pdcsc.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 90ecec5..c517e35 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -398,12 +398,23 @@ class ConvProdDictL1L1Grd(cbpdn.ConvL1L1Grd):
         self.y0I = int(np.prod(np.array(self.y0shp[self.cri.axisC:])))
         self.y1I = int(np.prod(np.array(self.y1shp[self.cri.axisC:])))
         self.yshp = self.cri.shpX[0:self.cri.axisC:] + (self.y0I + self.y1I,)
-        self.Y = np.zeros(self.yshp, dtype=self.dtype)
-        self.U = np.zeros(self.yshp, dtype=self.dtype)
+        if self.opt['Y0'] is None:
+            self.Y = self.yinit(self.yshp)
+        self.Yprev = self.Y.copy()
+        if self.opt['U0'] is None:
+            self.U = self.uinit(self.yshp)
+        self.Nc = np.prod(np.array(self.yshp))
         self.YU = empty_aligned(self.Y.shape, dtype=self.dtype)
 
 
 
+    def uinit(self, ushape):
+        """Return initialiser for working variable U."""
+
+        return np.zeros(ushape, dtype=self.dtype)
+
+
+
     def block_sep0(self, Y):
         r"""Separate variable into component corresponding to
         :math:`\mathbf{y}_0` in :math:`\mathbf{y}\;\;`.
-- 
2.43.0


From 2320a848cff69dbc96e7ffadc8a8e85654d1275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:54 +0000
Subject: [PATCH 18/68] fix: ConvProdDictL1L1GrdJoint with default options

---
 sporco/admm/pdcsc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index c517e35..b8fc8a6 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -683,6 +683,8 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
           Number of spatial dimensions
         """
 
+        if opt is None:
+            opt = ConvProdDictL1L1GrdJoint.Options()
         super(ConvProdDictL1L1GrdJoint, self).__init__(D, B, S, lmbda, mu,
                                             opt=opt, dimK=dimK, dimN=dimN)
         self.wl21 = np.asarray(opt['L21Weight'], dtype=self.dtype)
-- 
2.43.0


From 5a3d350d94e7c76cf3c1afdca6b1742e7e8683e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:54 +0000
Subject: [PATCH 19/68] fix: ConvProdDictBPDN.setdict with a new B only

---
 sporco/admm/pdcsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index b8fc8a6..287d53e 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -116,6 +116,7 @@ class ConvProdDictBPDN(cbpdn.ConvBPDN):
         if D is not None or not hasattr(self, 'Df'):
             self.Df = rfftn(self.D, self.cri.Nv, self.cri.axisN)
             self.DSf = np.conj(self.Df) * self.Sf
+        if D is not None or B is not None or not hasattr(self, 'DSfBQ'):
             self.DSfBQ = dot(self.B.dot(self.Q).T, self.DSf,
                              axis=self.cri.axisC)
 
-- 
2.43.0


From f090091b456b76d3ee79db5b93d2dd19bd632245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:54 +0000
Subject: [PATCH 20/68] fix: ConvCnstrMODMaskDcpl_Consensus rescale of U1 on
 rho change

---
 sporco/admm/ccmodmd.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 7bf82bb..9db1588 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -967,6 +967,18 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
 
 
 
+    def update_rho(self, k, r, s):
+        """Extend base class method to also rescale the scaled dual
+        variable of the additional constraint.
+        """
+
+        rho = self.rho
+        super(ConvCnstrMODMaskDcpl_Consensus, self).update_rho(k, r, s)
+        if self.rho != rho:
+            self.U1 /= self.rho / rho
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W \left( \sum_m
         \mathbf{d}_m * \mathbf{x}_m - \mathbf{s} \right) \|_2^2`.
-- 
2.43.0


From 88cffe02d71b331e4ed884bc5ff69fd45b6b1839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:25 +0000
Subject: [PATCH 21/68] fix: zero-mean dictionary constraint for dimN other
 than 2

---
 sporco/cnvrep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index f0ec3f3..18b97f5 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -1008,7 +1008,8 @@ def _Pcn_zm(x, dsz, Nv, dimN=2, dimC=1):
       Projection of input onto constraint set
     """
 
-    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz), dimN + dimC)
+    return normalise(zeromean(zpad(bcrop(x, dsz, dimN), Nv), dsz, dimN),
+                     dimN + dimC)
 
 
 
-- 
2.43.0


From 0807d2159e5a99aaa090c842d36463c9f1e2a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:25 +0000
Subject: [PATCH 22/68] fix: AddMaskSim with a mask shared between channels or
 signals

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index f50ae02..7994de2 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2414,7 +2414,7 @@ class AddMaskSim(object):
         self.inner_ystep()
         # Apply mask to AMS component and insert into Y from inner
         # cbpdn object
-        Yi[np.where(self.W.astype(bool))] = 0.0
+        Yi[np.broadcast_to(self.W.astype(bool), Yi.shape)] = 0.0
         self.cbpdn.Y[amidx] = Yi
 
 
-- 
2.43.0


From 1f20f60fe3675c641a4f0187c7a8afb90250a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:11 +0000
Subject: [PATCH 23/68] fix: size of x in ConvTwoBlockCnstrnt with a
 multi-channel coefficient array

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 7994de2..4907567 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -1587,7 +1587,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
         self.y0swapaxes = bool(self.cri.C > 1 and self.cri.Cd > 1)
 
         # Call parent class __init__
-        Nx = self.cri.M * self.cri.N * self.cri.K
+        Nx = np.prod(np.array(self.cri.shpX))
         shpY = list(self.cri.shpX)
         if self.y0swapaxes:
             shpY[self.cri.axisC] = 1
-- 
2.43.0


From 4221d1e53fa2d02c03ec4e4cdbb7c27618a4e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:11 +0000
Subject: [PATCH 24/68] fix: undefined name in MultiDictConvBPDN.reconstruct

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 4907567..698f05b 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2931,7 +2931,7 @@ class MultiDictConvBPDN(object):
 
         if X is None:
             X = self.getcoef()
-        Xf = rfftn(X, None, self.cbpdn.cri.axisN)
+        Xf = self.cbpdn.fftn(X, None, self.cbpdn.cri.axisN)
         slc = (slice(None),)*self.dimN + \
               (slice(self.chncs[b], self.chncs[b+1]),)
         Sf = np.sum(self.cbpdn.Df[slc] * Xf, axis=self.cbpdn.cri.axisM)
-- 
2.43.0


From 89febbcaf06328d1c4f526d05b8edeb6be738d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:30 +0000
Subject: [PATCH 25/68] fix: MultiDictConvBPDN with multi-channel dictionaries
 and signals

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 698f05b..11e7f97 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2884,7 +2884,7 @@ class MultiDictConvBPDN(object):
         # Construct single signal array (this is simpler since all
         # members of the signal set are assumed to be of the same
         # size)
-        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN+dimC)
+        Sm = np.concatenate([S[b][slc0] for b in range(0, len(S))], dimN)
 
         # Construct inner cbpdn object
         self.cbpdn = cbpdnclass(Dm, Sm, *args, **kwargs)
-- 
2.43.0


From 31e9515aaa155c8686c90716f5e3af386b103c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:31 +0000
Subject: [PATCH 26/68] fix: ndto2d with all axes of the array selected

---
 sporco/prox/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/prox/_util.py b/sporco/prox/_util.py
index 16cacf4..5bade11 100644
--- a/sporco/prox/_util.py
+++ b/sporco/prox/_util.py
@@ -60,7 +60,7 @@ def ndto2d(x, axis=-1):
     # Reshape into a 2D array with the axes specified by the axis
     # parameter flattened into an index along rows, and the remaining
     # axes flattened into an index along the columns
-    xtr = xt.reshape((np.prod(xts[0:len(caxis)]), -1))
+    xtr = xt.reshape((int(np.prod(xts[0:len(caxis)])), -1))
     # Return reshaped array and a tuple containing the information
     # necessary to undo the entire operation
     return xtr, (xts, prm)
-- 
2.43.0


From f7a76761802a6aca5e4c5d541ea86499590561fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:43 +0000
Subject: [PATCH 27/68] fix: prox_l1 of a complex array with zero entries

---
 sporco/prox/_lp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/prox/_lp.py b/sporco/prox/_lp.py
index 1df8802..0c61fa7 100644
--- a/sporco/prox/_lp.py
+++ b/sporco/prox/_lp.py
@@ -180,7 +180,8 @@ def prox_l1(v, alpha):
         else:
             return np.sign(v) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
     else:
-        return (v / np.abs(v)) * (np.clip(np.abs(v) - alpha, 0, float('Inf')))
+        return zdivide(v, np.abs(v)) * \
+            (np.clip(np.abs(v) - alpha, 0, float('Inf')))
 
 
 
-- 
2.43.0


From e8aff17f52caa19b6f0499256ef1046f980b0b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:40 +0000
Subject: [PATCH 28/68] fix: PGMDFT option Monotone reverts both
 representations of X

---
 sporco/pgm/pgm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0f25ea5..d3f98de 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -806,6 +806,7 @@ class PGMDFT(PGM):
                 # If increment on objective function
                 # revert to previous iterate
                 self.Xf = self.Xfprv.copy()
+                self.X[:] = self.Xprv
                 self.objfn = self.objfn_prev
 
         return gradf
@@ -841,6 +842,7 @@ class PGMDFT(PGM):
             self.Yfprv = self.Yf.copy()
 
         if self.opt['Monotone']:
+            self.Xprv = self.X.copy()
             if self.k == 0:
                 self.objfn = self.eval_objfn()
             self.objfn_prev = self.objfn
-- 
2.43.0


From c3d03733e4062d865451ab0285e18b8bfb332a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:40 +0000
Subject: [PATCH 29/68] fix: reconstruct methods of pgm.bpdn.BPDN and
 pgm.cmod.CnstrMOD

---
 sporco/pgm/bpdn.py | 2 +-
 sporco/pgm/cmod.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 7b5f8e4..08844f6 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -239,7 +239,7 @@ class BPDN(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return self.D.dot(X)
 
 
 
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index db89512..c6f9894 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -229,7 +229,7 @@ class CnstrMOD(pgm.PGM):
 
         if X is None:
             X = self.X
-        return self.D.dot(self.X)
+        return X.dot(self.Z)
 
 
 
-- 
2.43.0


From 220669f01bda8e2f7780129518c36db84d9cf529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:40 +0000
Subject: [PATCH 30/68] fix: Hessian of the weighted data fidelity terms of the
 PGM solvers

---
 sporco/pgm/bpdn.py  |  7 +++++++
 sporco/pgm/cbpdn.py | 16 ++++++++++++++++
 sporco/pgm/ccmod.py | 16 ++++++++++++++++
 sporco/pgm/cmod.py  |  7 +++++++
 4 files changed, 46 insertions(+)

diff --git a/sporco/pgm/bpdn.py b/sporco/pgm/bpdn.py
index 08844f6..ef99126 100644
--- a/sporco/pgm/bpdn.py
+++ b/sporco/pgm/bpdn.py
@@ -359,6 +359,13 @@ class WeightedBPDN(BPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return self.D.T.dot(self.W * self.D.dot(V))
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 95a9d73..f3abd35 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -478,6 +478,22 @@ class ConvBPDNMask(ConvBPDN):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        DVf = inner(self.Df, V, axis=self.cri.axisM)
+        DV = irfftn(DVf, self.cri.Nv, self.cri.axisN)
+        WDVf = rfftn(self.W**2 * DV, self.cri.Nv, self.cri.axisN)
+        hessfv = np.conj(self.Df) * WDVf
+
+        # Multiple channel signal, multiple channel dictionary
+        if self.cri.Cd > 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{m} - \mathbf{s}) \|_2^2`
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index 2059b28..f4c8c13 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -576,6 +576,22 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        ZVf = inner(self.Zf, V, axis=self.cri.axisM)
+        ZV = irfftn(ZVf, self.cri.Nv, self.cri.axisN)
+        WZVf = rfftn(self.W**2 * ZV, self.cri.Nv, self.cri.axisN)
+        hessfv = inner(np.conj(self.Zf), WZVf, axis=self.cri.axisK)
+
+        # Multiple channel signal, single channel dictionary
+        if self.cri.C > 1 and self.cri.Cd == 1:
+            hessfv = np.sum(hessfv, axis=self.cri.axisC, keepdims=True)
+
+        return hessfv
+
+
+
     def obfn_dfd(self):
         r"""Compute data fidelity term :math:`(1/2) \sum_k \| W (\sum_m
         \mathbf{d}_m * \mathbf{x}_{k,m} - \mathbf{s}_k) \|_2^2`
diff --git a/sporco/pgm/cmod.py b/sporco/pgm/cmod.py
index c6f9894..2178d73 100644
--- a/sporco/pgm/cmod.py
+++ b/sporco/pgm/cmod.py
@@ -325,6 +325,13 @@ class WeightedCnstrMOD(CnstrMOD):
 
 
 
+    def hessian_f(self, V):
+        """Compute Hessian of :math:`f` applied to V."""
+
+        return (self.W * V.dot(self.Z)).dot(self.Z.T)
+
+
+
     def obfn_f(self, X=None):
         r"""Compute data fidelity term :math:`(1/2) \| D \mathbf{x} -
         \mathbf{s} \|_W^2`.
-- 
2.43.0


From 8e1f0dc4d8c22fae10b910e0a6680fc375317336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:40 +0000
Subject: [PATCH 31/68] fix: state of PGM step size and backtracking policies
 shared via options object

---
 sporco/pgm/pgm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index d3f98de..956a9a9 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -243,7 +243,7 @@ class PGM(IterativeSolver):
 
         # Configure policy for step size
         # Step size policy is turned off if Backtrack is enabled
-        self.stepsizepolicy = self.opt['StepSizePolicy']
+        self.stepsizepolicy = copy.deepcopy(self.opt['StepSizePolicy'])
         if self.opt['Backtrack'] is not None:
             self.stepsizepolicy = None
 
@@ -264,7 +264,7 @@ class PGM(IterativeSolver):
         self.F = None
         self.Q = None
         self.iterBTrack = None
-        self.backtrack = self.opt['Backtrack']
+        self.backtrack = copy.deepcopy(self.opt['Backtrack'])
 
         self.Y = None
 
-- 
2.43.0


From 028e7912a6c731988f99a681fd665dc3d5612ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 32/68] fix: objective function value of the first iteration
 with PGM option Monotone

---
 sporco/pgm/pgm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 956a9a9..c98bf53 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -418,6 +418,8 @@ class PGM(IterativeSolver):
                 # revert to previous iterate
                 self.X = self.Xprv.copy()
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return grad
 
@@ -808,6 +810,8 @@ class PGMDFT(PGM):
                 self.Xf = self.Xfprv.copy()
                 self.X[:] = self.Xprv
                 self.objfn = self.objfn_prev
+        elif self.opt['Monotone']:
+            self.objfn = self.eval_objfn()
 
         return gradf
 
-- 
2.43.0


From 557a907e6c50bba52ca5da1b0625e3a28feaa429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:08 +0000
Subject: [PATCH 33/68] fix: solve with MaxMainIter of zero increments the
 iteration count

---
 sporco/admm/admm.py         | 3 ++-
 sporco/admm/parcbpdn.py     | 3 ++-
 sporco/dictlrn/dictlrn.py   | 3 ++-
 sporco/dictlrn/prlcnscdl.py | 6 ++++--
 sporco/pgm/pgm.py           | 3 ++-
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index babe48c..d8fb17d 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -378,7 +378,8 @@ class ADMM(common.IterativeSolver):
 
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index f8ff768..60d0db2 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -819,7 +819,8 @@ class ParConvBPDN(GenericConvBPDN):
                     break
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
diff --git a/sporco/dictlrn/dictlrn.py b/sporco/dictlrn/dictlrn.py
index 6f27a3a..670d1df 100644
--- a/sporco/dictlrn/dictlrn.py
+++ b/sporco/dictlrn/dictlrn.py
@@ -362,7 +362,8 @@ class DictLearn(with_metaclass(_DictLearn_Meta, object)):
 
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/dictlrn/prlcnscdl.py b/sporco/dictlrn/prlcnscdl.py
index 913beee..45eeb9b 100644
--- a/sporco/dictlrn/prlcnscdl.py
+++ b/sporco/dictlrn/prlcnscdl.py
@@ -585,7 +585,8 @@ class ConvBPDNDictLearn_Consensus(cbpdndl.ConvBPDNDictLearn):
             self.pool.join()
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
@@ -1151,7 +1152,8 @@ class ConvBPDNMaskDcplDictLearn_Consensus(cbpdndlmd.ConvBPDNMaskDictLearn):
             self.pool.join()
 
         # Increment iteration count
-        self.j += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.j += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_eval'])
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index c98bf53..972fcfd 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -370,7 +370,8 @@ class PGM(IterativeSolver):
                     break
 
         # Increment iteration count
-        self.k += 1
+        if self.opt['MaxMainIter'] > 0:
+            self.k += 1
 
         # Record solve time
         self.timer.stop(['solve', 'solve_wo_func', 'solve_wo_rsdl',
-- 
2.43.0


From 2e34169128e0ac681e925190b4149f1da36f0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:04 +0000
Subject: [PATCH 34/68] fix: solve_symmetric_sylvester with indefinite matrices

---
 sporco/linalg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/linalg.py b/sporco/linalg.py
index a274522..3d8ed0b 100644
--- a/sporco/linalg.py
+++ b/sporco/linalg.py
@@ -851,7 +851,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaA, QA = A, None
         else:
             LambdaA, QA = np.linalg.eigh(A)
-            LambdaA = np.abs(LambdaA)
     if LambdaA.ndim == 1:
         LambdaA = LambdaA[:, np.newaxis]
     if isinstance(B, tuple) and len(B) == 2:
@@ -862,7 +861,6 @@ def solve_symmetric_sylvester(A, B, C, alpha):
             LambdaB, QB = B, None
         else:
             LambdaB, QB = np.linalg.eigh(B)
-            LambdaB = np.abs(LambdaB)
     if LambdaB.ndim == 1:
         LambdaB = LambdaB[np.newaxis]
 
-- 
2.43.0


From 5ff3387be384f341fdac76934977831e7b39ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:26 +0000
Subject: [PATCH 35/68] fix: ifftn of a real array without pyfftw

---
 sporco/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/fft.py b/sporco/fft.py
index ab1ed28..f95b404 100644
--- a/sporco/fft.py
+++ b/sporco/fft.py
@@ -624,7 +624,7 @@ if not have_pyfftw:
     fftn = _fftn
 
     def _ifftn(a, s=None, axes=None):
-        return  npfft.ifftn(a, s, axes).astype(a.dtype)
+        return npfft.ifftn(a, s, axes).astype(complex_dtype(a.dtype))
     _ifftn.__doc__ = ifftn.__doc__
     ifftn = _ifftn
 
-- 
2.43.0


From c206e0e66b894f00b54ff90af28165da443a5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:30 +0000
Subject: [PATCH 36/68] fix: shape of L1Weight arrays with a signal axis but no
 channel axis

---
 sporco/cnvrep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sporco/cnvrep.py b/sporco/cnvrep.py
index 18b97f5..dd797a9 100644
--- a/sporco/cnvrep.py
+++ b/sporco/cnvrep.py
@@ -535,7 +535,8 @@ def l1Wshape(W, cri):
                              'the same number of dimensions as input array')
     elif W.ndim == sdim:
         # Weight array has the same number of dimensions as the input array
-        shpW = W.shape + (1,) * (3 - cri.dimC - cri.dimK)
+        shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+            W.shape[cri.dimN:] + (1,) * (1 - cri.dimK) + (1,)
     else:
         # Weight array has more dimensions than the input array
         if W.ndim == cri.dimN + 3:
@@ -544,8 +545,8 @@ def l1Wshape(W, cri):
         else:
             # Assume that the final axis in the input array is the filter
             # index
-            shpW = W.shape[0:-1] + (1,) * (2 - cri.dimC - cri.dimK) + \
-                W.shape[-1:]
+            shpW = W.shape[0:cri.dimN] + (1,) * (1 - cri.dimC) + \
+                W.shape[cri.dimN:-1] + (1,) * (1 - cri.dimK) + W.shape[-1:]
 
     return shpW
 
-- 
2.43.0


From d094e329424aefd8299c2065065bc038654806bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 37/68] fix: ParConvBPDN x step with a multi-channel dictionary

The channel count was used as the index of the channel axis.
---
 sporco/admm/parcbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 60d0db2..0b52faa 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -151,7 +151,7 @@ def par_xstep(i):
                             mp_cache[i], axis=mp_axisM)
     else:
         b = sl.inner(np.conj(mp_Df[mp_grp[i]:mp_grp[i+1]]), YU0f,
-                     axis=mp_C) + mp_alpha**2*YU1f
+                     axis=mp_axisC) + mp_alpha**2*YU1f
         Xf = sl.solvemdbi_ism(mp_Df[mp_grp[i]:mp_grp[i+1]], mp_alpha**2, b,
                               mp_axisM, mp_axisC)
     mp_X[mp_grp[i]:mp_grp[i+1]] = irfftn(Xf, mp_Nv,
-- 
2.43.0


From c6219b8d0e9aea744198f61dfd7b10daf093a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 38/68] fix: ParConvBPDN options Y0, Y1, U0, and U1

The initial values were stored under the wrong global names, and the
shape of X was taken from Y0.
---
 sporco/admm/parcbpdn.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 0b52faa..099689d 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -638,7 +638,8 @@ class ParConvBPDN(GenericConvBPDN):
         global mp_Df
         init_mpraw('mp_Df', np.moveaxis(self.Df, self.cri.axisM, mp_axisM))
         global mp_X
-        init_mpraw('mp_X', np.moveaxis(self.Y, self.cri.axisM, mp_axisM))
+        init_mpraw('mp_X', np.moveaxis(np.zeros(self.cri.shpX, self.dtype),
+                                       self.cri.axisM, mp_axisM))
         shp_X = list(mp_X.shape)
         global mp_Xnr
         mp_Xnr = mpraw_as_np(mp_X.shape, mp_X.dtype)
@@ -647,7 +648,7 @@ class ParConvBPDN(GenericConvBPDN):
         shp_Y0[0] = self.ngrp
         shp_Y0[mp_axisC] = mp_C
         if self.opt['Y0'] is not None:
-            init_mpraw('Y0', np.moveaxis(
+            init_mpraw('mp_Y0', np.moveaxis(
                 self.opt['Y0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -656,7 +657,7 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y0old = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_Y1
         if self.opt['Y1'] is not None:
-            init_mpraw('Y1', np.moveaxis(
+            init_mpraw('mp_Y1', np.moveaxis(
                 self.opt['Y1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
@@ -665,14 +666,14 @@ class ParConvBPDN(GenericConvBPDN):
         mp_Y1old = mpraw_as_np(shp_X, mp_X.dtype)
         global mp_U0
         if self.opt['U0'] is not None:
-            init_mpraw('U0', np.moveaxis(
+            init_mpraw('mp_U0', np.moveaxis(
                 self.opt['U0'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
             mp_U0 = mpraw_as_np(shp_Y0, mp_X.dtype)
         global mp_U1
         if self.opt['U1'] is not None:
-            init_mpraw('U1', np.moveaxis(
+            init_mpraw('mp_U1', np.moveaxis(
                 self.opt['U1'].astype(self.dtype, copy=True),
                 self.cri.axisM, mp_axisM))
         else:
-- 
2.43.0


From 5f704795a950baad17b0d8c491a3020e55a16520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 39/68] fix: ParConvBPDN residuals and X belong to the current
 iteration

The x step of the next iteration was merged into all but the last
iteration of a call, so that the residuals, functional values, and X after
termination by callback or tolerances mixed two iterations, and the tests
for the first and last iteration compared integers by identity.
---
 sporco/admm/parcbpdn.py | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 099689d..a397ff5 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -265,9 +265,8 @@ def par_u1step(i):
 
 
 def par_initial_stepgrp(i):
-    """The parallel step grouping of the initial iteration in solve. A
-    cyclic permutation of the steps is done to require only one merge
-    per iteration, requiring unique initial and final step groups.
+    """The parallel step grouping of each iteration in solve that
+    precedes the serial component :func:`y0astep`.
 
     Parameters
     ----------
@@ -280,27 +279,9 @@ def par_initial_stepgrp(i):
 
 
 
-def par_stepgrp(i):
-    """The parallel step grouping of internal (not initial or final)
-    iterations in solve. A cyclic permutation of the steps is done to
-    require only one merge per iteration, requiring unique initial and
-    final step groups.
-
-    Parameters
-    ----------
-    i : int
-      Index of grouping to update
-    """
-
-    par_final_stepgrp(i)
-    par_initial_stepgrp(i)
-
-
-
 def par_final_stepgrp(i):
-    """The parallel step grouping of the final iteration in solve. A
-    cyclic permutation of the steps is done to require only one merge
-    per iteration, requiring unique initial and final step groups.
+    """The parallel step grouping of each iteration in solve that
+    follows the serial component :func:`y0astep`.
 
     Parameters
     ----------
@@ -764,21 +745,15 @@ class ParConvBPDN(GenericConvBPDN):
         # Start solve timer
         self.timer.start(['solve', 'solve_wo_func', 'solve_wo_rsdl'])
 
-        first_iteration = self.k
-        last_iteration = self.k + self.opt['MaxMainIter'] - 1
         # Main optimisation iterations
         for self.k in range(self.k, self.k + self.opt['MaxMainIter']):
             mp_Y0old[:] = np.copy(mp_Y0)
             mp_Y1old[:] = np.copy(mp_Y1)
 
             # Perform the variable updates.
-            if self.k is first_iteration:
-                self.distribute(par_initial_stepgrp, mp_ngrp)
+            self.distribute(par_initial_stepgrp, mp_ngrp)
             y0astep()
-            if self.k is last_iteration:
-                self.distribute(par_final_stepgrp, mp_ngrp)
-            else:
-                self.distribute(par_stepgrp, mp_ngrp)
+            self.distribute(par_final_stepgrp, mp_ngrp)
 
             # Compute the residual variables
             self.timer.stop('solve_wo_rsdl')
-- 
2.43.0


From 858f88dc7308b268653fb06a65521a5720fb5c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:50 +0000
Subject: [PATCH 40/68] fix: ParConvBPDN X is not the relaxed X

---
 sporco/admm/parcbpdn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index a397ff5..3e5d69e 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -805,7 +805,7 @@ class ParConvBPDN(GenericConvBPDN):
         self.display_end(nsep)
 
         self.Y = np.moveaxis(mp_Y1, mp_axisM, self.cri.axisM)
-        self.X = np.moveaxis(mp_X, mp_axisM, self.cri.axisM)
+        self.X = np.moveaxis(mp_Xnr, mp_axisM, self.cri.axisM)
 
         self.terminate_pool()
 
@@ -862,7 +862,7 @@ class ParConvBPDN(GenericConvBPDN):
         depending on the ``gEvalY`` option value.
         """
 
-        return mp_Y1 if self.opt['gEvalY'] else mp_X
+        return mp_Y1 if self.opt['gEvalY'] else mp_Xnr
 
 
 
@@ -870,7 +870,7 @@ class ParConvBPDN(GenericConvBPDN):
         """Variable to be evaluated in computing :meth:`ADMM.obfn_f`,
         depending on the ``fEvalX`` option value.
         """
-        return mp_X if self.opt['fEvalX'] else mp_Y1
+        return mp_Xnr if self.opt['fEvalX'] else mp_Y1
 
 
 
-- 
2.43.0


From b836730b6119e1313aa9933d63a9792b02e7d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:23 +0000
Subject: [PATCH 41/68] fix: option NoBndryCross with filters of unit size
 along an axis

The slice of boundary samples selected the whole axis instead of none of
it.
---
 sporco/admm/cbpdn.py    | 4 ++--
 sporco/admm/parcbpdn.py | 2 +-
 sporco/pgm/cbpdn.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 11e7f97..da332c4 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -308,7 +308,7 @@ class GenericConvBPDN(admm.ADMMEqual):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 self.Y[(slice(None),) * n +
-                       (slice(1 - self.D.shape[n], None),)] = 0.0
+                       (slice(self.cri.Nv[n] + 1 - self.D.shape[n], None),)] = 0.0
 
 
 
@@ -1678,7 +1678,7 @@ class ConvTwoBlockCnstrnt(admm.ADMMTwoBlockCnstrnt):
             if self.opt['NoBndryCross']:
                 for n in range(0, self.cri.dimN):
                     Y1[(slice(None),)*n +
-                       (slice(1-self.D.shape[n], None),)] = 0.0
+                       (slice(self.cri.Nv[n] + 1 - self.D.shape[n], None),)] = 0.0
             self.block_sep1(self.Y)[:] = Y1
 
 
diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 3e5d69e..0ad79c0 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -229,7 +229,7 @@ def par_y1step(i):
     if mp_NoBndryCross:
         for n in range(len(mp_Nv)):
             Y1[(slice(None),) + (slice(None),)*n +
-               (slice(1-mp_Dshp[n], None),)] = 0.0
+               (slice(mp_Nv[n]+1-mp_Dshp[n], None),)] = 0.0
     mp_Y1[mp_grp[i]:mp_grp[i+1]] = Y1
 
 
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index f3abd35..6fcd4f3 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -294,7 +294,7 @@ class ConvBPDN(pgm.PGMDFT):
         if self.opt['NoBndryCross']:
             for n in range(0, self.cri.dimN):
                 U[(slice(None),) * n +
-                  (slice(1 - self.D.shape[n], None),)] = 0.0
+                  (slice(self.cri.Nv[n] + 1 - self.D.shape[n], None),)] = 0.0
         return U
 
 
-- 
2.43.0


From 3933cdfe61fc845b0c89d3e8ab6c8ff7f9c857b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 42/68] fix: option AccurateDFid ignored the l1 weights

The l1 term and objective function computed when AccurateDFid is True
did not include the L1Weight array, so that they were not those of the
problem being solved, and not comparable with the values reported when
AccurateDFid is False.
---
 sporco/dictlrn/bpdndl.py    | 2 +-
 sporco/dictlrn/cbpdndl.py   | 2 +-
 sporco/dictlrn/cbpdndlmd.py | 2 +-
 sporco/dictlrn/wbpdndl.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sporco/dictlrn/bpdndl.py b/sporco/dictlrn/bpdndl.py
index fc6d67b..06bf2b4 100644
--- a/sporco/dictlrn/bpdndl.py
+++ b/sporco/dictlrn/bpdndl.py
@@ -200,7 +200,7 @@ class BPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_y()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm((D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
diff --git a/sporco/dictlrn/cbpdndl.py b/sporco/dictlrn/cbpdndl.py
index 33eacd9..421bf77 100644
--- a/sporco/dictlrn/cbpdndl.py
+++ b/sporco/dictlrn/cbpdndl.py
@@ -517,7 +517,7 @@ class ConvBPDNDictLearn(dictlrn.DictLearn):
             Ef = inner(Df, Xf, axis=self.xstep.cri.axisM) - Sf
             dfd = rfl2norm2(Ef, self.xstep.S.shape,
                             axis=self.xstep.cri.axisN) / 2.0
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index a5b4b07..4832f87 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -533,7 +533,7 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
                 X = self.xstep.getcoef()
             else:
                 X = self.xstep.var_y1()
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1,
                         ObjFun=dfd + self.xstep.lmbda * rl1)
         else:
diff --git a/sporco/dictlrn/wbpdndl.py b/sporco/dictlrn/wbpdndl.py
index 27b34e2..148780f 100644
--- a/sporco/dictlrn/wbpdndl.py
+++ b/sporco/dictlrn/wbpdndl.py
@@ -204,7 +204,7 @@ class WeightedBPDNDictLearn(dictlrn.DictLearn):
             X = self.xstep.var_x()
             S = self.xstep.S
             dfd = 0.5*np.linalg.norm(np.sqrt(self.W) * (D.dot(X) - S))**2
-            rl1 = np.sum(np.abs(X))
+            rl1 = np.sum(np.abs(self.xstep.wl1 * X))
             return dict(DFid=dfd, RegL1=rl1, ObjFun=dfd+self.xstep.lmbda*rl1)
         else:
             return None
-- 
2.43.0


From b66e5424c501dcaf1687726bacf70f79fc026634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:18 +0000
Subject: [PATCH 43/68] fix: mask layout in ConvBPDNMaskDictLearn with a PGM
 dictionary update

The mask was passed to the PGM dictionary update, which requires an
array with internal data layout, without being reshaped, so that masks
with a channel or signal axis raised an exception or were misapplied.
---
 sporco/dictlrn/cbpdndlmd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sporco/dictlrn/cbpdndlmd.py b/sporco/dictlrn/cbpdndlmd.py
index 4832f87..943417b 100644
--- a/sporco/dictlrn/cbpdndlmd.py
+++ b/sporco/dictlrn/cbpdndlmd.py
@@ -481,6 +481,10 @@ class ConvBPDNMaskDictLearn(dictlrn.DictLearn):
         xstep = ConvBPDNMask(D0, S, lmbda, W, opt['CBPDN'], method=xmethod,
                              dimK=dimK, dimN=dimN)
 
+        # The PGM dictionary update takes a mask with internal data layout
+        if dmethod == 'pgm':
+            W = W.reshape(cr.mskWshape(W, cri))
+
         # Create D update object
         dstep = ConvCnstrMODMask(None, S, W, dsz, opt['CCMOD'],
                                  method=dmethod, dimK=dimK, dimN=dimN)
-- 
2.43.0


From 1af886a2023cf807af4034e17272bb9e4968935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 44/68] fix: online dictionary learning with varying signal
 counts

The problem dimensions were only updated when the spatial size of the
training data changed. When only the number of signals or channels
changed, an exception was raised or, on going from several signals to a
single one, the coefficients were replicated and the gradient was wrong.
---
 sporco/dictlrn/onlinecdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index f17a802..a456fc7 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -245,9 +245,9 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """Initalise variables required for sparse coding and dictionary
         update for training data `S`."""
 
-        Nv = S.shape[0:self.dimN]
-        if self.cri is None or Nv != self.cri.Nv:
-            self.cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        cri = CDU_ConvRepIndexing(self.dsz, S, dimK, self.dimN)
+        if self.cri is None or cri.shpS != self.cri.shpS:
+            self.cri = cri
             if self.opt['CUDA_CBPDN']:
                 if self.cri.Cd > 1 or self.cri.Cx > 1:
                     raise ValueError('CUDA CBPDN solver can only be used for '
-- 
2.43.0


From b271cd60cbc3481023783e13966f67ba38e6f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 45/68] fix: online dictionary learning with a single-channel
 dictionary

With a single-channel dictionary and a multi-channel signal the channel
axis of the coefficient maps was moved to the signal axis, but that of
the signal was not, so that the gradient was wrong for a single signal,
and an exception was raised for multiple signals. The sum of the gradient
over the channel axis requires the unmodified data layout.
---
 sporco/dictlrn/onlinecdl.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index a456fc7..43eee6a 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -291,17 +291,6 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
     def setcoef(self, Z):
         """Set coefficient array."""
 
-        # If the dictionary has a single channel but the input (and
-        # therefore also the coefficient map array) has multiple
-        # channels, the channel index and multiple image index have
-        # the same behaviour in the dictionary update equation: the
-        # simplest way to handle this is to just reshape so that the
-        # channels also appear on the multiple image index.
-        if self.cri.Cd == 1 and self.cri.C > 1:
-            Z = Z.reshape(self.cri.Nv + (1,) + (self.cri.Cx*self.cri.K,) +
-                          (self.cri.M,))
-            if Z.shape != self.Z.shape:
-                self.Z = empty_aligned(Z.shape, self.dtype)
         self.Z[:] = np.asarray(Z, dtype=self.dtype)
         self.Zf = rfftn(self.Z, self.cri.Nv, self.cri.axisN)
 
-- 
2.43.0


From ac5930b2951ffa44286d662eeaf752aeb3cb1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 46/68] fix: online dictionary learning with singleton
 dictionary axes

All singleton axes of the dictionary were removed before it was passed to
the sparse coding solver, including that of a dictionary with a single
filter and those of filters of unit size along an axis.
---
 sporco/dictlrn/onlinecdl.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 43eee6a..5a06c67 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -278,7 +278,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDN(self.D.squeeze(), S, lmbda,
+            xstep = cbpdn.ConvBPDN(self.extdict(), S, lmbda,
                                    self.opt['CBPDN'], dimK=dimK,
                                    dimN=self.cri.dimN)
             xstep.solve()
@@ -288,6 +288,15 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
 
 
 
+    def extdict(self):
+        """Get dictionary with external data layout."""
+
+        if self.cri.dimCd == 0:
+            return self.D[(slice(None),) * self.dimN + (0, 0)]
+        return self.D[(slice(None),) * (self.dimN + 1) + (0,)]
+
+
+
     def setcoef(self, Z):
         """Set coefficient array."""
 
@@ -549,7 +558,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
             self.xstep_itstat = None
         else:
             # Create X update object (external representation is expected!)
-            xstep = cbpdn.ConvBPDNMaskDcpl(self.D.squeeze(), S, lmbda, W,
+            xstep = cbpdn.ConvBPDNMaskDcpl(self.extdict(), S, lmbda, W,
                                            self.opt['CBPDN'], dimK=dimK,
                                            dimN=self.cri.dimN)
             xstep.solve()
-- 
2.43.0


From ab7632e3baa17d0efa123d550c94b546b525b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:00 +0000
Subject: [PATCH 47/68] fix: gradient in OnlineConvBPDNMaskDictLearn

The gradient of the data fidelity term with respect to the dictionary was
scaled by the mask W, instead of by W^2, and was therefore not that of
the problem solved in the sparse coding step unless W is binary.
---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 5a06c67..2f2afcf 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -578,7 +578,7 @@ class OnlineConvBPDNMaskDictLearn(OnlineConvBPDNDictLearn):
         Ryf = inner(self.Zf, self.Df, axis=self.cri.axisM) - self.Sf
         # Transform to spatial domain, apply mask, and transform back to
         # frequency domain
-        Ryf[:] = rfftn(W * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
+        Ryf[:] = rfftn(W**2 * irfftn(Ryf, self.cri.Nv, self.cri.axisN),
                           None, self.cri.axisN)
         # Compute gradient
         gradf = inner(np.conj(self.Zf), Ryf, axis=self.cri.axisK)
-- 
2.43.0


From d447d2aed652da0f4b917f8c2e1f73e757a5d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 48/68] fix: signal.grad and signal.gradT with a negative or
 unit length axis

---
 sporco/signal.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index 0b7c1dc..fa65449 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -162,8 +162,8 @@ def grad(x, axis, zero_pad=False):
     if zero_pad:
         xg = np.diff(x, axis=axis, prepend=0, append=0)
     else:
-        slc = (slice(None),)*axis + (slice(-1, None),)
         xg = np.roll(x, -1, axis=axis) - x
+        slc = (slice(None),)*(axis % xg.ndim) + (slice(-1, None),)
         xg[slc] = 0.0
     return xg
 
@@ -193,10 +193,11 @@ def gradT(x, axis, zero_pad=False):
     if zero_pad:
         xg = -np.diff(x, axis=axis)
     else:
-        slc0 = (slice(None),) * axis
+        slc0 = (slice(None),) * (axis % x.ndim)
         xg = np.roll(x, 1, axis=axis) - x
-        xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
-        xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
+        if x.shape[axis] > 1:
+            xg[slc0 + (slice(0, 1),)] = -x[slc0 + (slice(0, 1),)]
+            xg[slc0 + (slice(-1, None),)] = x[slc0 + (slice(-2, -1),)]
     return xg
 
 
-- 
2.43.0


From 5a877a9dde2845317514fa6e896f1bbcb929e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 49/68] fix: signal.rndmask with an integer or boolean data
 type is not a mask

---
 sporco/signal.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index fa65449..b17c247 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -85,10 +85,8 @@ def rndmask(shp, frc, dtype=None):
       Mask image
     """
 
-    msk = np.asarray(np.random.uniform(-1.0, 1.0, shp), dtype=dtype)
-    msk[np.abs(msk) > frc] = 1.0
-    msk[np.abs(msk) < frc] = 0.0
-    return msk
+    msk = np.abs(np.random.uniform(-1.0, 1.0, shp)) > frc
+    return np.asarray(msk, dtype=np.float64 if dtype is None else dtype)
 
 
 
-- 
2.43.0


From 718420c1ff8f3b0520dfa269d13a139a278e224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 50/68] fix: signal.rgb2gray with integer images or an array of
 images, and gray example images

---
 sporco/signal.py | 5 +++--
 sporco/util.py   | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sporco/signal.py b/sporco/signal.py
index b17c247..8aff97c 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -104,8 +104,9 @@ def rgb2gray(rgb):
       Grayscale image as Nr x Nc or Nr x Nc x K array
     """
 
-    w = np.array([0.299, 0.587, 0.114], dtype=rgb.dtype)[np.newaxis,
-                                                         np.newaxis]
+    dtype = rgb.dtype if np.issubdtype(rgb.dtype, np.inexact) else np.float64
+    w = np.array([0.299, 0.587, 0.114], dtype=dtype)
+    w = w.reshape((1, 1, 3) + (1,) * (rgb.ndim - 3))
     return np.sum(w * rgb, axis=2)
 
 
diff --git a/sporco/util.py b/sporco/util.py
index 705ab83..c8fdfa1 100644
--- a/sporco/util.py
+++ b/sporco/util.py
@@ -567,8 +567,11 @@ class ExampleImages(object):
                 img = sn.zoom(img, zoom)
             else:
                 img = sn.zoom(img, (zoom,)*2 + (1,)*(img.ndim-2))
-        if gray:
+        if gray and img.ndim > 2:
             img = signal.rgb2gray(img)
+            if np.issubdtype(dtype, np.integer):
+                img = np.rint(img)
+            img = img.astype(dtype)
 
         return img
 
-- 
2.43.0


From 8053c17974331dbed91fbc05c3116d82308adece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:14 +0000
Subject: [PATCH 51/68] fix: interp.bilinear_demosaic used cubic splines for
 two of the channels

---
 sporco/interp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sporco/interp.py b/sporco/interp.py
index 0a1e58b..cb55170 100644
--- a/sporco/interp.py
+++ b/sporco/interp.py
@@ -54,7 +54,7 @@ def bilinear_demosaic(img):
     x = range(1, img.shape[0], 2)
     y = range(1, img.shape[1], 2)
     #fi = interp2d(x, y, img[1::2, 1::2])
-    fi = RectBivariateSpline(x, y, img[1::2, 1::2], s=0)
+    fi = RectBivariateSpline(x, y, img[1::2, 1::2], kx=1, ky=1, s=0)
     sr = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     # Interpolate green channel. We can't use `interp2d` here because
@@ -83,7 +83,7 @@ def bilinear_demosaic(img):
     x = range(0, img.shape[0], 2)
     y = range(0, img.shape[1], 2)
     #fi = interp2d(x, y, img[0::2, 0::2])
-    fi = RectBivariateSpline(x, y, img[0::2, 0::2], s=0)
+    fi = RectBivariateSpline(x, y, img[0::2, 0::2], kx=1, ky=1, s=0)
     sb = fi(range(0, img.shape[0]), range(0, img.shape[1]))
 
     return np.dstack((sr, sg, sb))
-- 
2.43.0


From 7f741e360891e7810161912f96084b88b017f049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 52/68] fix: metric.psnr range of integer images overflows

---
 sporco/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index 3a3c36c..d64cd85 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -137,7 +137,7 @@ def psnr(vref, vcmp, rng=None):
     """
 
     if rng is None:
-        rng = np.abs(vref.max() - vref.min())
+        rng = np.abs((vref.max() + 0.0) - vref.min())
     dv = (rng + 0.0)**2
     with np.errstate(divide='ignore'):
         rt = dv / mse(vref, vcmp)
-- 
2.43.0


From 9f409b86933b8e7a232fca1d6230522ccafaf253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:20 +0000
Subject: [PATCH 53/68] fix: metric.bsnr noise of integer images wraps around

---
 sporco/metric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sporco/metric.py b/sporco/metric.py
index d64cd85..1533c9b 100644
--- a/sporco/metric.py
+++ b/sporco/metric.py
@@ -192,7 +192,8 @@ def bsnr(vblr, vnsy):
     """
 
     blrvar = np.var(vblr)
-    nsevar = np.var(vnsy - vblr)
+    dtype = np.result_type(vnsy, vblr, np.float64)
+    nsevar = np.var(np.subtract(vnsy, vblr, dtype=dtype))
     with np.errstate(divide='ignore'):
         rt = blrvar / nsevar
     return 10.0 * np.log10(rt)
-- 
2.43.0


From c7a81e82e3cdf447aaa1574efa4cccf7873adafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:43 +0000
Subject: [PATCH 54/68] fix: signal.tikhonov_filter of an unpadded axis with a
 single sample

---
 sporco/signal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sporco/signal.py b/sporco/signal.py
index 8aff97c..0766bc6 100644
--- a/sporco/signal.py
+++ b/sporco/signal.py
@@ -286,6 +286,11 @@ def tikhonov_filter(s, lmbda, npd=16):
         ifft = ifftn
     grv = np.array([-1.0, 1.0]).reshape([2, 1])
     gcv = np.array([-1.0, 1.0]).reshape([1, 2])
+    # The gradient on an axis with a single sample is zero
+    if s.shape[0] + 2*npd == 1:
+        grv = np.zeros((1, 1))
+    if s.shape[1] + 2*npd == 1:
+        gcv = np.zeros((1, 1))
     Gr = fft(grv, (s.shape[0] + 2*npd, s.shape[1] + 2*npd), (0, 1))
     Gc = fft(gcv, (s.shape[0] + 2*npd, s.shape[1] + 2*npd), (0, 1))
     A = 1.0 + lmbda * (np.conj(Gr)*Gr + np.conj(Gc)*Gc).real
-- 
2.43.0


From 7ba5270f887cb7df47dae8f612d33e7d836a8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 55/68] fix: Cholesky solves in sporco.cupy without cupy

---
 sporco/cupy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index 50fb271..ba1169a 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -50,6 +50,7 @@ try:
 except Exception:
     # If cupy import or device access fails, import numpy to the same alias
     import numpy as cp
+    import scipy.linalg as cpxl
     # Flag indicating unsuccessful import
     have_cupy = False
     # Import appropriate versions of utility functions
-- 
2.43.0


From fbdde2c466ee031835d7b75f89cf558136db5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:58 +0000
Subject: [PATCH 56/68] fix: mask in ConvCnstrMODMaskDcpl classes ignores the
 DataType option

---
 sporco/admm/ccmodmd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/ccmodmd.py b/sporco/admm/ccmodmd.py
index 9db1588..2c01c10 100644
--- a/sporco/admm/ccmodmd.py
+++ b/sporco/admm/ccmodmd.py
@@ -240,9 +240,12 @@ class ConvCnstrMODMaskDcplBase(admm.ADMMTwoBlockCnstrnt):
         # Infer problem dimensions and set relevant attributes of self
         self.cri = cr.CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
 
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
+
         # Convert W to internal shape
         W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
-                       dtype=S.dtype)
+                       dtype=self.dtype)
 
         # Reshape W if necessary (see discussion of reshape of S below)
         if self.cri.Cd == 1 and self.cri.C > 1:
@@ -838,7 +841,7 @@ class ConvCnstrMODMaskDcpl_Consensus(ccmod.ConvCnstrMOD_Consensus):
         if W is None:
             W = np.array([1.0], dtype=self.dtype)
         W = np.asarray(W.reshape(cr.mskWshape(W, self.cri)),
-                       dtype=S.dtype)
+                       dtype=self.dtype)
 
         # Reshape W if necessary (see discussion of reshape of S in
         # ccmod.ConvCnstrMOD_Consensus.__init__)
-- 
2.43.0


From 23e70ae703b5cd12fe397b1810750f7a52bf4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:58 +0000
Subject: [PATCH 57/68] fix: ConvProdDictL1L1GrdJoint promotes single precision
 variables

---
 sporco/admm/pdcsc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 287d53e..2d93659 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -16,7 +16,8 @@ import numpy as np
 from sporco.admm import cbpdn
 import sporco.cnvrep as cr
 from sporco.util import u
-from sporco.fft import rfftn, irfftn, empty_aligned, rfl2norm2
+from sporco.fft import (real_dtype, rfftn, irfftn, empty_aligned,
+                        rfl2norm2)
 from sporco.linalg import (dot, inner, solvedbi_sm_c, solvedbi_sm,
                            solvedbd_sm_c, solvedbd_sm, rrs)
 from sporco.prox import prox_l1, prox_sl1l2
@@ -699,7 +700,7 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
 
         AXU = self.AX + self.U
         Y0 = prox_l1(self.block_sep0(AXU) - self.S, (1.0/self.rho)*self.W)
-        Y1 = prox_sl1l2(self.block_sep1(AXU), 0.0,
+        Y1 = prox_sl1l2(self.block_sep1(AXU), real_dtype(self.dtype).type(0.0),
                         (self.lmbda/self.rho)*self.wl21,
                         axis=self.cri.axisC)
         self.Y = self.block_cat(Y0, Y1)
-- 
2.43.0


From cfed0771ec2fafed6414366cd0a393485a086859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 58/68] fix: sporco.cupy fftconv differs from
 sporco.fft.fftconv

The replacement lacked the origin parameter and defaulted to the first
two axes instead of all of them.
---
 sporco/cupy/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sporco/cupy/__init__.py b/sporco/cupy/__init__.py
index ba1169a..66e5fd4 100644
--- a/sporco/cupy/__init__.py
+++ b/sporco/cupy/__init__.py
@@ -267,9 +267,11 @@ def _rfftn_empty_aligned(shape, axes, dtype, order='C', n=None):
     return cp.empty(ashp, cdtype, order)
 
 
-def _fftconv(a, b, axes=(0, 1)):
+def _fftconv(a, b, axes=None, origin=None):
     """Patched version of :func:`sporco.fft.fftconv`."""
 
+    if axes is None:
+        axes = tuple(range(a.ndim))
     if cp.isrealobj(a) and cp.isrealobj(b):
         fft = cp.fft.rfftn
         ifft = cp.fft.irfftn
@@ -281,7 +283,10 @@ def _fftconv(a, b, axes=(0, 1)):
     dims = [int(d) for d in dims]
     af = fft(a, dims, axes)
     bf = fft(b, dims, axes)
-    return ifft(af * bf, dims, axes)
+    ab = ifft(af * bf, dims, axes)
+    if origin is not None:
+        ab = cp.roll(ab, tuple(-int(n) for n in origin), axis=tuple(axes))
+    return ab
 
 
 def _empty_aligned_func(real=False):
-- 
2.43.0


From 61048b5dff04d91e80082a84cfd8164a57f065a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:10 +0000
Subject: [PATCH 59/68] fix: inconsistent terms in the PGM backtracking
 condition in the DFT domain

The terms of the condition were computed from half of the spectrum without
the weights that this requires. With a mask, half of the gradient is not
the gradient of half of the data fidelity term, so that no L satisfied the
condition and the solver stalled away from the solution.
---
 sporco/pgm/backtrack.py |  4 ++--
 sporco/pgm/cbpdn.py     |  6 +++---
 sporco/pgm/ccmod.py     |  6 +++---
 sporco/pgm/pgm.py       | 29 ++++++++++++++++++++++++++++-
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/sporco/pgm/backtrack.py b/sporco/pgm/backtrack.py
index caadda8..356ad1e 100644
--- a/sporco/pgm/backtrack.py
+++ b/sporco/pgm/backtrack.py
@@ -100,7 +100,7 @@ class BacktrackStandard(BacktrackBase):
             Dxy = solverobj.eval_Dxy()
             Q = solverobj.obfn_f(solverobj.var_y()) + \
                 solverobj.eval_linear_approx(Dxy, gradY) + \
-                (solverobj.L / 2.) * np.linalg.norm(Dxy.flatten(), 2)**2
+                (solverobj.L / 2.) * solverobj.eval_sqnorm(Dxy)
 
             if f <= Q:
                 linesearch = 0
@@ -191,7 +191,7 @@ class BacktrackRobust(BacktrackBase):
             Dxy = solverobj.eval_Dxy()
             Q = solverobj.obfn_f(solverobj.var_y()) + \
                 solverobj.eval_linear_approx(Dxy, gradY) + \
-                (solverobj.L / 2.) * np.linalg.norm(Dxy.flatten(), 2)**2
+                (solverobj.L / 2.) * solverobj.eval_sqnorm(Dxy)
 
             if f <= Q:
                 linesearch = 0
diff --git a/sporco/pgm/cbpdn.py b/sporco/pgm/cbpdn.py
index 6fcd4f3..d1603e4 100644
--- a/sporco/pgm/cbpdn.py
+++ b/sporco/pgm/cbpdn.py
@@ -367,7 +367,8 @@ class ConvBPDN(pgm.PGMDFT):
             Xf = self.Xf
 
         Rf = self.eval_Rf(Xf)
-        return 0.5 * np.linalg.norm(Rf.flatten(), 2)**2
+        return 0.5 * np.prod(self.cri.Nv) * rfl2norm2(
+            Rf, self.S.shape, axis=self.cri.axisN)
 
 
 
@@ -519,6 +520,5 @@ class ConvBPDNMask(ConvBPDN):
 
         Rf = self.eval_Rf(Xf)
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
-        WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * np.prod(self.cri.Nv) * np.linalg.norm(self.W * R)**2
diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index f4c8c13..f0d5583 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -387,7 +387,8 @@ class ConvCnstrMOD(pgm.PGMDFT):
             Xf = self.Xf
 
         Rf = self.eval_Rf(Xf)
-        return 0.5 * np.linalg.norm(Rf.flatten(), 2)**2
+        return 0.5 * np.prod(self.cri.Nv) * rfl2norm2(
+            Rf, self.S.shape, axis=self.cri.axisN)
 
 
 
@@ -617,6 +618,5 @@ class ConvCnstrMODMask(ConvCnstrMOD):
 
         Rf = self.eval_Rf(Xf)
         R = irfftn(Rf, self.cri.Nv, self.cri.axisN)
-        WRf = rfftn(self.W * R, self.cri.Nv, self.cri.axisN)
 
-        return 0.5 * np.linalg.norm(WRf.flatten(), 2)**2
+        return 0.5 * np.prod(self.cri.Nv) * np.linalg.norm(self.W * R)**2
diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 972fcfd..0bc8fdf 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -455,6 +455,16 @@ class PGM(IterativeSolver):
 
 
 
+    def eval_sqnorm(self, Dxy):
+        r"""Compute term :math:`\| \mathbf{x} - \mathbf{y} \|_2^2` that
+        is part of the quadratic function :math:`Q_L` used for
+        backtracking.
+        """
+
+        return np.linalg.norm(Dxy.flatten(), 2)**2
+
+
+
     def grad_f(self, V):
         """Compute gradient of :math:`f` at V.
 
@@ -898,4 +908,21 @@ class PGMDFT(PGM):
         the DFT, it is important to preserve the DFT scaling.
         """
 
-        return np.sum(np.real(np.conj(Dxy) * gradY))
+        prd = np.real(np.conj(Dxy) * gradY)
+        # All but the zero and Nyquist frequencies on the final transform
+        # axis also represent a conjugate frequency
+        slc = (slice(None),) * self.axisN[-1]
+        ip = 2.0 * np.sum(prd) - np.sum(prd[slc + (0,)])
+        if self.Nv[-1] % 2 == 0:
+            ip -= np.sum(prd[slc + (-1,)])
+        return ip
+
+
+
+    def eval_sqnorm(self, Dxy):
+        r"""Compute term :math:`\| \mathbf{x} - \mathbf{y} \|_2^2` (in
+        frequency domain) that is part of the quadratic function
+        :math:`Q_L` used for backtracking.
+        """
+
+        return self.eval_linear_approx(Dxy, Dxy)
-- 
2.43.0


From d7ece0656d49a7e7045aa6bad722f14acf2f62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:01 +0000
Subject: [PATCH 60/68] fix: PGM fixed point residual with option Monotone

The residual was computed from the momentum term of the iteration, which is
zero when that does not extrapolate, ending the solve at an arbitrary point.
---
 sporco/pgm/pgm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sporco/pgm/pgm.py b/sporco/pgm/pgm.py
index 0bc8fdf..3baedc0 100644
--- a/sporco/pgm/pgm.py
+++ b/sporco/pgm/pgm.py
@@ -710,8 +710,6 @@ class PGM(IterativeSolver):
         """Compute fixed point residual (see Sec. 4.3 of
         :cite:`liu-2018-first`)."""
 
-        if self.opt['Monotone'] and self.k > 0:
-            return np.linalg.norm((self.X - self.Y).ravel())
         return np.linalg.norm((self.X - self.Yprv).ravel())
 
 
-- 
2.43.0


From 67caa1abecbc468246f9a6b433f82e6638fa3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:46 +0000
Subject: [PATCH 61/68] fix: constraints applied after rather than before group
 and l1-ball proximal maps

---
 sporco/admm/bpdn.py  | 12 ++++++++----
 sporco/admm/cbpdn.py | 12 ++++++++----
 sporco/admm/pdcsc.py | 13 +++++++++----
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/sporco/admm/bpdn.py b/sporco/admm/bpdn.py
index 4092f7d..86aca71 100644
--- a/sporco/admm/bpdn.py
+++ b/sporco/admm/bpdn.py
@@ -568,10 +568,12 @@ class BPDNJoint(BPDN):
         r"""Minimise Augmented Lagrangian with respect to
         :math:`\mathbf{y}`."""
 
+        # Additional constraints must be applied before the proximal map
+        self.Y = self.AX + self.U
+        GenericBPDN.ystep(self)
         self.Y = np.asarray(sp.prox_sl1l2(
-            self.AX + self.U, (self.lmbda / self.rho) * self.wl1,
+            self.Y, (self.lmbda / self.rho) * self.wl1,
             self.mu / self.rho, axis=-1), dtype=self.dtype)
-        GenericBPDN.ystep(self)
 
 
 
@@ -897,9 +899,11 @@ class BPDNProjL1(GenericBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = np.asarray(sp.proj_l1(self.AX + self.U, self.gamma, axis=0),
-                            dtype=self.dtype)
+        # Additional constraints must be applied before the projection
+        self.Y = self.AX + self.U
         super(BPDNProjL1, self).ystep()
+        self.Y = np.asarray(sp.proj_l1(self.Y, self.gamma, axis=0),
+                            dtype=self.dtype)
 
 
 
diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index da332c4..173b7e1 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -790,11 +790,13 @@ class ConvBPDNJoint(ConvBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = sp.prox_sl1l2(self.AX + self.U,
+        # Additional constraints must be applied before the proximal map
+        self.Y = self.AX + self.U
+        GenericConvBPDN.ystep(self)
+        self.Y = sp.prox_sl1l2(self.Y,
                                (self.lmbda / self.rho) * self.wl1,
                                (self.mu / self.rho) * self.wl21,
                                axis=self.cri.axisC)
-        GenericConvBPDN.ystep(self)
 
 
 
@@ -1397,10 +1399,12 @@ class ConvBPDNProjL1(GenericConvBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = sp.proj_l1(self.AX + self.U, self.gamma,
+        # Additional constraints must be applied before the projection
+        self.Y = self.AX + self.U
+        super(ConvBPDNProjL1, self).ystep()
+        self.Y = sp.proj_l1(self.Y, self.gamma,
                             axis=self.cri.axisN + (self.cri.axisC,
                                                    self.cri.axisM))
-        super(ConvBPDNProjL1, self).ystep()
 
 
 
diff --git a/sporco/admm/pdcsc.py b/sporco/admm/pdcsc.py
index 2d93659..a91c88a 100644
--- a/sporco/admm/pdcsc.py
+++ b/sporco/admm/pdcsc.py
@@ -269,10 +269,12 @@ class ConvProdDictBPDNJoint(ConvProdDictBPDN):
         :math:`\mathbf{y}`.
         """
 
-        self.Y = prox_sl1l2(self.AX + self.U,
+        # Additional constraints must be applied before the proximal map
+        self.Y = self.AX + self.U
+        cbpdn.GenericConvBPDN.ystep(self)
+        self.Y = prox_sl1l2(self.Y,
                             (self.lmbda / self.rho) * self.wl1,
                             (self.mu / self.rho), axis=self.cri.axisC)
-        cbpdn.GenericConvBPDN.ystep(self)
 
 
 
@@ -700,11 +702,14 @@ class ConvProdDictL1L1GrdJoint(ConvProdDictL1L1Grd):
 
         AXU = self.AX + self.U
         Y0 = prox_l1(self.block_sep0(AXU) - self.S, (1.0/self.rho)*self.W)
-        Y1 = prox_sl1l2(self.block_sep1(AXU), real_dtype(self.dtype).type(0.0),
+        # Additional constraints must be applied before the proximal map
+        self.Y = self.block_cat(Y0, self.block_sep1(AXU))
+        cbpdn.ConvTwoBlockCnstrnt.ystep(self)
+        Y1 = prox_sl1l2(self.block_sep1(self.Y),
+                        real_dtype(self.dtype).type(0.0),
                         (self.lmbda/self.rho)*self.wl21,
                         axis=self.cri.axisC)
         self.Y = self.block_cat(Y0, Y1)
-        cbpdn.ConvTwoBlockCnstrnt.ystep(self)
 
 
 
-- 
2.43.0


From d2b234f8b46f60dd8945933b1eb692fde7663b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 62/68] fix: ADMMTwoBlockCnstrnt default options lack its own
 options

---
 sporco/admm/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/admm.py b/sporco/admm/admm.py
index d8fb17d..f66a297 100644
--- a/sporco/admm/admm.py
+++ b/sporco/admm/admm.py
@@ -1103,7 +1103,7 @@ class ADMMTwoBlockCnstrnt(ADMM):
         """
 
         if opt is None:
-            opt = ADMM.Options()
+            opt = ADMMTwoBlockCnstrnt.Options()
         self.blkaxis = blkaxis
         self.blkidx = blkidx
         super(ADMMTwoBlockCnstrnt, self).__init__(Nx, yshape, yshape,
-- 
2.43.0


From fe1d378a04a90f446565196972b677fe19ebbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 63/68] fix: ConvBPDNJoint raises an exception when options are
 omitted

---
 sporco/admm/cbpdn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 173b7e1..6aa8301 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -777,7 +777,7 @@ class ConvBPDNJoint(ConvBPDN):
         """
 
         if opt is None:
-            opt = ConvBPDN.Options()
+            opt = ConvBPDNJoint.Options()
         super(ConvBPDNJoint, self).__init__(D, S, lmbda, opt, dimK=dimK,
                                             dimN=dimN)
         self.mu = self.dtype.type(mu)
-- 
2.43.0


From 9bdc1350deb733b0045db59ae15d681a745ee973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 64/68] fix: OnlineConvBPDNMaskDictLearn raises an exception
 when options are omitted

---
 sporco/dictlrn/onlinecdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sporco/dictlrn/onlinecdl.py b/sporco/dictlrn/onlinecdl.py
index 2f2afcf..13a71d3 100644
--- a/sporco/dictlrn/onlinecdl.py
+++ b/sporco/dictlrn/onlinecdl.py
@@ -152,7 +152,7 @@ class OnlineConvBPDNDictLearn(common.IterativeSolver):
         """
 
         if opt is None:
-            opt = OnlineConvBPDNDictLearn.Options()
+            opt = self.Options()
         if not isinstance(opt, OnlineConvBPDNDictLearn.Options):
             raise TypeError('Parameter opt must be an instance of '
                             'OnlineConvBPDNDictLearn.Options')
-- 
2.43.0


From 43afab917d740aa19bac2425e6dd1125a0c3d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 65/68] fix: PGM step size policies divide by zero when the
 iterate or the gradient does not change

The Barzilai-Borwein ratio is 0/0 or infinite once the iterate is
repeated (for example when the Monotone option rejects a step, or at a
fixed point with FastSolve), and the Cauchy ratio is 0/0 when the gradient
is zero, after which L and the iterates are not finite or the solver never
moves again. Keep the current L in these cases.
---
 sporco/pgm/stepsize.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sporco/pgm/stepsize.py b/sporco/pgm/stepsize.py
index d5a6a0c..f0636be 100644
--- a/sporco/pgm/stepsize.py
+++ b/sporco/pgm/stepsize.py
@@ -79,7 +79,14 @@ class StepSizePolicyCauchy(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(grad) * grad))
         num = np.sum(np.real(np.conj(grad) * solverobj.hessian_f(grad)))
 
-        return num / den
+        # Keep the current value when the ratio does not define a step
+        # size (the gradient is zero)
+        if den > 0. and num > 0.:
+            L = num / den
+        else:
+            L = solverobj.L
+
+        return L
 
 
 
@@ -138,8 +145,11 @@ class StepSizePolicyBB(StepSizePolicyBase):
         den = np.sum(np.real(np.conj(dx) * dg))
         num = np.sum(np.real(np.conj(dg) * dg))
 
-        L = num / den
-        if L < 0.:
+        # Keep the current value when the ratio is negative or is not
+        # defined (the iterate or the gradient has not changed)
+        if den > 0. and num > 0.:
+            L = num / den
+        else:
             L = solverobj.L
 
         return L
-- 
2.43.0


From c6044b118079f63a83756454594276df860b1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:01 +0000
Subject: [PATCH 66/68] fix: pgm ConvCnstrMODMask squares the mask in its own
 data type

An integer mask with values whose squares do not fit its type (for
example 8 bit) gave a wrong solution. Convert the mask to the working
data type, as all other solvers with a mask do.
---
 sporco/pgm/ccmod.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sporco/pgm/ccmod.py b/sporco/pgm/ccmod.py
index f0d5583..912c802 100644
--- a/sporco/pgm/ccmod.py
+++ b/sporco/pgm/ccmod.py
@@ -510,9 +510,13 @@ class ConvCnstrMODMask(ConvCnstrMOD):
         # Infer problem dimensions and set relevant attributes of self
         self.cri = CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
 
+        # Set dtype attribute based on S.dtype and opt['DataType']
+        self.set_dtype(opt, S.dtype)
+
         # Append singleton dimensions to W if necessary
         if hasattr(W, 'ndim'):
-            W = atleast_nd(self.cri.dimN + 3, W)
+            W = np.asarray(atleast_nd(self.cri.dimN + 3, W),
+                           dtype=self.dtype)
 
         # Reshape W if necessary (see discussion of reshape of S in
         # ccmod base class)
-- 
2.43.0


From 8c9a3bb79fb46674015840e13a475300da9b9838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 67/68] fix: AddMaskSim.setdict used a function that does not
 exist

---
 sporco/admm/cbpdn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sporco/admm/cbpdn.py b/sporco/admm/cbpdn.py
index 6aa8301..1b30d44 100644
--- a/sporco/admm/cbpdn.py
+++ b/sporco/admm/cbpdn.py
@@ -2459,9 +2459,12 @@ class AddMaskSim(object):
     def setdict(self, D=None):
         """Set dictionary array."""
 
-        Di = np.concatenate((D, sl.atleast_nd(D.ndim, self.imp)),
-                            axis=D.ndim-1)
-        self.cbpdn.setdict(Di)
+        if D is not None:
+            imp = self.imp.reshape(self.imp.shape[0:self.cri.dimN] +
+                                   (self.cri.Cd, 1, self.cri.Cd))
+            D = np.concatenate((np.asarray(D).reshape(self.cri.shpD), imp),
+                               axis=self.cri.axisM)
+        self.cbpdn.setdict(D)
 
 
 
-- 
2.43.0


From 5e35d8e7b101d17a31bb4a63b3795d8400a9d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 68/68] fix: ParConvBPDN.setdict did not update the shared
 dictionary

---
 sporco/admm/parcbpdn.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sporco/admm/parcbpdn.py b/sporco/admm/parcbpdn.py
index 0ad79c0..ad23cde 100644
--- a/sporco/admm/parcbpdn.py
+++ b/sporco/admm/parcbpdn.py
@@ -707,6 +707,24 @@ class ParConvBPDN(GenericConvBPDN):
 
 
 
+    def setdict(self, D=None):
+        """Set dictionary array."""
+
+        super(ParConvBPDN, self).setdict(D)
+
+        # This method is also called during initialisation, before the
+        # global variables are set up
+        if hasattr(self, 'ngrp'):
+            global mp_cache
+            mp_Df[:] = np.moveaxis(self.Df, self.cri.axisM, mp_axisM)
+            if self.opt['HighMemSolve'] and self.cri.Cd == 1:
+                mp_cache = [sl.solvedbi_sm_c(mp_Df[k], np.conj(mp_Df[k]),
+                                             mp_alpha**2, mp_axisM) for k in
+                            np.array_split(np.array(range(self.cri.M)),
+                                           self.ngrp)]
+
+
+
     def solve(self):
         """Start (or re-start) optimisation. This method implements the
         framework for the iterations of an ADMM algorithm.
-- 
2.43.0

