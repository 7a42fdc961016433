From 54f0a9042abcccfcccba3d5d739ac72c399682a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 01/26] fix: import the RBF kernel from the package that
 contains it

score_estimators/score_function_estimators_pytorch.py looked for kernels/ inside
score_estimators/, so the package itself could not be imported.
---
 .../score_estimators/score_function_estimators_pytorch.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..ff66856 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,11 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+try:
+    from ..kernels.RBF_pytorch import RBF
+except ImportError:
+    ###this clause is for imports to work properly for the documendation
+    from kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From ebc0dffe45d17492f29e8c10871ba4bcd66ce683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 02/26] fix: make the score estimators importable without
 pytorch

The top-level module treats pytorch as optional (TORCHED) and setup.py does not
require it, but the estimators package imported the pytorch one always.
---
 .../score_estimators/__init__.py                          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/__init__.py b/DeterministicParticleFlowControl/score_estimators/__init__.py
index 0c8450b..1de6965 100644
--- a/DeterministicParticleFlowControl/score_estimators/__init__.py
+++ b/DeterministicParticleFlowControl/score_estimators/__init__.py
@@ -3,4 +3,10 @@
 Module containing the logarithmic gradient estimators.
 """
 from .score_function_estimators import *  
-from .score_function_estimators_pytorch import *  
+try:
+    import torch
+    TORCHED = True
+except ImportError:
+    TORCHED = False
+if TORCHED:
+    from .score_function_estimators_pytorch import *  
-- 
2.43.0


From ab7efbb8156577e85ebe4e5440be6abff3977888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 03/26] fix: use the duecredit stub shipped with the package

The citation is meant to do nothing unless duecredit is installed, and due.py is
there for that, but the module imported duecredit directly.
---
 .../DeterministicParticleFlowControl.py                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..d1a82d1 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -41,6 +41,7 @@ if __name__ == "DeterministicParticleFlowControl.DeterministicParticleFlowContro
     if TORCHED:
         from .score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from .utils.utils_pytorch import set_device
+    from .due import due, BibTeX
         
 else:
     ###this clause is for imports to work properly for the documendation
@@ -49,7 +50,7 @@ else:
     if TORCHED:
         from score_estimators.score_function_estimators_pytorch import  torched_score_function_multid_seperate_all_dims
         #from utils.utils_pytorch import set_device
-from duecredit import due, BibTeX
+    from due import due, BibTeX
 
 
 if TORCHED:
-- 
2.43.0


From b38e7d307c7567bc03ef66fc7cb77092de57a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 04/26] fix: let the score estimators be imported without numba

score_function_multid_seperate_old is documented as the one to use when numba is
not available, and the top-level module guards its numba import, but importing
the estimators required numba.
---
 .../score_estimators/score_function_estimators.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
index 4d0c857..95d2332 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
@@ -13,7 +13,16 @@ import numpy as np
 
 from functools import reduce
 from scipy.spatial.distance import cdist
-import numba
+try:
+    import numba
+except ImportError:
+    ### without numba my_cdist runs as plain python
+    class numba:
+        prange = range
+
+        @staticmethod
+        def njit(**kwargs):
+            return lambda func: func
 
 
 
-- 
2.43.0


From e8c77147dd11de21a6388ee010ca4644d3c24534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 05/26] fix: pass the time to the drift in stochastic forward
 sampling, in any dimension

With deterministic=False DPFC called the drift without its time argument (and with
one particle at a time), and started only the first two dimensions at y1. Same
step as in torched_DPFC and in the stochastic step of forward_sampling_Otto.
---
 .../DeterministicParticleFlowControl.py               | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d1a82d1..198e8c5 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -240,14 +240,11 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
-                for i in range(self.N):
-                    #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
-                    self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
-                                      (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
+                self.Z[:, :, ti] = (self.Z[:, :, ti-1] + self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
+                                 (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim, self.N)))
 
                 ###WEIGHT
                 if self.reweight == True:
-- 
2.43.0


From 130670c29cd70e4241e5eb715b05c6ad49412b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 06/26] fix: keep the last time point of the stochastic forward
 flow

Overwriting it with y2 left a density of zero width there, and with
deterministic=False every trajectory of the backward flow became NaN. torched_DPFC
has this assignment commented out.
---
 .../DeterministicParticleFlowControl.py                         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 198e8c5..238ae4e 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -257,8 +257,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From 6a2ff090be9af856bc99bafe54697562db6aaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 07/26] fix: weigh the stochastic forward flows with
 exp(U(x,t)*dt)

U takes two arguments (README), and the weight of one time step is exp(U*dt), as in
forward_sampling_Otto. Also start every dimension of the torched flow at y1.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 238ae4e..91e766a 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -249,7 +249,7 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -907,8 +907,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
@@ -917,7 +917,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From 6dca3ee9cd8fc4594ae3bbb0f04c9ec8a4455816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 08/26] fix: evaluate the Brownian bridge control at the
 requested points

calculate_u clipped the points with the bounds of dimension 0 as lower and those of
dimension 1 as upper limits (and one of the two still zero), which moved the points
in 2 dimensions and raised in any other. The other two grids are not clipped, and
torched_DPFC has this clipping commented out.
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 91e766a..f18341d 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -676,10 +676,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x #no clipping, as for grid_b and grid_z
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From 37ad0aea419041be779af4143f91f182119a764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 09/26] fix: orientation of the score in the torched Brownian
 bridge flow

torched_DPFC.f_seperate_true passed the inducing points transposed and used the
score untransposed, so every run with brown_bridge=True raised. Same as in
f_seperate.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index f18341d..ea19192 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -976,14 +976,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From cc882ddb50fb517efd7642244ddfc93a06c2200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 10/26] fix: accept numpy initial and target states in
 torched_DPFC

The constructor converts y1 and y2 unless they are tensors, but asked y1 for its
size as a tensor before that.
---
 .../DeterministicParticleFlowControl.py                      | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ea19192..414db36 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -807,8 +807,6 @@ class torched_DPFC(object):
                  device=None):
 
         self.device = device
-        # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
@@ -817,7 +815,8 @@ class torched_DPFC(object):
         else:
             self.y1 = y1
             self.y2 = y2
-
+        # dimensionality of the system
+        self.dim = torch.tensor(self.y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
 
         ##density estimation stuff
         self.kern = kern
-- 
2.43.0


From 63787cf131201b8127d4e78e2480a342bb1cb035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 11/26] fix: accept any array_like initial state in DPFC

y1 is documented as array_like; a list has no attribute size.
---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 414db36..1f00449 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -156,7 +156,7 @@ class DPFC(object):
 
     def __init__(self, t1, t2, y1, y2, f, g, N, M, reweight=False, U=None, dens_est='nonparametric', reject=True, kern='RBF', f_true=None, brown_bridge=False, deterministic=True):
 
-        self.dim = y1.size # dimensionality of the system
+        self.dim = np.size(y1) # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         self.y1 = y1
-- 
2.43.0


From 4b9e3012d1283743512dbf7557c6b91b48547047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 12/26] fix: normalise the reweighting exponents before taking
 the exponential

The weights are normalised, so a constant added to U cannot matter, but exp(U*dt)
under- or overflowed for all particles when |U|*dt was large, and the weights became
0/0 or inf/inf.
---
 .../DeterministicParticleFlowControl.py              | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 1f00449..e365387 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -249,7 +249,8 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
+                        lnW = self.U(self.Z[:, :, ti], tt)*self.dt
+                        W[:, 0] = np.exp(lnW - np.max(lnW))
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -432,7 +433,8 @@ class DPFC(object):
             if self.reweight == True:
                 if ti > 0:
 
-                    W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt) #-1
+                    lnW = self.U(self.Z[:, :, ti], tt)*self.dt
+                    W[:, 0] = np.exp(lnW - np.max(lnW)) #-1
                     W = W/np.sum(W)
 
                     ###REWEIGHT
@@ -913,7 +915,8 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
+                        lnW = self.U(self.Z[:, :, ti], tt)*self.dt
+                        W[:, 0] = torch.exp(lnW - torch.max(lnW))
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
@@ -1132,7 +1135,8 @@ class torched_DPFC(object):
             if self.reweight == True:
                 if ti > 0:
 
-                    W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt) #-1
+                    lnW = self.U(self.Z[:, :, ti], tt)*self.dt
+                    W[:, 0] = torch.exp(lnW - torch.max(lnW)) #-1
                     W = W/torch.sum(W)
 
                     ###REWEIGHT
-- 
2.43.0


From c6c24a3c50c9112ea11f358d6ba3893b197d8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 13/26] fix: arguments of the timing log message

With the INFO level enabled, logging printed a formatting error and no message.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index e365387..2ee513e 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -443,7 +443,7 @@ class DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     self.Z[:, :, ti] = ((self.Z[:, :, ti])@Tstar) #####
         logging.info('Forward sampling with Otto is ready!')
         return 0
@@ -1152,7 +1152,7 @@ class torched_DPFC(object):
                     #print(Tstar)
                     if ti == 3:
                         stop = time.time()
-                        logging.info('Timepoint: %d needed '%ti, stop-start)
+                        logging.info('Timepoint: %d needed %f', ti, stop-start)
                     
         logging.info('Forward sampling with Otto is ready!')
         return 0
-- 
2.43.0


From 49ffacf7c6feb464f3cb1c484680b038a342f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 14/26] fix: torched check_if_covered tests both flows

It is documented to tell whether a point falls within the forward and the backward
density, and does so in DPFC; here it accepted points within neither.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 2ee513e..ad4f85c 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1493,8 +1493,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
             
             
 
-- 
2.43.0


From 03416d6782c4fcfaf00bf16c0d307d797c05fe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 15/26] fix: RBF.gradient_X of its own arguments

It multiplied with the kernel matrix of whatever points Kernel() had last been
called with (an error if none), and did not convert arrays or default Y as Kernel
does and its signature says.
---
 DeterministicParticleFlowControl/kernels/RBF_pytorch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..ccf7640 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -132,12 +132,19 @@ class RBF:
             Array with the gradient of the Kernel -> (N, M, D).
 
         """
+        K = self.Kernel(X, Y) #evaluated here, K_data may belong to other points
+        if not torch.is_tensor(X):
+          X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+          Y = X
+        elif not torch.is_tensor(Y):
+          Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
         #N, D = X.shape    
         M,_ = Y.shape
         diffs = X[:,None]-Y            
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.K_data)
+        redifs = torch.einsum( 'ijk,ij->ijk', redifs, K)
         #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l,True))/(l[ii]*l[ii])   
         #else:
             #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l))/(l*l)
-- 
2.43.0


From a5bba783641cf27a02b907ac7cbb76a8415dd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 16/26] fix: honour C in the torched score function

The argument was overwritten with its default value.
---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ff66856..05c41d9 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -65,7 +65,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From ebf997ffe146e1c0d53258a441afa2df3085aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 17/26] fix: documented argument types of the torched score
 function

Array-like lengthscales failed in the returned function, scalar tensors and mixed
array/tensor samples and inducing points failed at once, and with a scalar
lengthscale the returned function did not accept tensors.
---
 .../score_function_estimators_pytorch.py         | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 05c41d9..d85c7f0 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -70,12 +70,14 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
 
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if Z is None:
+        Z = X
+    elif not torch.is_tensor(Z):
+        Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if isinstance(l, (list, tuple, np.ndarray)):
+        l = torch.tensor(l, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if torch.is_tensor(l) and l.numel()>1:
           multil = True
 
           ### for different lengthscales for each dimension
@@ -147,8 +149,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
                   def K_sz(y):
                       if not torch.is_tensor(y):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
-                      X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
+                          y = torch.tensor(y, dtype=torch.float64, device=device)
+                      X_i = y[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
                       # Divide by length scale
-- 
2.43.0


From bb207951e06b0055172da238665d3d001e1f33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 18/26] fix: check the shapes in my_cdist

The compiled loops check no bounds: with points of different dimension it read past
the end of the second array, and with a too small output it wrote past its end.
---
 .../score_estimators/score_function_estimators.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
index 95d2332..04d44e5 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
@@ -62,6 +62,8 @@ def my_cdist(r,y, output,dist='euclidean'):
     N, M = r.shape
     N2, M2 = y.shape
     #assert( M == M2, 'The two inpus have different second dimention! Input should be N1xM and N2xM')
+    if M != M2 or output.shape[0] < N or output.shape[1] < N2: #nothing below checks the bounds
+        raise ValueError('my_cdist expects an NxM and an N2xM array, and an NxN2 output')
     if dist == 'euclidean':
         for i in numba.prange(N):
             for j in numba.prange(N2):
-- 
2.43.0


From 9cfe7bb6e36196d6b92c3499ab21de7b5a0a8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 19/26] fix: one diffusion coefficient for each dimension

g is documented as float or array_like. An array of dim coefficients was broadcast
along the particles: an error, or with dim particles the wrong coefficients.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ad4f85c..4e082bc 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -173,6 +173,8 @@ class DPFC(object):
         # DRIFT /DIFFUSION
         self.f = f
         self.g = g #scalar or array
+        if np.ndim(g) == 1: ### one coefficient for each dimension
+            self.g = np.reshape(g, (-1, 1))
 
         ### PARTICLE DISCRETISATION
         self.N = N
@@ -830,6 +832,8 @@ class torched_DPFC(object):
         # DRIFT /DIFFUSION
         self.f = f
         self.g = torch.tensor(g, dtype=torch.float64, device=self.device) #scalar or array
+        if self.g.dim() == 1: ### one coefficient for each dimension
+            self.g = self.g.view(-1, 1)
 
         ### PARTICLE DISCRETISATION
         self.N = torch.tensor(N, dtype=torch.int, device=self.device)
-- 
2.43.0


From d940a3de65e7bf2b31f86dd8fefa3a50b59829b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 20/26] fix: sample the true forward flow of a Brownian bridge
 in stochastic runs too

calculate_u needs it whenever brown_bridge is set; with deterministic=False it was
never sampled, and the controls were computed from an array of zeros.
---
 .../DeterministicParticleFlowControl.py            | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 4e082bc..54ad5d5 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -213,11 +213,11 @@ class DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
         # if self.reject:
@@ -878,12 +878,12 @@ class torched_DPFC(object):
         ##the stochastic sampling is provided for comparison
         if self.deterministic:
             self.forward_sampling_Otto()
-            
-            ### if a Brownian bridge is used for forward sampling
-            if self.reweight and self.brown_bridge:
-                self.forward_sampling_Otto_true()
         else:
             self.forward_sampling()
+            
+        ### if a Brownian bridge is used for forward sampling
+        if self.reweight and self.brown_bridge:
+            self.forward_sampling_Otto_true()
         
         ## the backward function selects internally for type of dynamics
         self.backward_simulation()
-- 
2.43.0


From a92cebbde778c102c5bc3f2c100ae7b4214f9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:23 +0000
Subject: [PATCH 21/26] fix: draw the noise of the torched flows on the
 requested device

Two of the four draws were made on the default device with the default precision, so
they failed with any other device.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 54ad5d5..0305302 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -915,7 +915,7 @@ class torched_DPFC(object):
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
                                  (self.g)*\
-                                     torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                     torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
@@ -1084,7 +1084,7 @@ class torched_DPFC(object):
                                           #substract dt because I want the time at t-1
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                                       self.dt*self.f_true(self.Ztr[:, :, ti-1], tt-self.dt)+\
-                                 (self.g)*torch.empty([self.dim, self.N]).normal_(mean=0, std=torch.sqrt(self.dt))
+                                 (self.g)*torch.empty([self.dim, self.N], dtype=torch.float64, device=self.device).normal_(mean=0, std=torch.sqrt(self.dt))
             else:
                 self.Ztr[:, :, ti] = self.Ztr[:, :, ti-1] + \
                     self.dt* self.f_seperate_true(self.Ztr[:, :, ti-1], tt-self.dt)
-- 
2.43.0


From cd5753f966fd556f678c2d58195376b445eb6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 22/26] fix: do not keep the autograd history of the torched
 flows

Every stored time step held on to all kernel matrices it was computed from (about
4.6 MB per step with N=200, M=40), so memory grew with the number of steps until it
ran out, and calculate_u returned tensors that cannot be converted to arrays.
---
 .../score_estimators/score_function_estimators_pytorch.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index d85c7f0..a4a81bd 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -99,10 +99,13 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
+    # the lengthscale of the RBF instances requires gradients, which nobody can use here:
+    # without detaching, flows computed from the scores keep every kernel of every step
+    K_xz, K_s = K_xz.detach(), K_s.detach()
     Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, device=device))
     A = torch.t(K_xz) @ K_xz ##matrix multilication
     #compute the gradient of the X x Z kernel
-    gradx_K = -K_instance.gradient_X(X, Z) #shape: (N,M,dim)
+    gradx_K = -K_instance.gradient_X(X, Z).detach() #shape: (N,M,dim)
     ##last axis will have the gradient for each dimension ### shape (M, dim)
     sumgradx_K = torch.sum(gradx_K ,axis=0)
 
-- 
2.43.0


From be625b77958709aa3c3f1987a0654b37c0c67354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 23/26] fix: regularise the torched score in double precision

---
 .../score_function_estimators_pytorch.py               | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index a4a81bd..dd6d55b 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -102,7 +102,7 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
     # the lengthscale of the RBF instances requires gradients, which nobody can use here:
     # without detaching, flows computed from the scores keep every kernel of every step
     K_xz, K_s = K_xz.detach(), K_s.detach()
-    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, device=device))
+    Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, dtype=torch.float64, device=device))
     A = torch.t(K_xz) @ K_xz ##matrix multilication
     #compute the gradient of the X x Z kernel
     gradx_K = -K_instance.gradient_X(X, Z).detach() #shape: (N,M,dim)
@@ -118,8 +118,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         #                 Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv@sumgradx_K[:,di]
 
         for di in range(dim):
-            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, device=device) + \
-                                            Ksinv @ A + 1e-3 * torch.eye(M, device=device))\
+            res1[:,di] = -K_xz @ torch.linalg.inv( C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                            Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))\
                                             @ Ksinv @ sumgradx_K[:,di]
 
         #res1 = np.einsum('ik,kj->ij', -K_xz @ np.linalg.inv( C*np.eye(Z.shape[0], Z.shape[0]) + Ksinv @ A + 1e-3 * np.eye(Z.shape[0]))@ Ksinv, sumgradx_K)
@@ -165,8 +165,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
 
-        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, device=device) + \
-                                                      Ksinv @ A + 1e-3 * torch.eye(M, device=device))) @ Ksinv@sumgradx_K
+        res1 = lambda x: K_sz(x) @ (-torch.linalg.inv(C*torch.eye(M, M, dtype=torch.float64, device=device) + \
+                                                      Ksinv @ A + 1e-3 * torch.eye(M, dtype=torch.float64, device=device))) @ Ksinv@sumgradx_K
 
 
     return res1   ### shape out N x dim
\ No newline at end of file
-- 
2.43.0


From 535212ac7dfe8ba63074a96c2d8135fd66378cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 24/26] fix: transport map independent of the units of the
 samples

---
 .../reweighting/optimal_transport_reweighting.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py b/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
index 55ccdf4..8bec381 100644
--- a/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
+++ b/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
@@ -47,6 +47,8 @@ def reweight_optimal_transport_multidim(samples, weights):
     num_samples = samples.shape[0] ## this should be the number of points
 
     covar = squareform(pdist(samples, 'euclidean'))
+    if covar.max() > 0: # the solver works with absolute tolerances
+        covar = covar / covar.max()
     b = np.ones((num_samples, 1)) / num_samples  # uniform distribution on samples
 
     _, T = emd_with_flow(weights.reshape(-1, ), b.reshape(-1, ), covar, -1)
-- 
2.43.0


From 346f1192cb1294ddf2283e4d8f152f43e8334e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 25/26] fix: use every dimension in the functional output of
 the legacy score estimator

---
 DeterministicParticleFlowControl/score_estimators/score.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..0c82f50 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -104,9 +104,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
     else:           
         #### for function output 
         if multil:                
-            #res = np.ones((x.shape[0],y.shape[0]))                
-            #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: K(x, Z, l, multil=True)
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From 11961b631f60e22dec43b88d2ff9430575f8899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 26/26] fix: move the particles by the squared distance in the
 transport map

The map was optimal for the Euclidean distance, with the mass common to
both histograms kept in place, instead of for the squared distances of
the docstring (and of the PyTorch controller). The weighted cloud is
then averaged over distant particles, its spread collapses, and flows
with a path cost have a wrong mean and spread however many particles
and inducing points there are.
---
 .../reweighting/optimal_transport_reweighting.py      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py b/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
index 8bec381..6bdaa6a 100644
--- a/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
+++ b/DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py
@@ -46,14 +46,19 @@ def reweight_optimal_transport_multidim(samples, weights):
 
     num_samples = samples.shape[0] ## this should be the number of points
 
-    covar = squareform(pdist(samples, 'euclidean'))
+    covar = squareform(pdist(samples, 'sqeuclidean'))
     if covar.max() > 0: # the solver works with absolute tolerances
         covar = covar / covar.max()
     b = np.ones((num_samples, 1)) / num_samples  # uniform distribution on samples
 
-    _, T = emd_with_flow(weights.reshape(-1, ), b.reshape(-1, ), covar, -1)
+    # emd_with_flow keeps the mass that a bin has in both histograms where it is, which is optimal
+    # only for a metric: give the particles before and after the transformation bins of their own
+    none = np.zeros(num_samples)
+    _, T = emd_with_flow(np.concatenate((weights.reshape(-1, ), none)),
+                         np.concatenate((none, b.reshape(-1, ))),
+                         np.tile(covar, (2, 2)), -1)
 
-    T = np.array(T)*num_samples
+    T = np.array(T)[:num_samples, num_samples:]*num_samples
 
 
     return T    #%%
-- 
2.43.0

