From 17b6d316552e964db4e04d929402857a4d8cd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/19] fix: import RBF from the kernels package one level up

score_estimators has no kernels subpackage, so importing the package failed.
---
 .../score_estimators/score_function_estimators_pytorch.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index fa4aed1..02c2ae5 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -8,7 +8,7 @@ Created on Wed Jan 19 01:15:07 2022
 import torch
 import numpy as np
 from typing import Union
-from .kernels.RBF_pytorch import RBF
+from ..kernels.RBF_pytorch import RBF
 
 __all__ = ["torched_score_function_multid_seperate_all_dims"]
 
-- 
2.43.0


From 5690eeb5894f6e225a724cebbaa4d5684c2d93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 02/19] fix: my_cdist 'l1' computed the Euclidean distance

---
 .../score_estimators/score_function_estimators.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
index 4d0c857..391262a 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators.py
@@ -31,7 +31,7 @@ def my_cdist(r,y, output,dist='euclidean'):
     """   
     Fast computation of pairwise distances between data points in r and y matrices.
     Stores the distances in the output array.
-    Available distances: 'euclidean' and 'seucledian'
+    Available distances: 'euclidean', 'sqeuclidean' and 'l1'
     
     Parameters
     ----------
@@ -72,8 +72,8 @@ def my_cdist(r,y, output,dist='euclidean'):
             for j in numba.prange(N2):
                 tmp = 0.0
                 for k in range(M):
-                    tmp += (r[i, k] - y[j, k])**2          
-                output[i,j] = math.sqrt(tmp)   
+                    tmp += abs(r[i, k] - y[j, k])
+                output[i,j] = tmp
     return 0
 
 
-- 
2.43.0


From 8f7b3b7af2203aa01903f792e703d2d941ab62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 03/19] fix: torch score estimator ignored the weighting
 constant C

---
 .../score_estimators/score_function_estimators_pytorch.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 02c2ae5..baae941 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -61,7 +61,6 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
 
 
     M, dim = Z.shape
-    C = 0.001
 
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
-- 
2.43.0


From f852e94e6345cb5e8bb15831619d102de5e31d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 04/19] fix: torch score estimator converts array inducing
 points also when X is a tensor

---
 .../score_estimators/score_function_estimators_pytorch.py  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index baae941..f358595 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -65,11 +65,8 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
     if not torch.is_tensor(X):
           # convert inputs to pytorch tensors if not already pytorched
           X = torch.tensor(X, dtype=torch.float64, device=device)
-
-          if Z is None:
-              Z = X
-          elif not torch.is_tensor(Z):
-              Z = torch.tensor(Z, dtype=torch.float64, device=device)
+    if not torch.is_tensor(Z):
+          Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
     if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
           multil = True
-- 
2.43.0


From 0099eeb1cf65154d1e0f4973cb9e62693f205437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 05/19] fix: torch score estimator accepts list, array and 0-d
 tensor lengthscales

The functional output divided a tensor by the raw list/array and failed.
---
 .../score_estimators/score_function_estimators_pytorch.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index f358595..ede98cc 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -68,8 +68,9 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
     if not torch.is_tensor(Z):
           Z = torch.tensor(Z, dtype=torch.float64, device=device)
     N, D = X.size()
-    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.size(dim=0)>1):
+    if isinstance(l, (list, tuple, np.ndarray)) or (torch.is_tensor(l) and l.dim()>0 and l.size(dim=0)>1):
           multil = True
+          l = torch.as_tensor(l, dtype=torch.float64, device=device)
 
           ### for different lengthscales for each dimension
 
-- 
2.43.0


From 63bfc647c6ebe5b2efb609fc6b5444d2ae4b884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/19] fix: torch score function with a single lengthscale
 accepts tensor queries

A tensor argument left xu unbound, so one-dimensional systems failed.
---
 .../score_estimators/score_function_estimators_pytorch.py   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index ede98cc..37c15ea 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -138,10 +138,10 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
         elif not multil:
             if kern=='RBF':
 
-                  def K_sz(y):
-                      if not torch.is_tensor(y):
+                  def K_sz(xu):
+                      if not torch.is_tensor(xu):
                           # convert inputs to pytorch tensors if not already pytorched
-                          xu = torch.tensor(y, dtype=torch.float64, device=device)
+                          xu = torch.tensor(xu, dtype=torch.float64, device=device)
                       X_i = xu[:, None, :] # shape (n, D) -> (n, 1, D)
                       Z_j = Z[None, :, :] # shape (M, D) -> (1, M, D)
                       sqd     = torch.sum( (X_i - Z_j)**2, 2)         # |X_i - Y_j|^2 # (N, M, D)
-- 
2.43.0


From 6b0fbeaf9227b2d6cf02c0ee3658d56d101975d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 07/19] fix: RBF.gradient_X used the kernel of an earlier call

It multiplied by whatever K_data the last Kernel() call left (0 on a new
instance), and failed without Y or with array inputs.
---
 .../kernels/RBF_pytorch.py                             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 231abd4..8c8bc38 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -132,12 +132,16 @@ class RBF:
             Array with the gradient of the Kernel -> (N, M, D).
 
         """
-        #N, D = X.shape    
-        M,_ = Y.shape
+        if not torch.is_tensor(X):
+            X = torch.tensor(X, dtype=torch.float64, device=self.device)
+        if Y is None:
+            Y = X
+        elif not torch.is_tensor(Y):
+            Y = torch.tensor(Y, dtype=torch.float64, device=self.device)
         diffs = X[:,None]-Y            
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.K_data)
+        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.Kernel(X, Y))
         #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l,True))/(l[ii]*l[ii])   
         #else:
             #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l))/(l*l)
-- 
2.43.0


From f9377ebf80623a63c803fb2c1ed904d050d4302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 08/19] fix: sign of RBF.gradient_X

It returned the gradient with respect to the second argument; its only caller
negated it.
---
 DeterministicParticleFlowControl/kernels/RBF_pytorch.py         | 2 +-
 .../score_estimators/score_function_estimators_pytorch.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
index 8c8bc38..bbc0e94 100644
--- a/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
+++ b/DeterministicParticleFlowControl/kernels/RBF_pytorch.py
@@ -141,7 +141,7 @@ class RBF:
         diffs = X[:,None]-Y            
         #if self.multil:            
         redifs = torch.div(diffs, self.length_scale.to(self.device)**2)
-        redifs = torch.einsum( 'ijk,ij->ijk', redifs, self.Kernel(X, Y))
+        redifs = -torch.einsum( 'ijk,ij->ijk', redifs, self.Kernel(X, Y))
         #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l,True))/(l[ii]*l[ii])   
         #else:
             #redifs[:,:,ii] = np.multiply(diffs[:,:,ii],K(x,y,l))/(l*l)
diff --git a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
index 37c15ea..63cde6a 100644
--- a/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
+++ b/DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py
@@ -94,7 +94,7 @@ def torched_score_function_multid_seperate_all_dims(X: np.ndarray, Z: np.ndarray
     Ksinv = torch.linalg.inv(K_s+ 1e-3 * torch.eye(M, device=device))
     A = torch.t(K_xz) @ K_xz ##matrix multilication
     #compute the gradient of the X x Z kernel
-    gradx_K = -K_instance.gradient_X(X, Z) #shape: (N,M,dim)
+    gradx_K = K_instance.gradient_X(X, Z) #shape: (N,M,dim)
     ##last axis will have the gradient for each dimension ### shape (M, dim)
     sumgradx_K = torch.sum(gradx_K ,axis=0)
 
-- 
2.43.0


From 79d15c0057b3f58631f2baf1e44b5d84269fe622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 09/19] fix: control points were clipped to a half-filled
 bounds array (Brownian bridge)

The bounds were filled for one dimension at a time and used row-wise, so the
forward score was evaluated at wrong positions.
---
 .../DeterministicParticleFlowControl.py                      | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d33466e..71084e9 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -680,10 +680,7 @@ class DPFC(object):
                 if self.reweight == False or self.brown_bridge == False:
                     score_Fw = score_function_multid_seperate(self.Z[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc2, which_dim=di+1, kern=self.kern)(grid_z)
                 else:
-                    bndsztr = np.zeros((self.dim, 2))
-                    for ii in range(self.dim):
-                        bndsztr[di] = [np.min(self.Ztr[di, :, ti]), np.max(self.Ztr[di, :, ti])]
-                    grid_ztr = np.clip(grid_x, bndsztr[0], bndsztr[1])
+                    grid_ztr = grid_x
                     lnthsc3 = 2*np.std(self.Ztr[:, :, ti], axis=1)
                     score_Fw = score_function_multid_seperate(self.Ztr[:, :, ti].T, Sxx.T, func_out=True, C=0.001, which=1, l=lnthsc3, which_dim=di+1, kern=self.kern)(grid_ztr)
 
-- 
2.43.0


From c4bedf48c63017f9d8e062381cd08454b5478518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 10/19] fix: torched_DPFC.f_seperate_true passed its arrays
 transposed

Inducing points and the returned score had swapped axes, so Brownian bridge
reweighting always failed.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 71084e9..c3b994a 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -980,14 +980,14 @@ class torched_DPFC(object):
 
 
         gpsi = torched_score_function_multid_seperate_all_dims(torch.t(x),
-                                                               torch.t(Sxx),
+                                                               Sxx,
                                                                func_out=False,
                                                                C=0.001,
                                                                l=lnthsc,
                                                                kern=self.kern,
                                                                device=self.device)
 
-        return self.f_true(x, t)-0.5* self.g**2* gpsi
+        return self.f_true(x, t)-0.5* self.g**2* torch.t(gpsi)
 
 
     ### effective forward drift - estimated seperatelly for each dimension
-- 
2.43.0


From c9dd4251cfcd549ee2a6220b3db59dae6580b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 11/19] fix: stochastic forward sampling assumed a
 two-dimensional system

---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index c3b994a..b52b774 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -239,8 +239,8 @@ class DPFC(object):
         for ti, tt in enumerate(self.timegrid):
 
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
@@ -908,8 +908,8 @@ class torched_DPFC(object):
         
         for ti, tt in enumerate(self.timegrid):
             if ti == 0:
-                self.Z[0, :, 0] = self.y1[0]
-                self.Z[1, :, 0] = self.y1[1]
+                for di in range(self.dim):
+                    self.Z[di, :, 0] = self.y1[di]
             else:
                 self.Z[:, :, ti] = self.Z[:, :, ti-1] + \
                                     self.dt*self.f(self.Z[:, :, ti-1], tt-self.dt)+\
-- 
2.43.0


From 3b1af3ae20b4bd6ebb97376f3ad634bceab6be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 12/19] fix: stochastic forward sampling did not pass the time
 to the drift

---
 .../DeterministicParticleFlowControl.py                         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index b52b774..ba1c434 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -245,7 +245,7 @@ class DPFC(object):
                 for i in range(self.N):
                     #self.Z[:,i,:] = sdeint.itoint(self.f, self.g, self.Z[i,0], self.timegrid)[:,0]
                     self.Z[:, i, ti] = (self.Z[:, i, ti-1] + \
-                                      self.dt* self.f(self.Z[:, i, ti-1]) + \
+                                      self.dt* self.f(self.Z[:, i, ti-1], tt-self.dt) + \
                                       (self.g)*np.random.normal(loc=0.0, scale=np.sqrt(self.dt), size=(self.dim,)))
 
                 ###WEIGHT
-- 
2.43.0


From f10f32ff32b77634def0e7e22f1d0c9deb29c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 13/19] fix: stochastic forward sampling called the path
 constraint without time and step

U(x,t) takes two arguments, and the weights are exp(U dt) as in the
deterministic flow.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ba1c434..9d6f137 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -251,7 +251,7 @@ class DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = np.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/np.sum(W)
 
                         ###REWEIGHT
@@ -918,7 +918,7 @@ class torched_DPFC(object):
                 ###WEIGHT
                 if self.reweight == True:
                     if ti > 0:
-                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti]))
+                        W[:, 0] = torch.exp(self.U(self.Z[:, :, ti], tt)*self.dt)
                         W = W/torch.sum(W)
 
                         ###REWEIGHT with pot TO DO:
-- 
2.43.0


From 1fa6e06b125b056c248f26f729002e95289320d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 14/19] fix: stochastic forward flow was overwritten with the
 target at the final time

The collapsed last slice has no spread, so the lengthscale of the first
backward step was zero (as in torched_DPFC, where the overwrite is disabled).
---
 .../DeterministicParticleFlowControl.py                         | 2 --
 1 file changed, 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 9d6f137..ca4deff 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -259,8 +259,6 @@ class DPFC(object):
 
                         self.Z[:, :, ti] = (self.Z[:, :, ti])@Tstar
 
-        for di in range(self.dim):
-            self.Z[di, :, -1] = self.y2[di]
         logging.info('Forward sampling done!')
         return 0
 
-- 
2.43.0


From a9d477688d765df77e59e61d10752e84c513e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 15/19] fix: torched_DPFC.check_if_covered accepted points
 outside either flow

It tested the hull of the union instead of the overlap that DPFC tests.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index ca4deff..d535ab8 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -1492,8 +1492,8 @@ class torched_DPFC(object):
         bnds = torch.zeros(self.dim, 2, dtype=torch.float64,
                           device=self.device)
         for ii in range(self.dim):
-            bnds[ii, 0] = min(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
-            bnds[ii, 1] = max(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
+            bnds[ii, 0] = max(torch.min(self.Z[ii, :, ti]), torch.min(self.B[ii, :, ti]))
+            bnds[ii, 1] = min(torch.max(self.Z[ii, :, ti]), torch.max(self.B[ii, :, ti]))
             
             
 
-- 
2.43.0


From c04e0686b74c8edc15747ee4568d07bb863bf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 16/19] fix: torched_DPFC failed for array end points

The dimension was read from y1 before the conversion to a tensor.
---
 .../DeterministicParticleFlowControl.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index d535ab8..7942394 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -809,8 +809,6 @@ class torched_DPFC(object):
                  device=None):
 
         self.device = device
-        # dimensionality of the system
-        self.dim = torch.tensor(y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
         self.t1 = t1
         self.t2 = t2
         if not torch.is_tensor(y1):
@@ -819,6 +817,8 @@ class torched_DPFC(object):
         else:
             self.y1 = y1
             self.y2 = y2
+        # dimensionality of the system
+        self.dim = torch.tensor(self.y1.size(dim=0), dtype=torch.int, device=self.device)  # dimensionality of the system
 
 
         ##density estimation stuff
-- 
2.43.0


From 70393e7dfdcdba73939f67ff4e3eb6dcadaa2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 17/19] fix: functional output of
 score_function_multid_seperate2 used two dimensions only

---
 DeterministicParticleFlowControl/score_estimators/score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DeterministicParticleFlowControl/score_estimators/score.py b/DeterministicParticleFlowControl/score_estimators/score.py
index 451b6c2..ccf57e1 100644
--- a/DeterministicParticleFlowControl/score_estimators/score.py
+++ b/DeterministicParticleFlowControl/score_estimators/score.py
@@ -106,7 +106,7 @@ def score_function_multid_seperate2(X,Z,func_out=False, C=0.001,kern ='RBF',l=1,
         if multil:                
             #res = np.ones((x.shape[0],y.shape[0]))                
             #for ii in range(len(l)): 
-            K_sz = lambda x: np.multiply(np.exp(-cdist(x[:,0].reshape(-1,1), Z[:,0].reshape(-1,1),'sqeuclidean')/(2*l[0]*l[0])),np.exp(-cdist(x[:,1].reshape(-1,1), Z[:,1].reshape(-1,1),'sqeuclidean')/(2*l[1]*l[1])))
+            K_sz = lambda x: K(x, Z, l, multil=True)
             #return K_sz
         else:
             K_sz = lambda x: np.exp(-cdist(x, Z,'sqeuclidean')/(2*l*l))
-- 
2.43.0


From fa9ee7815e143c92da4d6dabe5598254ad40fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 18/19] fix: documented shapes of calculate_u

Points are rows of grid_x and columns of the result.
---
 .../DeterministicParticleFlowControl.py                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index 7942394..a8b9ded 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -605,7 +605,7 @@ class DPFC(object):
         Parameters
         ----------
         grid_x : ndarray,
-                 size d x number of points to be evaluated.
+                 size number of points to be evaluated x d.
         ti     : int,
                   time index in timegrid for the computation of u.
 
@@ -613,7 +613,7 @@ class DPFC(object):
         Returns
         -------
         u_t: ndarray,
-             same size as grid_x. These are the controls u(grid_x, t),
+             size d x number of points. These are the controls u(grid_x, t),
              where t=self.timegrid[ti].
 
         """
@@ -1345,7 +1345,7 @@ class torched_DPFC(object):
         Parameters
         ----------
         grid_x : ndarray,
-                 size d x number of points to be evaluated.
+                 size number of points to be evaluated x d.
         ti     : int,
                   time index in timegrid for the computation of u.
 
@@ -1353,7 +1353,7 @@ class torched_DPFC(object):
         Returns
         -------
         u_t: ndarray,
-             same size as grid_x. These are the controls u(grid_x, t),
+             size d x number of points. These are the controls u(grid_x, t),
              where t=self.timegrid[ti].
 
         """
-- 
2.43.0


From 55d69ee5da9b795133e43aad230df04f25c2c67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 19/19] fix: stochastic control with a Brownian bridge used a
 true-drift flow that is never simulated

---
 .../DeterministicParticleFlowControl.py                     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
index a8b9ded..5f113a6 100644
--- a/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
+++ b/DeterministicParticleFlowControl/DeterministicParticleFlowControl.py
@@ -189,7 +189,8 @@ class DPFC(object):
         self.timegrid = np.arange(self.t1, self.t2+self.dt/2, self.dt)
         self.k = self.timegrid.size
         ### reweighting
-        self.brown_bridge = brown_bridge
+        ### the true drift flow is simulated only in deterministic mode
+        self.brown_bridge = brown_bridge and deterministic
         self.reweight = reweight
         if self.reweight:
             self.U = U
@@ -851,7 +852,8 @@ class torched_DPFC(object):
                                      dtype=torch.float64, device=self.device)
         self.k = torch.tensor(self.timegrid.size(dim=0), dtype=torch.int, device=self.device)
         ### reweighting
-        self.brown_bridge = brown_bridge
+        ### the true drift flow is simulated only in deterministic mode
+        self.brown_bridge = brown_bridge and deterministic
         self.reweight = reweight
         if self.reweight:
             self.U = U
-- 
2.43.0

