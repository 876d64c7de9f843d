From b815b03124179ad219e000aec8c93a6579ee7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 01/55] fix: Huber.prox switches to the L1 branch at alpha +
 tau

---
 pyproximal/proximal/Huber.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 2085c5b..5aa8ffe 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -36,8 +36,8 @@ class Huber(ProxOperator):
 
         \prox_{\tau H_\alpha(\cdot)}(\mathbf{x}) =
         \begin{cases}
-        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha \\
-        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha
+        \prox_{\frac{\tau}{2 \alpha} |x_i|^2}(x_i), & |x_i| \leq \alpha + \tau \\
+        \prox_{\tau |x_i|}(x_i), & |x_i| > \alpha + \tau
         \end{cases}
 
     """
@@ -60,7 +60,7 @@ class Huber(ProxOperator):
     def prox(self, x: NDArray, tau: float) -> NDArray:
         y = np.zeros_like(x)
         xabs = np.abs(x)
-        mask = xabs > self.alpha
+        mask = xabs > self.alpha + tau
         y[~mask] = self.l2.prox(x[~mask], tau)
         y[mask] = self.l1.prox(x[mask], tau)
         # alternative from https://math.stackexchange.com/questions/1650411/
-- 
2.43.0


From f540a877eaab75705f11e73c8bfc779151f8c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/55] fix: L21_plus_L1.prox for axis other than 0 and for
 fully thresholded groups with rho=1

---
 pyproximal/proximal/L21_plus_L1.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L21_plus_L1.py b/pyproximal/proximal/L21_plus_L1.py
index 10dcbd4..f5643a7 100644
--- a/pyproximal/proximal/L21_plus_L1.py
+++ b/pyproximal/proximal/L21_plus_L1.py
@@ -47,8 +47,14 @@ class L21_plus_L1(ProxOperator):
         l1 = np.maximum(np.abs(x) - thresh * self.rho, 0)
         # Axis defines what dimension to perform grouping over
         aux_l21 = np.sqrt(
-            np.sum(np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2, axis=axis)
+            np.sum(
+                np.maximum(np.abs(x) - thresh * self.rho, 0) ** 2,
+                axis=axis,
+                keepdims=True,
+            )
         )
+        # groups that are entirely thresholded are zeroed by l1 already
+        aux_l21 = np.where(aux_l21 == 0, 1.0, aux_l21)
         l21 = np.maximum(1 - thresh * (1 - self.rho) / aux_l21, 0)
         x = np.nan_to_num(x / np.abs(x)) * l1 * l21
         return x
-- 
2.43.0


From f4e5c680a3b7caf6832beba9dbbc72a5ec67735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 03/55] fix: Log1.prox for complex inputs adds delta to the
 magnitude

---
 pyproximal/proximal/Log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Log.py b/pyproximal/proximal/Log.py
index 5a9d10b..8b4a3c4 100644
--- a/pyproximal/proximal/Log.py
+++ b/pyproximal/proximal/Log.py
@@ -172,7 +172,7 @@ class Log1(ProxOperator):
                     np.abs(x[np.abs(x) > thresh])
                     - self.delta
                     + np.sqrt(
-                        np.abs(x[np.abs(x) > thresh] + self.delta) ** 2 - 2 * tau1
+                        (np.abs(x[np.abs(x) > thresh]) + self.delta) ** 2 - 2 * tau1
                     )
                 )
             )
-- 
2.43.0


From 3ce93973afebaadb936585acf8e512e757c7fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 04/55] fix: QuadraticEnvelopeCard.prox threshold for tau
 larger than one

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index a07ee16..b13c1e4 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -87,7 +87,7 @@ class QuadraticEnvelopeCard(ProxOperator):
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
         r = np.abs(x)
-        idx = r < np.sqrt(2 * self.mu)
+        idx = r < np.sqrt(2 * self.mu * max(1.0, tau))
         if tau >= 1:
             r[idx] = 0
         else:
-- 
2.43.0


From ce9a858023d72ca22473a6e2792367335a8bf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 05/55] fix: QuadraticEnvelopeCardIndicator evaluation with
 r0=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index b13c1e4..10fe6dd 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -174,9 +174,7 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
         sums = np.cumsum(xs[::-1])
         sums = sums[-self.r0 :] / np.arange(1, self.r0 + 1)
         tmp = np.diff(sums) > 0
-        k_star = int(np.argmax(tmp))
-        if k_star == 0 and not tmp[k_star]:
-            k_star = self.r0 - 1
+        k_star = int(np.argmax(tmp)) if np.any(tmp) else self.r0 - 1
         return float(
             0.5
             * (
-- 
2.43.0


From ae3ac0559d1e4180c35579aa391762f4d0353189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 06/55] fix: QuadraticEnvelopeCardIndicator.prox keeps the r0
 largest entries for tau>=1

---
 pyproximal/proximal/QuadraticEnvelope.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 10fe6dd..628bb89 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -1,5 +1,4 @@
 import numpy as np
-from pylops.optimization.cls_sparsity import _hardthreshold
 from pylops.utils.typing import IntNDArray, NDArray, ShapeLike
 
 from pyproximal.ProxOperator import ProxOperator, _check_tau
@@ -186,14 +185,17 @@ class QuadraticEnvelopeCardIndicator(ProxOperator):
     @_check_tau
     def prox(self, y: NDArray, tau: float) -> NDArray:
         rho = 1 / tau
-        if rho <= 1:
-            return _hardthreshold(y, tau)
         if y.size <= self.r0:
             return y
 
         r = np.abs(y)
         theta = np.sign(y)
         id = np.argsort(-r, kind="quicksort")
+        if rho <= 1:
+            # minimizer has at most r0 nonzero entries
+            x = y.copy()
+            x[id[self.r0 :]] = 0
+            return x
         rsort = r[id]
         idinv = np.zeros_like(id)
         idinv[id] = np.arange(r.size)
-- 
2.43.0


From 7371822c9d2de3add60e26ef758c1e2005c81d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 07/55] fix: L1BallProj leaves points inside the ball unchanged

---
 pyproximal/projection/L1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/L1.py b/pyproximal/projection/L1.py
index e6991fd..ef7d4d6 100644
--- a/pyproximal/projection/L1.py
+++ b/pyproximal/projection/L1.py
@@ -30,8 +30,9 @@ class L1BallProj:
 
     .. math::
 
-        P_{L1_{r}} (\mathbf{x}) = sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(\mathbf{x})
+        P_{L1_{r}} (\mathbf{x}) = sign(\mathbf{x}) P_{\operatorname{Simplex}(r)}(|\mathbf{x}|)
 
+    if :math:`||\mathbf{x}||_1 > r`, and :math:`\mathbf{x}` itself otherwise.
     Note that this is the proximal operator of the corresponding
     indicator function :math:`\mathcal{I}_{L1_{r}}`.
 
@@ -49,6 +50,8 @@ class L1BallProj:
         self.simplex = SimplexProj(n, radius, maxiter, xtol)
 
     def __call__(self, x: NDArray) -> NDArray:
+        if np.sum(np.abs(x)) <= self.radius:
+            return x.copy()
         if np.iscomplexobj(x):
             return np.exp(1j * np.angle(x)) * self.simplex(np.abs(x))
         else:
-- 
2.43.0


From c3b630e163e6838d6841f514508b5901ed9c821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 08/55] fix: L0BallProj and L10BallProj with zero radius

---
 pyproximal/projection/L0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index e470d28..3265802 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -34,7 +34,7 @@ class L0BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xshape = x.shape
         xf = x.copy().flatten()
-        xf[np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xf[np.argsort(np.abs(xf))[: max(0, xf.size - self.radius)]] = 0
         return xf.reshape(xshape)
 
 
@@ -71,7 +71,7 @@ class L10BallProj:
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
         xf = np.linalg.norm(x, axis=0, ord=1)
-        xc[:, np.argsort(np.abs(xf))[: -self.radius]] = 0
+        xc[:, np.argsort(np.abs(xf))[: max(0, xf.size - self.radius)]] = 0
         return xc
 
 
-- 
2.43.0


From ea6aea2463179d94fc326faf02a91748560690a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 09/55] fix: IntersectionProj does not overwrite its input

---
 pyproximal/projection/Intersection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index bdd765d..86202d9 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,7 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n)
+        x = x.reshape(self.k, self.n).copy()
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 2e8aa6266ee6f44a629313ba2ff87868d390c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 10/55] fix: L1.proxdual projects complex inputs on the disc of
 radius sigma

---
 pyproximal/proximal/L1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyproximal/proximal/L1.py b/pyproximal/proximal/L1.py
index 42129ae..45c0a49 100644
--- a/pyproximal/proximal/L1.py
+++ b/pyproximal/proximal/L1.py
@@ -148,7 +148,11 @@ class L1(ProxOperator):
     @_check_tau
     def proxdual(self, x: NDArray, tau: float) -> NDArray:
         if not isinstance(self.gdual, np.ndarray):
-            x = self.box(x)
+            if np.iscomplexobj(x):
+                # projection onto the disc of radius sigma
+                x = x - _softthreshold(x, self.box.upper)
+            else:
+                x = self.box(x)
         else:
             x = self._proxdual_moreau(x, tau)
         return x
-- 
2.43.0


From 7320c363a5be59a3c7a3a55b99f1797440f5751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 11/55] fix: Orthogonal evaluation does not overwrite its input

---
 pyproximal/proximal/Orthogonal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/Orthogonal.py b/pyproximal/proximal/Orthogonal.py
index b284d5c..29884eb 100644
--- a/pyproximal/proximal/Orthogonal.py
+++ b/pyproximal/proximal/Orthogonal.py
@@ -77,7 +77,7 @@ class Orthogonal(ProxOperator):
 
     def __call__(self, x: NDArray) -> bool | float | int:
         y = self.Q.matvec(x)
-        y += self.b
+        y = y + self.b
         f = self.f(y)
         return f
 
-- 
2.43.0


From 01cd71c6e0769d0e47895ff132048f0df82aebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 12/55] fix: L2.prox with a linear term does not overwrite its
 input

---
 pyproximal/proximal/L2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/L2.py b/pyproximal/proximal/L2.py
index f38f53b..fa53e5f 100644
--- a/pyproximal/proximal/L2.py
+++ b/pyproximal/proximal/L2.py
@@ -265,7 +265,7 @@ class L2(ProxOperator):
             else:
                 y = x
                 if self.q is not None:
-                    y -= tau * self.alpha * self.q
+                    y = y - tau * self.alpha * self.q
                 x = regularized_inversion(
                     np.sqrt(tau * self.sigma) * self.Op,
                     np.sqrt(tau * self.sigma) * self.b,
@@ -290,7 +290,7 @@ class L2(ProxOperator):
         else:
             num = x
             if self.q is not None:
-                num -= tau * self.alpha * self.q
+                num = num - tau * self.alpha * self.q
             x = num / (1.0 + tau * self.sigma)
         return x
 
-- 
2.43.0


From c0621af3d9a2ef4e1a193b02f1d3472d91d2bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 13/55] fix: Sum does not normalise the caller's weights in
 place

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 3596435..683b030 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -104,7 +104,7 @@ def parallel_dykstra_prox(
     m = len(prox_ops)
     z = ncp.stack([x0.copy() for _ in range(m)])
     w = ncp.asarray(weights, dtype=float)
-    w /= w.sum()
+    w = w / w.sum()
 
     for _ in range(niter):
         x_old = x.copy()
-- 
2.43.0


From 9135a95f8747a5099d95248b343064726b625371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 14/55] fix: parallel Dykstra-like prox stops only when all its
 components agree

---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 683b030..720e95e 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -112,7 +112,7 @@ def parallel_dykstra_prox(
         x = ncp.sum(w[:, None] * prox_z, axis=0)
         z = z + x - prox_z
 
-        if ncp.abs(x - x_old).max() < tol:
+        if max(ncp.abs(x - x_old).max(), ncp.abs(prox_z - x).max()) < tol:
             break
 
     return x
-- 
2.43.0


From 511de1f292687ebc43b083a3b9c48ef7080e3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 15/55] fix: scaling a functional by an integer

---
 pyproximal/ProxOperator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index f32d07c..7c01dee 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -303,7 +303,7 @@ class ProxOperator:
 
     def __rmul__(self, sigma: Union[float, int, "ProxOperator"]) -> "ProxOperator":
         if isinstance(sigma, (int, float)):
-            return self.postcomposition(sigma)
+            return self.postcomposition(float(sigma))
         else:
             return self.chain(sigma)
 
-- 
2.43.0


From 6e79efa541f5ef3d8b3e0b323b6ff48c49596162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 16/55] fix: gradtest_proximal perturbs the imaginary part of
 complex inputs only

---
 pyproximal/utils/gradtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 96ec9c7..1534560 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -93,7 +93,7 @@ def gradtest_proximal(
 
     # choose location of perturbation, whether to act on x or y and on real or imag part
     iqx = np.random.randint(0, n)
-    r_or_i = np.random.randint(0, 2)
+    r_or_i = np.random.randint(0, 2) if ncp.iscomplexobj(x) else 0
 
     delta1: float | complex = delta
     if r_or_i != 0:
-- 
2.43.0


From 9a026461be0abd77f2a26af10da85965a17acdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 17/55] fix: gradient tests do not perturb the caller's input
 or operator in place

---
 pyproximal/utils/gradtest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 1534560..502a397 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -100,6 +100,7 @@ def gradtest_proximal(
         delta1 = delta * 1j
 
     # extract gradient value to test
+    x = x.copy()
     x[iqx] = x[iqx] + delta1
     grad = g[iqx]
 
@@ -202,7 +203,7 @@ def gradtest_bilinear(
     ny = Op.sizey
 
     # extract x and y from Op
-    x, y = Op.x.ravel(), Op.y.ravel()
+    x, y = Op.x.ravel().copy(), Op.y.ravel().copy()
 
     # compute function at x and y
     f = Op(x, y)
-- 
2.43.0


From 34eaa858da4780456378c16b26518dd9994b7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:12 +0000
Subject: [PATCH 18/55] fix: gradient tests apply the relative tolerance to the
 gradient

---
 pyproximal/utils/gradtest.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyproximal/utils/gradtest.py b/pyproximal/utils/gradtest.py
index 502a397..d891293 100644
--- a/pyproximal/utils/gradtest.py
+++ b/pyproximal/utils/gradtest.py
@@ -109,8 +109,9 @@ def gradtest_proximal(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (grad.real if r_or_i == 0 else grad.imag)
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
+    passed = bool(
+        ncp.isclose(grad_delta, grad.real if r_or_i == 0 else grad.imag, rtol, atol)
+    )
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
@@ -237,10 +238,9 @@ def gradtest_bilinear(
 
     # evaluate if gradient test passed
     grad_delta = (fdelta - f) / ncp.abs(delta)
-    grad_diff = grad_delta - (
-        grad.real if not complexflag or r_or_i == 0 else grad.imag
+    passed = bool(
+        ncp.isclose(grad_delta, grad.real if r_or_i == 0 else grad.imag, rtol, atol)
     )
-    passed = bool(ncp.isclose(grad_diff, 0, rtol, atol))
 
     # verbosity or error raising
     if (not passed and raiseerror) or verb:
-- 
2.43.0


From c43e53d84e0e3d551a5f0b1a9f2fbc3c6dc2012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 19/55] fix: GeneralizedProximalGradient accepts weights
 summing to one up to round-off

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index fad1fe7..683111a 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -805,7 +805,7 @@ def GeneralizedProximalGradient(
     # check if weights sum to 1
     if weights is None:
         weights = np.ones(len(proxgs)) / len(proxgs)
-    if len(weights) != len(proxgs) or np.sum(weights) != 1.0:
+    if len(weights) != len(proxgs) or not np.isclose(np.sum(weights), 1.0):
         msg = f"omega={weights} must be an array of size {len(proxgs)} summing to 1"
         raise ValueError(msg)
 
-- 
2.43.0


From c5e8467d13368224588977ddd578156cc50cdca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 20/55] fix: AndersonProximalGradient starts its histories with
 r0 and g0 in the right lists

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 683111a..9456152 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -626,10 +626,10 @@ def AndersonProximalGradient(
     r = g - x0
     R, G = (
         [
-            g,
+            r,
         ],
         [
-            r,
+            g,
         ],
     )
     pf = proxf(x)
-- 
2.43.0


From 1125e626f9d42fb5f7698b47448338e1abe47b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 21/55] fix: AndersonProximalGradient regularises the diagonal
 of the Gram matrix

---
 pyproximal/optimization/primal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 9456152..b04358e 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -651,7 +651,9 @@ def AndersonProximalGradient(
 
         # solve for alpha coefficients
         Rstack = np.vstack(R)
-        Rinv = np.linalg.pinv(Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2)
+        Rinv = np.linalg.pinv(
+            Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
+        )
         ones = np.ones(min(nhistory, iiter + 2))
         Rinvones = Rinv @ ones
         alpha = Rinvones / (ones[None] @ Rinvones)
-- 
2.43.0


From 10a80410f53c135a7450163f2bcfc9316f92d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 22/55] fix: safeguarded AndersonProximalGradient compares with
 the value at the current iterate

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index b04358e..24b7336 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -680,6 +680,7 @@ def AndersonProximalGradient(
             else:
                 x = proxg.prox(g, epsg[iiter] * tau)
                 y = g
+                pf = proxf(x)
 
         # run callback
         if callback is not None:
-- 
2.43.0


From 435a8c96f955bd7f432d0d20f654aa928a331708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 23/55] fix: PPXA starts from the weighted average of the
 initial vectors

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 24b7336..c0ce4e4 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1943,7 +1943,7 @@ def PPXA(  # pylint: disable=invalid-name
     else:
         y = ncp.full((m, x0.size), x0)  # y1_0 = y2_0 = ... = ym_0 = x0
 
-    x = ncp.mean(y, axis=0)
+    x = ncp.sum(w[:, None] * y, axis=0)
     x_old = x.copy()
 
     # iterate
-- 
2.43.0


From fa4c473715d1b1c4ea495637888d13bf65fbe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 24/55] fix: PPXA and ConsensusADMM accept tol=None

---
 pyproximal/optimization/primal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index c0ce4e4..043b1e6 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1964,7 +1964,7 @@ def PPXA(  # pylint: disable=invalid-name
                 print(f"{iiter + 1:6d}  {ncp.real(to_numpy(x[0])):12.5e}  {pf:10.3e}")
 
         # break if tolerance condition is met
-        if ncp.abs(x - x_old).max() < tol:
+        if tol is not None and ncp.abs(x - x_old).max() < tol:
             break
 
         x_old = x
@@ -2098,7 +2098,7 @@ def ConsensusADMM(  # pylint: disable=invalid-name
                 )
 
         # break if tolerance condition is met
-        if ncp.abs(x_bar - x_bar_old).max() < tol:
+        if tol is not None and ncp.abs(x_bar - x_bar_old).max() < tol:
             break
 
         x_bar_old = x_bar
-- 
2.43.0


From fc2dcf3428cd6b640baa2adc59f79a4d72a5aef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 25/55] fix: LinearizedADMM uses A x0 also when z0 is given

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 043b1e6..097cd6b 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1470,7 +1470,7 @@ def LinearizedADMM(
     """
     # initialize variables
     x, z = _x0z0_init(x0, z0, A, Opname="A")
-    Ax = A.matvec(x) if z0 is None else z
+    Ax = A.matvec(x)
     ncp = get_array_module(x)
     u = ncp.zeros_like(z)
 
-- 
2.43.0


From 82fb21d0330b016501758b3a8264128d4bf7c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 26/55] fix: ADMML2 with gfirst=True updates the dual variable
 with the new A x

---
 pyproximal/optimization/primal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 097cd6b..819cfa4 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1339,6 +1339,7 @@ def ADMML2(
                 ],
                 **kwargs_solver,
             )[0]
+            Ax = A @ x
         else:
             # solve augumented system
             x = regularized_inversion(
-- 
2.43.0


From c47a08a051921c07a6008fd5f89a4dd484369fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 27/55] fix: ProximalGradient with eta!=1 relaxes the step
 taken from y

---
 pyproximal/optimization/primal.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 819cfa4..ae506f9 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -379,17 +379,15 @@ def ProximalGradient(
             if eta == 1.0:
                 x = proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau)
             else:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
+                x = y + eta * (
+                    proxg.prox(y - tau * proxf.grad(y), epsg[iiter] * tau) - y
                 )
         else:
             x, tau = _backtracking(
                 y, tau, proxf, proxg, epsg[iiter], beta=beta, niterback=niterback
             )
             if eta != 1.0:
-                x = x + eta * (
-                    proxg.prox(x - tau * proxf.grad(x), epsg[iiter] * tau) - x
-                )
+                x = y + eta * (x - y)
 
         # update internal parameters for bilinear operator
         if isinstance(proxf, BilinearOperator):
-- 
2.43.0


From 98a64acc244c2ae8797e145cf41582e643d44b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 28/55] fix: backtracking uses the real inner product for
 complex vectors

---
 pyproximal/optimization/palm.py   | 4 +++-
 pyproximal/optimization/primal.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index a8bca32..e0939be 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -35,7 +35,9 @@ def _backtracking(
     ) -> float:
         xy = x - y[ix]
         return float(
-            f(*y) + np.dot(g, xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(*y)
+            + np.real(np.vdot(g, xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index ae506f9..eea2e05 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -37,7 +37,9 @@ def _backtracking(
     def ftilde(x: NDArray, y: NDArray, f: ProxOperator, tau: float) -> float:
         xy = x - y
         return float(
-            f(y) + np.dot(f.grad(y), xy) + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
+            f(y)
+            + np.real(np.vdot(f.grad(y), xy))
+            + (1.0 / (2.0 * tau)) * np.linalg.norm(xy) ** 2
         )
 
     iiterback = 0
-- 
2.43.0


From 4b99df1c42a5df4cdd05eb55783b0c9bb82dc4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 29/55] fix: iPALM initialises the step of the second block
 when only gammag is None

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index e0939be..da92ade 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -341,7 +341,7 @@ def iPALM(
     if gammaf is None:
         tauf = 1.0
         ck = 0.0
-    if gammaf is None:
+    if gammag is None:
         taug = 1.0
         dk = 0.0
 
-- 
2.43.0


From ae72aae80d426fe173bbea9fedd1aa44f90d8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 30/55] fix: PALM and iPALM line-search the second block with
 its own proximal operator

---
 pyproximal/optimization/palm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index da92ade..91713ce 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -190,7 +190,7 @@ def PALM(
                 y = proxg.prox(y, 1.0 / dk)
         else:
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
@@ -375,7 +375,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxf, 1, beta=beta, niterback=niterback
+                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 341e00ff9ffc1d0166fac1198ae6ecc58372e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 31/55] fix: iPALM line-searches the second block from the
 extrapolated point

---
 pyproximal/optimization/palm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 91713ce..37b6ae9 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -375,7 +375,7 @@ def iPALM(
         else:
             yold = y.copy()
             y, taug = _backtracking(
-                [x, y], taug, H, proxg, 1, beta=beta, niterback=niterback
+                [x, z], taug, H, proxg, 1, beta=beta, niterback=niterback
             )
         # update y parameter in H function
         H.updatey(y.copy())
-- 
2.43.0


From 55ef60acc942c2cafc93f78689b15681de531a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 32/55] fix: PALM and iPALM start from x0 and y0 also when H
 holds other factors

---
 pyproximal/optimization/palm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyproximal/optimization/palm.py b/pyproximal/optimization/palm.py
index 37b6ae9..ed9b91e 100644
--- a/pyproximal/optimization/palm.py
+++ b/pyproximal/optimization/palm.py
@@ -168,6 +168,8 @@ def PALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     for iiter in range(niter):
         # x step
         if gammaf is not None:
@@ -346,6 +348,8 @@ def iPALM(
         dk = 0.0
 
     x, y = x0.copy(), y0.copy()
+    H.updatex(x.copy())
+    H.updatey(y.copy())
     xold, yold = x0.copy(), y0.copy()
     for iiter in range(niter):
         # x step
-- 
2.43.0


From 21653a99d67e1fa8ca60ca2dd4b975125fc037d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 33/55] fix: primal-dual solvers do not add z in place to the
 (possibly shared) A^H y

---
 pyproximal/optimization/primaldual.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index d98491b..f9e3d65 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -180,13 +180,13 @@ def PrimalDual(
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
         else:
             ATy = A.rmatvec(y)
             if z is not None:
-                ATy += z
+                ATy = ATy + z
             x = proxf.prox(x - tau[iiter] * ATy, tau[iiter])
             xhat = x + theta * (x - xold)
             y = proxg.proxdual(y + mu[iiter] * A.matvec(xhat), mu[iiter])
@@ -360,7 +360,7 @@ def AdaptivePrimalDual(
 
         # proxf
         if z is not None:
-            ATy += z
+            ATy = ATy + z
         x = proxf.prox(x - tau * ATy, tau)
         Ax = A.matvec(x)
         Axhat = 2 * Ax - Axold
-- 
2.43.0


From b8436e22f1da65cb6b17b3a547996d28e14207af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 34/55] fix: AdaptivePrimalDual primal residual with an
 additional vector z

---
 pyproximal/optimization/primaldual.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index f9e3d65..1a43ffa 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -370,12 +370,7 @@ def AdaptivePrimalDual(
         ATy = A.rmatvec(y)
 
         # update steps
-        if z is not None:
-            p = float(
-                np.linalg.norm((xold - x) / tau - (ATyold - ATy) - A.rmatvec(z) + z)
-            )
-        else:
-            p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
+        p = float(np.linalg.norm((xold - x) / tau - (ATyold - ATy)))
         d = float(np.linalg.norm((yold - y) / mu - (Axold - Ax)))
 
         if p > s * d * delta:
-- 
2.43.0


From 08a8c183e25fc289592deca48a24d37bf4b123fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 35/55] fix: AdaptivePrimalDual extrapolates the first iterate
 from x0

---
 pyproximal/optimization/primaldual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primaldual.py b/pyproximal/optimization/primaldual.py
index 1a43ffa..f48ccf8 100644
--- a/pyproximal/optimization/primaldual.py
+++ b/pyproximal/optimization/primaldual.py
@@ -342,7 +342,7 @@ def AdaptivePrimalDual(
     # initialization
     x = x0.copy()
     y = np.zeros(A.shape[0], dtype=x.dtype)
-    Ax = np.zeros(A.shape[0], dtype=x.dtype)
+    Ax = A.matvec(x)
     ATy = np.zeros(A.shape[1], dtype=x.dtype)
     taus = np.zeros(niter + 1)
     mus = np.zeros(niter + 1)
-- 
2.43.0


From 45b95a952b95905cd2278324d9b1db81bffcd90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 36/55] fix: TwIST estimates missing weights from the
 eigenvalues of A^H A and keeps given ones

---
 pyproximal/optimization/primal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index eea2e05..e05d999 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -1617,14 +1617,16 @@ def TwIST(
     # find alpha and beta
     if alpha is None or beta is None:
         if eigs is None:
-            emin = A.eigs(neigs=1, which="SM")
-            emax = max([1, A.eigs(neigs=1, which="LM")])
+            AHA = A.H @ A
+            emin = max(0.0, float(AHA.eigs(neigs=1, symmetric=True, which="SM")[0]))
+            emax = float(AHA.eigs(neigs=1, symmetric=True, which="LM")[0])
         else:
             emax, emin = eigs
+        emax = max(1.0, emax)
         k = emin / emax
         rho = (1 - sqrt(k)) / (1 + sqrt(k))
-        alpha = 1 + rho**2
-        beta = 2 * alpha / (emax + emin)
+        alpha = 1 + rho**2 if alpha is None else alpha
+        beta = 2 * alpha / (emax + emin) if beta is None else beta
 
     # compute proximal of g on initial guess (x_1)
     xold = x0.copy()
-- 
2.43.0


From 05f6846ad40f43518a2eea11510f2c3a1ccfe4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 37/55] fix: AndersonProximalGradient started at a stationary
 point of f

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index e05d999..18f1a59 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -655,7 +655,7 @@ def AndersonProximalGradient(
             Rstack @ Rstack.T + epsr * np.linalg.norm(Rstack) ** 2 * np.eye(len(R))
         )
         ones = np.ones(min(nhistory, iiter + 2))
-        Rinvones = Rinv @ ones
+        Rinvones = Rinv @ ones if Rstack.any() else ones
         alpha = Rinvones / (ones[None] @ Rinvones)
 
         if not safeguard:
-- 
2.43.0


From 30cd5f239385d65cea01239bf323c27584235ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 38/55] fix: ProximalGradient with niter=0 returns the start
 instead of raising IndexError

---
 pyproximal/optimization/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index 18f1a59..d5608b6 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -326,8 +326,8 @@ def ProximalGradient(
     # check if epgs is a vector
     epsg = np.asarray(epsg, dtype=float)
     if epsg.size == 1:
+        epsg_print = str(epsg.item())
         epsg = epsg * np.ones(niter)
-        epsg_print = str(epsg[0])
     else:
         epsg_print = "Multi"
 
-- 
2.43.0


From 0a023047252f6e5570e6bc87eace0ee02aa2b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 39/55] fix: proximal point and gradient solvers with tol
 handle a vanishing objective

---
 pyproximal/optimization/primal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyproximal/optimization/primal.py b/pyproximal/optimization/primal.py
index d5608b6..3c76475 100644
--- a/pyproximal/optimization/primal.py
+++ b/pyproximal/optimization/primal.py
@@ -53,6 +53,17 @@ def _backtracking(
     return z, tau
 
 
+def _relchange(f: float, fold: float) -> float:
+    r"""Relative change of the objective function
+
+    An objective function that stays at zero has not changed
+
+    """
+    if fold == 0.0:
+        return 0.0 if f == 0.0 else np.inf
+    return np.abs(1.0 - f / fold)
+
+
 def _x0z0_init(
     x0: NDArray | None,
     z0: NDArray | None,
@@ -187,7 +198,7 @@ def ProximalPoint(
         if tol is not None:
             pfold = pf
             pf = prox(x)
-            if np.abs(1.0 - pf / pfold) < tol:
+            if _relchange(pf, pfold) < tol:
                 tolbreak = True
 
         # show iteration logger
@@ -416,7 +427,7 @@ def ProximalGradient(
             pfgold = pfg
             pf, pg = proxf(x), proxg(x)
             pfg = pf + np.sum(epsg[iiter] * pg)
-            if np.abs(1.0 - pfg / pfgold) < tol:
+            if _relchange(pfg, pfgold) < tol:
                 tolbreak = True
 
         # show iteration logger
@@ -692,7 +703,7 @@ def AndersonProximalGradient(
             pfgold = pfg
             pf, pg = proxf(x), proxg(x)
             pfg = pf + np.sum(epsg[iiter] * pg)
-            if np.abs(1.0 - pfg / pfgold) < tol:
+            if _relchange(pfg, pfgold) < tol:
                 tolbreak = True
 
         # show iteration logger
-- 
2.43.0


From 03553711fe7b36a55ef4cec90a6dd1d884596fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 40/55] fix: SR3 returned NaN when the inner LSQR finds the
 exact solution (e.g. identity operators)

---
 pyproximal/optimization/sr3.py | 417 +++++++++++++++++----------------
 1 file changed, 213 insertions(+), 204 deletions(-)

diff --git a/pyproximal/optimization/sr3.py b/pyproximal/optimization/sr3.py
index 10f3381..26b92fb 100644
--- a/pyproximal/optimization/sr3.py
+++ b/pyproximal/optimization/sr3.py
@@ -1,204 +1,213 @@
-from typing import TYPE_CHECKING
-
-import numpy as np
-import pylops
-from pylops.utils.typing import NDArray
-from scipy.sparse.linalg import lsqr as sp_lsqr
-
-if TYPE_CHECKING:
-    from pylops.linearoperator import LinearOperator
-
-
-def _lsqr(
-    Op: "LinearOperator",
-    data: NDArray,
-    iter_lim: int,
-    z_old: NDArray,
-    x0: NDArray,
-    kappa: float,
-    eps: float,
-    Reg: "LinearOperator",
-) -> NDArray:
-    r"""LSQR
-
-    This function uses LSQR to solve the inner iteration of SR3, given by
-
-    .. math::
-        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
-        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
-
-    LSQR is stopped when the maximum amount of iterations are reached or when
-    the stopping criterion is satisfied. There are no other stopping criteria,
-    hence the solver should not be used outside of the context of solving the
-    inner iteration of SR3.
-
-    Parameters
-    ----------
-    Op: :obj:`pylops.LinearOperator`
-        Forward operator. This is the stacked operator
-        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
-    data: :obj:`numpy.ndarray`
-        Data
-    iter_lim: :obj:`int`
-        Maximum number of iterations
-    z_old: :obj:`numpy.ndarray`
-        The previous outer iteration
-    x0: :obj:`numpy.ndarray`
-       initial guess
-    kappa: :obj:`float`
-        The regularization parameter for the inner iteration
-    eps: :obj:`float`
-        The regularization parameter for the outer iteration
-    Reg: :obj:`numpy.ndarray`
-        The regularization operator L
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution
-
-    """
-    data -= Op.matvec(x0)
-    x = x0
-    beta = np.linalg.norm(data)
-    u = data / beta
-    v = Op.rmatvec(u)
-    alpha = np.linalg.norm(v)
-    v = v / alpha
-    w = v
-    phi_bar = beta
-    rho_bar = alpha
-    for _ in range(iter_lim):
-        u = Op.matvec(v) - alpha * u
-        beta = np.linalg.norm(u)
-        u = u / beta
-        v = Op.rmatvec(u) - beta * v
-        alpha = np.linalg.norm(v)
-        v = v / alpha
-        rho = np.sqrt(rho_bar**2 + beta**2)
-        c = rho_bar / rho
-        s = beta / rho
-        theta = s * alpha
-        rho_bar = -c * alpha
-        phi = c * phi_bar
-        phi_bar = s * phi_bar
-        x += (phi / rho) * w
-        temp = Reg.matvec(x)
-        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
-        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
-            return x
-        w = v - (theta / rho) * w
-        z_old = z
-    return x
-
-
-def SR3(
-    Op: "LinearOperator",
-    Reg: "LinearOperator",
-    data: NDArray,
-    kappa: float,
-    eps: float,
-    x0: NDArray | None = None,
-    adaptive: bool = True,
-    iter_lim_outer: int = 100,
-    iter_lim_inner: int = 100,
-) -> NDArray:
-    r"""Sparse Relaxed Regularized Regression
-
-    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
-    an inverse problem with a sparsity constraint of the form
-
-    .. math::
-
-        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
-        \lambda\Vert \mathbf{Lx}\Vert_1
-
-    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
-    and instead solves
-
-    .. math::
-
-        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
-        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
-        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
-
-    Parameters
-    ----------
-    Op : :obj:`pylops.LinearOperator`
-        Forward operator
-    Reg : :obj:`numpy.ndarray`
-        Regularization operator
-    data : :obj:`numpy.ndarray`
-        Data
-    kappa : :obj:`float`
-        Parameter controlling the difference between :math:`\mathbf{z}`
-        and :math:`\mathbf{Lx}`
-    eps : :obj:`float`
-        Regularization parameter
-    x0 : :obj:`numpy.ndarray`, optional
-        Initial guess
-    adaptive : :obj:`bool`, optional
-        Use adaptive SR3 with a stopping criterion for the inner iterations
-        or not
-    iter_lim_outer : :obj:`int`, optional
-        Maximum number of iterations for the outer iteration
-    iter_lim_inner : :obj:`int`, optional
-        Maximum number of iterations for the inner iteration
-
-    Returns
-    -------
-    x: :obj:`numpy.ndarray`
-        Approximate solution.
-
-    Notes
-    -----
-    SR3 uses the following algorithm:
-
-        .. math::
-            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
-            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
-            \kappa \mathbf{L}^T\mathbf{y}_k) \\
-            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
-            (\mathbf{Lx}_{k+1})
-
-    """
-    (m, n) = Op.shape
-    if x0 is None:
-        x0 = np.zeros(n)
-    x = x0.copy()
-    p = Reg.shape[0]
-    v = np.zeros(p)
-    w = v
-    eta = 1 / kappa
-    theta = 1
-    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
-    for _ in range(iter_lim_outer):
-        # Compute the inner iteration
-        if adaptive:
-            x = _lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim_inner,
-                v,
-                x,
-                kappa,
-                eps,
-                Reg,
-            )
-        else:
-            x = sp_lsqr(
-                AL,
-                np.concatenate((data, np.sqrt(kappa) * v)),
-                iter_lim=iter_lim_inner,
-                x0=x,
-            )[0]
-        # Compute the outer iteration
-        w_old = w
-        temp = Reg.matvec(x)
-        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
-        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
-        if err1 < 1e-6:
-            return x
-        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
-        v = w + (1 - theta) * (w - w_old)
-    return x
+from typing import TYPE_CHECKING
+
+import numpy as np
+import pylops
+from pylops.utils.typing import NDArray
+from scipy.sparse.linalg import lsqr as sp_lsqr
+
+if TYPE_CHECKING:
+    from pylops.linearoperator import LinearOperator
+
+
+def _lsqr(
+    Op: "LinearOperator",
+    data: NDArray,
+    iter_lim: int,
+    z_old: NDArray,
+    x0: NDArray,
+    kappa: float,
+    eps: float,
+    Reg: "LinearOperator",
+) -> NDArray:
+    r"""LSQR
+
+    This function uses LSQR to solve the inner iteration of SR3, given by
+
+    .. math::
+        \min_x \dfrac{1}{2}\Vert\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}x
+        - \begin{bmatrix}b\\ \sqrt{kappa}w\Vert_2^2
+
+    LSQR is stopped when the maximum amount of iterations are reached or when
+    the stopping criterion is satisfied. There are no other stopping criteria,
+    hence the solver should not be used outside of the context of solving the
+    inner iteration of SR3.
+
+    Parameters
+    ----------
+    Op: :obj:`pylops.LinearOperator`
+        Forward operator. This is the stacked operator
+        :math:`\begin{bmatrix}A\\ \sqrt{kappa}L\end{bmatrix}`
+    data: :obj:`numpy.ndarray`
+        Data
+    iter_lim: :obj:`int`
+        Maximum number of iterations
+    z_old: :obj:`numpy.ndarray`
+        The previous outer iteration
+    x0: :obj:`numpy.ndarray`
+       initial guess
+    kappa: :obj:`float`
+        The regularization parameter for the inner iteration
+    eps: :obj:`float`
+        The regularization parameter for the outer iteration
+    Reg: :obj:`numpy.ndarray`
+        The regularization operator L
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution
+
+    """
+    data -= Op.matvec(x0)
+    x = x0
+    beta = np.linalg.norm(data)
+    if beta == 0:
+        return x
+    u = data / beta
+    v = Op.rmatvec(u)
+    alpha = np.linalg.norm(v)
+    if alpha == 0:
+        return x
+    v = v / alpha
+    w = v
+    phi_bar = beta
+    rho_bar = alpha
+    for _ in range(iter_lim):
+        u = Op.matvec(v) - alpha * u
+        beta = np.linalg.norm(u)
+        if beta > 0:
+            u = u / beta
+            v = Op.rmatvec(u) - beta * v
+            alpha = np.linalg.norm(v)
+            if alpha > 0:
+                v = v / alpha
+        rho = np.sqrt(rho_bar**2 + beta**2)
+        c = rho_bar / rho
+        s = beta / rho
+        theta = s * alpha
+        rho_bar = -c * alpha
+        phi = c * phi_bar
+        phi_bar = s * phi_bar
+        x += (phi / rho) * w
+        if alpha == 0 or beta == 0:
+            # the Krylov space is exhausted, x is the exact solution
+            return x
+        temp = Reg.matvec(x)
+        z = np.sign(temp) * np.maximum(abs(temp) - eps / kappa, 0)
+        if np.linalg.norm(z - z_old) < 1e-6 * np.linalg.norm(z_old):
+            return x
+        w = v - (theta / rho) * w
+        z_old = z
+    return x
+
+
+def SR3(
+    Op: "LinearOperator",
+    Reg: "LinearOperator",
+    data: NDArray,
+    kappa: float,
+    eps: float,
+    x0: NDArray | None = None,
+    adaptive: bool = True,
+    iter_lim_outer: int = 100,
+    iter_lim_inner: int = 100,
+) -> NDArray:
+    r"""Sparse Relaxed Regularized Regression
+
+    Applies the Sparse Relaxed Regularized Regression (SR3) algorithm to
+    an inverse problem with a sparsity constraint of the form
+
+    .. math::
+
+        \min_x \dfrac{1}{2}\Vert \mathbf{Ax} - \mathbf{b}\Vert_2^2 +
+        \lambda\Vert \mathbf{Lx}\Vert_1
+
+    SR3 introduces an auxiliary variable :math:`\mathbf{z} = \mathbf{Lx}`,
+    and instead solves
+
+    .. math::
+
+        \min_{\mathbf{x},\mathbf{z}} \dfrac{1}{2}\Vert \mathbf{Ax} -
+        \mathbf{b}\Vert_2^2 + \lambda\Vert \mathbf{z}\Vert_1 +
+        \dfrac{\kappa}{2}\Vert \mathbf{Lx} - \mathbf{z}\Vert_2^2
+
+    Parameters
+    ----------
+    Op : :obj:`pylops.LinearOperator`
+        Forward operator
+    Reg : :obj:`numpy.ndarray`
+        Regularization operator
+    data : :obj:`numpy.ndarray`
+        Data
+    kappa : :obj:`float`
+        Parameter controlling the difference between :math:`\mathbf{z}`
+        and :math:`\mathbf{Lx}`
+    eps : :obj:`float`
+        Regularization parameter
+    x0 : :obj:`numpy.ndarray`, optional
+        Initial guess
+    adaptive : :obj:`bool`, optional
+        Use adaptive SR3 with a stopping criterion for the inner iterations
+        or not
+    iter_lim_outer : :obj:`int`, optional
+        Maximum number of iterations for the outer iteration
+    iter_lim_inner : :obj:`int`, optional
+        Maximum number of iterations for the inner iteration
+
+    Returns
+    -------
+    x: :obj:`numpy.ndarray`
+        Approximate solution.
+
+    Notes
+    -----
+    SR3 uses the following algorithm:
+
+        .. math::
+            \mathbf{x}_{k+1} = (\mathbf{A}^T\mathbf{A} + \kappa
+            \mathbf{L}^T\mathbf{L})^{-1}(\mathbf{A}^T\mathbf{b} +
+            \kappa \mathbf{L}^T\mathbf{y}_k) \\
+            \mathbf{y}_{k+1} = \prox_{\lambda/\kappa\mathcal{R}}
+            (\mathbf{Lx}_{k+1})
+
+    """
+    (m, n) = Op.shape
+    if x0 is None:
+        x0 = np.zeros(n)
+    x = x0.copy()
+    p = Reg.shape[0]
+    v = np.zeros(p)
+    w = v
+    eta = 1 / kappa
+    theta = 1
+    AL = pylops.VStack([Op, np.sqrt(kappa) * Reg])
+    for _ in range(iter_lim_outer):
+        # Compute the inner iteration
+        if adaptive:
+            x = _lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim_inner,
+                v,
+                x,
+                kappa,
+                eps,
+                Reg,
+            )
+        else:
+            x = sp_lsqr(
+                AL,
+                np.concatenate((data, np.sqrt(kappa) * v)),
+                iter_lim=iter_lim_inner,
+                x0=x,
+            )[0]
+        # Compute the outer iteration
+        w_old = w
+        temp = Reg.matvec(x)
+        w = np.sign(temp) * np.maximum(abs(temp) - eta * eps, 0)
+        err1 = float(np.linalg.norm(v - w)) / max(1.0, float(np.linalg.norm(w)))
+        if err1 < 1e-6:
+            return x
+        theta = 2 / (1 + np.sqrt(1 + 4 / (theta**2)))
+        v = w + (1 - theta) * (w - w_old)
+    return x
-- 
2.43.0


From 2fb6054895ff5f746ddce6e5ba9b9a4222e7f544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 41/55] fix: Segment chooses steps that satisfy the convergence
 bound for images with 3 or more dimensions

---
 pyproximal/optimization/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/optimization/segmentation.py b/pyproximal/optimization/segmentation.py
index 5063220..5b7cae6 100644
--- a/pyproximal/optimization/segmentation.py
+++ b/pyproximal/optimization/segmentation.py
@@ -116,7 +116,7 @@ def Segment(
     )
 
     # Steps
-    L = 8.0 / sampling**2
+    L = 4.0 * ndims / sampling**2
     tau = 1.0
     mu = 1.0 / (tau * L)
 
-- 
2.43.0


From 80f55c38875d769fb78120fc05c1910a9319ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 42/55] fix: prox and proxdual accept the step by keyword

The positivity check read the step from the positional arguments only, so
f.prox(x, tau=0.5) raised IndexError for every operator.
---
 pyproximal/ProxOperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 7c01dee..4f41194 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -18,11 +18,11 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
 
     """
 
-    def wrapper(*args: Any, **kwargs: Any) -> Any:
-        if np.any(args[2] <= 0):
+    def wrapper(self: Any, x: NDArray, tau: float, *args: Any, **kwargs: Any) -> Any:
+        if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
-        return func(*args, **kwargs)
+        return func(self, x, tau, *args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 2b9fba4184bde0bee94e8009c03e3fc74267ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 43/55] fix: QuadraticEnvelopeRankL2.prox with the last
 interval unbounded

The search for the threshold compared with p[k + 1] also for the last
breakpoint, so matrices with well separated singular values (diag(3, 0.1),
r0=1) or a single singular value raised IndexError.
---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index 628bb89..dbe8b81 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -321,7 +321,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
 
             s = b / a
 
-            if p[k] <= s <= p[k + 1]:
+            if p[k] <= s and (k == n - 1 or s <= p[k + 1]):
                 zk = np.maximum(s, yk)
                 zk[self.r0 :] = np.minimum(s, (1 + rho) * yk[self.r0 :])
                 break
-- 
2.43.0


From 100bb2fe398a8064fb9dbead132d3322ddca913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 44/55] fix: Nuclear.__call__ weighs the i-th singular value
 with sigma[i]

The weights were flipped against all eigenvalues of X^T X, which raised
ValueError unless there were exactly as many weights as columns (prox accepts
any number of at least min(M, N)) and was wrong for complex matrices.
---
 pyproximal/proximal/Nuclear.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/Nuclear.py b/pyproximal/proximal/Nuclear.py
index 149c5c0..3fcade9 100644
--- a/pyproximal/proximal/Nuclear.py
+++ b/pyproximal/proximal/Nuclear.py
@@ -62,9 +62,13 @@ class Nuclear(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(np.flip(self.sigma) * np.sqrt(eigs)))
+        S = np.linalg.svd(X, compute_uv=False)
+        sigma = (
+            self.sigma[: S.size]
+            if isinstance(self.sigma, np.ndarray) and self.sigma.size > 1
+            else self.sigma
+        )
+        return float(np.sum(sigma * S))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From 1e1b865e383bc1950b11a8dd9c1c84dfbb7f7735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 45/55] fix: SingularValuePenalty.__call__ evaluates the
 penalty at the singular values

The penalty received the square roots of all eigenvalues of X^T X in ascending
order: extra zeros for wide matrices, a reversed order compared with prox (for
weighted penalties) and wrong values for complex matrices.
---
 pyproximal/proximal/SingularValuePenalty.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/SingularValuePenalty.py b/pyproximal/proximal/SingularValuePenalty.py
index 9019327..6ec0a03 100644
--- a/pyproximal/proximal/SingularValuePenalty.py
+++ b/pyproximal/proximal/SingularValuePenalty.py
@@ -47,9 +47,8 @@ class SingularValuePenalty(ProxOperator):
 
     def __call__(self, x: NDArray) -> float:
         X = x.reshape(self.dim)
-        eigs = np.linalg.eigvalsh(X.T @ X)
-        eigs[eigs < 0] = 0  # ensure all eigenvalues at positive
-        return float(np.sum(self.penalty(np.sqrt(eigs))))
+        S = np.linalg.svd(X, compute_uv=False)
+        return float(np.sum(self.penalty(S)))
 
     @_check_tau
     def prox(self, x: NDArray, tau: float) -> NDArray:
-- 
2.43.0


From e0fd70bde4be64eb2dbab9373efa132b7957cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 46/55] fix: QuadraticEnvelopeRankL2.prox with r0 larger than
 the number of singular values

---
 pyproximal/proximal/QuadraticEnvelope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/QuadraticEnvelope.py b/pyproximal/proximal/QuadraticEnvelope.py
index dbe8b81..3aaf449 100644
--- a/pyproximal/proximal/QuadraticEnvelope.py
+++ b/pyproximal/proximal/QuadraticEnvelope.py
@@ -301,7 +301,7 @@ class QuadraticEnvelopeRankL2(ProxOperator):
         ind = np.argsort(r, kind="quicksort")
         p = r[ind]
 
-        a = (n - self.r0) / rho
+        a = max(n - self.r0, 0) / rho
         b = (rho + 1) / rho * np.sum(yk[self.r0 :])
 
         # Base case
-- 
2.43.0


From af7b0a77389a4ce868ce837916171a0f509f118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 47/55] fix: TV.prox stops on the objective with sigma counted
 once

---
 pyproximal/proximal/TV.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index 2fd6035..b40882f 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -299,7 +299,7 @@ class TV(ProxOperator):
             sol = x - gamma * div
 
             #  Objective function value
-            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + gamma * np.sum(
+            obj = 0.5 * np.power(np.linalg.norm(x[:] - sol[:]), 2) + tau * np.sum(
                 self.__call__(sol), axis=0
             )
             if obj > 1e-10:
-- 
2.43.0


From ab07f8250692392b08c9508ca760d41624f3dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:53 +0000
Subject: [PATCH 48/55] fix: TV with dims=None accepts one-dimensional signals

---
 pyproximal/proximal/TV.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/proximal/TV.py b/pyproximal/proximal/TV.py
index b40882f..8fa6698 100644
--- a/pyproximal/proximal/TV.py
+++ b/pyproximal/proximal/TV.py
@@ -48,7 +48,7 @@ class TV(ProxOperator):
         **kwargs: Any,
     ) -> None:
         super().__init__(None, True)
-        self.dims = (0,) if dims is None else dims
+        self.dims = (-1,) if dims is None else dims
         self.ndim = 1 if dims is None else len(dims)
         self.sigma = sigma
         self.niter = niter
@@ -60,7 +60,7 @@ class TV(ProxOperator):
         x = x.reshape(self.dims)
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
             dx = derivOp @ x
             y = np.sum(np.abs(dx), axis=0)
@@ -101,7 +101,7 @@ class TV(ProxOperator):
         sol = x
         if self.ndim == 1:
             derivOp = FirstDerivative(
-                dims=self.dims[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
+                dims=x.shape[0], axis=0, edge=False, dtype=x.dtype, kind="forward"
             )
         else:
             gradOp = Gradient(x.shape, edge=False, dtype=x.dtype, kind="forward")
-- 
2.43.0


From 1358414d2944f6f7ea41326a1d8d6fe282b566cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 49/55] fix: EuclideanBallProj with zero radius at the centre
 raised ZeroDivisionError

---
 pyproximal/projection/Euclidean.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyproximal/projection/Euclidean.py b/pyproximal/projection/Euclidean.py
index 83c99af..82dc176 100644
--- a/pyproximal/projection/Euclidean.py
+++ b/pyproximal/projection/Euclidean.py
@@ -37,7 +37,8 @@ class EuclideanBallProj:
         self.radius = radius
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = self.center + self.radius / (
-            max(float(np.linalg.norm(x - self.center)), self.radius)
-        ) * (x - self.center)
-        return x
+        x = x - self.center
+        norm = float(np.linalg.norm(x))
+        if norm > self.radius:
+            x = self.radius / norm * x
+        return self.center + x
-- 
2.43.0


From ad11fde96923dc2702de450cbd06179d6fa6c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:34 +0000
Subject: [PATCH 50/55] fix: integer inputs are promoted to floats by prox and
 proxdual

Huber, SCAD, Log, Log1, Geman, ETP, QuadraticEnvelopeCard, Simplex (with
dims) and VStack (with restr) rounded the proximal point of an integer
array to integers, TV.prox raised an error.
---
 pyproximal/ProxOperator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyproximal/ProxOperator.py b/pyproximal/ProxOperator.py
index 4f41194..d05dd27 100644
--- a/pyproximal/ProxOperator.py
+++ b/pyproximal/ProxOperator.py
@@ -14,7 +14,8 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
     """Check that tau>0
 
     This utility function is used to decorate every prox and dualprox method
-    to check that tau is positive before performing any computation
+    to check that tau is positive before performing any computation (and to
+    promote integer inputs to floating point numbers)
 
     """
 
@@ -22,6 +23,10 @@ def _check_tau(func: Callable[..., NDArray]) -> Callable[..., NDArray]:
         if np.any(tau <= 0):
             msg = "tau must be positive"
             raise ValueError(msg)
+        # the result is not an integer in general (and would be silently
+        # rounded by operators that create their output with zeros_like)
+        if getattr(x, "dtype", None) is not None and x.dtype.kind in "biu":
+            x = x.astype(float)
         return func(self, x, tau, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From d1061aa0d2a8483beb75354cf1e3edefdccf1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 51/55] fix: values of Huber and SCAD at integer (and complex)
 arrays

The elementwise values were stored in an array of the type of the input, so
that they were rounded for integers.
---
 pyproximal/proximal/Huber.py | 2 +-
 pyproximal/proximal/SCAD.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyproximal/proximal/Huber.py b/pyproximal/proximal/Huber.py
index 5aa8ffe..2e07c5e 100644
--- a/pyproximal/proximal/Huber.py
+++ b/pyproximal/proximal/Huber.py
@@ -49,8 +49,8 @@ class Huber(ProxOperator):
         self.l1 = L1()
 
     def __call__(self, x: NDArray) -> float:
-        h = np.zeros_like(x)
         xabs = np.abs(x)
+        h = np.zeros_like(xabs, dtype=np.result_type(xabs, np.float32))
         mask = xabs > self.alpha
         h[~mask] = xabs[~mask] ** 2 / (2.0 * self.alpha)
         h[mask] = xabs[mask] - self.alpha / 2.0
diff --git a/pyproximal/proximal/SCAD.py b/pyproximal/proximal/SCAD.py
index 9e7ef77..7b27f7e 100644
--- a/pyproximal/proximal/SCAD.py
+++ b/pyproximal/proximal/SCAD.py
@@ -64,8 +64,8 @@ class SCAD(ProxOperator):
         return float(np.sum(self.elementwise(x)))
 
     def elementwise(self, x: NDArray) -> NDArray:
-        f = np.zeros_like(x)
         absx = np.abs(x)
+        f = np.zeros_like(absx, dtype=np.result_type(absx, np.float32))
         ind = absx <= self.sigma
         f[ind] = self.sigma * absx[ind]
         ind = np.logical_and(self.sigma < absx, absx <= self.a * self.sigma)
-- 
2.43.0


From 8ce8322c729bdde91a68c397d6390eb10068cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 52/55] fix: VStack.grad with restr rounded the gradient at
 integer arrays

---
 pyproximal/proximal/VStack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/VStack.py b/pyproximal/proximal/VStack.py
index 8c3cc6a..13609a0 100644
--- a/pyproximal/proximal/VStack.py
+++ b/pyproximal/proximal/VStack.py
@@ -122,7 +122,7 @@ class VStack(ProxOperator):
                 ]
             )
         else:
-            f = np.zeros_like(x)
+            f = np.zeros_like(x, dtype=np.result_type(x, np.float32))
             for op, restr in zip(self.ops, self.restr, strict=True):
                 f[restr.iava] = op.grad(restr.matvec(x))
         return f
-- 
2.43.0


From 3f14773ee34eaba2c27c53ebbd9ab9a02f35263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 53/55] fix: IntersectionProj rounded the projection of an
 integer array

---
 pyproximal/projection/Intersection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyproximal/projection/Intersection.py b/pyproximal/projection/Intersection.py
index 86202d9..a592903 100644
--- a/pyproximal/projection/Intersection.py
+++ b/pyproximal/projection/Intersection.py
@@ -52,7 +52,8 @@ class IntersectionProj:
         self.tol = tol
 
     def __call__(self, x: NDArray) -> NDArray:
-        x = x.reshape(self.k, self.n).copy()
+        x = x.reshape(self.k, self.n)
+        x = x.astype(np.result_type(x, np.float32))
         x12 = np.zeros((self.k, self.k, self.n))
         for _ in range(self.niter):
             xold = x.copy()
-- 
2.43.0


From 7127e68d89a5a136f80fd5d81d1b37ed236019ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:16 +0000
Subject: [PATCH 54/55] fix: parallel Dykstra projection rounded the first
 sweep for integer arrays

The iterates of the first sweep were stored in an integer array, so that the
projection converged to another point of the intersection.
---
 pyproximal/proximal/_Dykstra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyproximal/proximal/_Dykstra.py b/pyproximal/proximal/_Dykstra.py
index 720e95e..913076a 100644
--- a/pyproximal/proximal/_Dykstra.py
+++ b/pyproximal/proximal/_Dykstra.py
@@ -69,7 +69,7 @@ def parallel_dykstra_projection(
     r"""Compute Dykstra's projection algorithm for :math:`m \ge 2`."""
     ncp = get_array_module(x0)
 
-    u = x0.copy()
+    u = x0.astype(ncp.result_type(x0, ncp.float32))
     m = len(proj_ops)
     z = [ncp.zeros_like(u) for _ in range(m)]
 
-- 
2.43.0


From ee7fe2f22de29f230f25cd4207082994cf862ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:12 +0000
Subject: [PATCH 55/55] fix: L10BallProj ranked the columns by their L1 norm,
 which does not give the nearest point

---
 pyproximal/projection/L0.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyproximal/projection/L0.py b/pyproximal/projection/L0.py
index 3265802..e6bd376 100644
--- a/pyproximal/projection/L0.py
+++ b/pyproximal/projection/L0.py
@@ -57,8 +57,8 @@ class L10BallProj:
         ||\mathbf{x}_2||_1, ..., ||\mathbf{x}_1||_1] \ne 0) \leq r \}
 
     its orthogonal projection is computed by finding the :math:`r` highest
-    largest entries of a vector obtained by applying the :math:`L_1` norm to each
-    column of a matrix :math:`\mathbf{x}` (in absolute value), keeping those
+    largest entries of a vector obtained by applying the :math:`L_2` norm to each
+    column of a matrix :math:`\mathbf{x}`, keeping those columns
     and zero-ing all the other entries.
     Note that this is the proximal operator of the corresponding
     indicator function :math:`\mathcal{I}_{L_{1,0}^{r}}`.
@@ -70,7 +70,7 @@ class L10BallProj:
 
     def __call__(self, x: NDArray) -> NDArray:
         xc = x.copy()
-        xf = np.linalg.norm(x, axis=0, ord=1)
+        xf = np.linalg.norm(x, axis=0)
         xc[:, np.argsort(np.abs(xf))[: max(0, xf.size - self.radius)]] = 0
         return xc
 
-- 
2.43.0

