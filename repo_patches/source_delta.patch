From 127ba21b80c095a7af2ff34f270fa347f590d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 01/16] fix: pass the prior drift to the filter in the
 marginalised parabola solver

ekf() requires xi; Algorithm 4 raised TypeError for every input, and a prior
with a non-zero drift term was silently ignored.
---
 bayesian_sde_solver/ssm_parabola/ekf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..e036239 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -89,10 +89,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.tile(jnp.concatenate([one_block_transition_incr, jnp.zeros((2,))]), dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From c16f81fff9405bb7ffcfe3d4b026b29dba644704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:14 +0000
Subject: [PATCH 02/16] fix: ekf0 and ekf1 accept the documented default prior

prior=None (the default) raised TypeError while computing the number of states.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 7 +++++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..7a921d2 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,8 +11,11 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
-        0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
+    if prior is None:
+        n_states = 2  # default IBM prior, see _solver
+    else:
+        n_states = int(prior[2].shape[0] / init.shape[
+            0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
     if n_states == 2:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..50811aa 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,10 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    if prior is None:
+        n_states = 2  # default IBM prior, see _solver
+    else:
+        n_states = int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From 3f5a660972f41f6318ce0f37a04eff0d56cf8192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 03/16] fix: numerically integrated priors work on the
 supported JAX versions

jnp.trapezoid does not exist in jax 0.4.23 (nor in any earlier supported
version), so every prior built by transition_function, i.e. every Matern prior
but the closed-form one, raised AttributeError.
---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From 69b137a2742eeb9f68f36a42d34e1831ab02bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 04/16] fix: Matern companion matrix uses lambda^(k+1-i)

(d/dt + lambda)^(k+1) has coefficients C(k+1,i) lambda^(k+1-i); the exponent had
the wrong sign, so the numerically integrated prior disagreed with the closed
form for every lambda != 1.
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 9f7623e5502b90ee90cf15a9721bbe2c60d29945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 05/16] fix: EKF initialisation for priors with four or more
 states

ekf0 raised TypeError, and ekf1 put the zero block over the first coordinates
of the interlaced state instead of over the first three states of each
coordinate.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 7a921d2..99d38d7 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -34,9 +34,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 50811aa..763397e 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -32,7 +32,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From d1988db39f4838cea448520aafd043779c7539b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 06/16] fix: exact second-derivative initialisation for
 time-dependent fields

The third state is initialised with zero variance but dropped the partial
derivative in time, which every Brownian-driven vector field has.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 99d38d7..cf157e6 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -27,14 +27,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0) + jax.jacfwd(vector_field, 1)(init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0) + jax.jacfwd(vector_field, 1)(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 763397e..e49fba6 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -24,13 +24,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0) + jax.jacfwd(vector_field, 1)(init, 0.0))),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0) + jax.jacfwd(vector_field, 1)(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
-- 
2.43.0


From 0e43127889e5dc99a1baaf40b3573c89dc5d8c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 07/16] fix: PSD square roots of singular covariances are
 finite

linalg.sqrtm returns NaN on (numerically) singular matrices. The covariances
rooted here are singular by construction (exact observations, rank-deficient
linearised initial covariances), so e.g. ekf1_2(sqrt=True) on the harmonic
oscillator turned into NaNs after some steps and kept propagating them.
---
 bayesian_sde_solver/ode_solvers/ekf0.py             | 5 ++---
 bayesian_sde_solver/ode_solvers/ekf0_2.py           | 7 +++----
 bayesian_sde_solver/ode_solvers/ekf1.py             | 5 ++---
 bayesian_sde_solver/ode_solvers/ekf1_2.py           | 7 +++----
 bayesian_sde_solver/ode_solvers/probnum/__init__.py | 2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 9 +++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py             | 5 ++---
 bayesian_sde_solver/ssm_parabola/ekf0.py            | 4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py            | 4 ++--
 9 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index cf157e6..f37e4b3 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
@@ -41,7 +40,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..6a0072d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -21,7 +20,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_10 = H @ P_00
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrt(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -36,7 +35,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index e49fba6..60e1d4e 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
@@ -37,7 +36,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..d2035c0 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -26,7 +25,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_01 = P_00 @ H.T
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrt(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -41,7 +40,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..aa05cb6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, psd_sqrt
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..e8ba451 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -4,6 +4,15 @@ import jax.numpy as jnp
 from numpy.typing import ArrayLike
 
 
+def psd_sqrt(P: ArrayLike) -> ArrayLike:
+    """
+    Symmetric square root of a positive semi-definite matrix, possibly singular.
+    linalg.sqrtm divides by sums of eigenvalues and returns NaNs on singular matrices.
+    """
+    w, v = jnp.linalg.eigh(P)
+    return (v * jnp.sqrt(jnp.maximum(w, 0.0))) @ v.T
+
+
 def interlace(arrays: Tuple[ArrayLike]) -> ArrayLike:
     """
     Interlace arrays, e.g interlace(([a, b, c], [d, e, f])) = [a, d, b, e, c, f].
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index e036239..70f00e8 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,10 +1,9 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -77,7 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
+        var = psd_sqrt(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 4ad9bd2..7205b12 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 2117f28..b396e71 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From 32ee94beb380dec42efd788381d62bdc4d51d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 08/16] fix: observation noise is a covariance in the
 square-root form too

The filter takes a square root of R when sqrt=True, but noise was passed
through unchanged, so the square-root and standard forms disagreed for every
noise other than 0 and the identity.
---
 bayesian_sde_solver/ode_solvers/ekf.py  | 3 ++-
 bayesian_sde_solver/ssm_parabola/ekf.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..b5f6a3f 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
-from bayesian_sde_solver.ode_solvers.probnum import ekf
+from bayesian_sde_solver.ode_solvers.probnum import ekf, psd_sqrt
 
 
 def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=None, return_all=False, n_states=2):
@@ -45,6 +45,7 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         ) = prior
     if sqrt:
         transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        noise = psd_sqrt(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 70f00e8..d55dfc3 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -76,6 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        noise = psd_sqrt(noise)
         var = psd_sqrt(var)  # should be LDL.T, Cholesky
     init = (mean, var)
 
-- 
2.43.0


From cdb7f6eaa97c0ffb32a3d70045cdbb3ade332218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 09/16] fix: multiplicative-noise terms of the diagonal 1.5
 scheme are elementwise

Three terms contracted vectors to a scalar that was broadcast to every
coordinate, and the third-order term missed its increment factor, leaving an
O(h) drift bias: for dX = 0.3 X dt + 0.8 X dW, E[X_1] converged to 1.14 instead
of exp(0.3) = 1.35. Schemes with zero diagonal diffusion are unchanged.
---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..c02849d 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,11 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + (partialxsigma(x) @ drift(x)) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k
         )
         return out, out
 
-- 
2.43.0


From 6b34a43c51e396ab8715162134f65fb0a9d6091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 10/16] fix: parabola of a sampled Brownian path integrates
 from time 0

The trapezoidal rule started at the second sampled point and counted the last
one twice, so the area coefficient was correlated with the increment
(covariance 3.46/N instead of 0 relative to the increment) and biased.
---
 bayesian_sde_solver/foster_polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..6ee4ee9 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -38,13 +38,14 @@ def get_approx_and_brownian(dim=1, N=1000):
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(N + 1)
 
         eps_0 = bm.at[-1].get()
+        path = jnp.insert(bm, 0, 0.0, axis=0)  # the path starts at 0, N + 1 points
 
         @jax.vmap
         def integrand(i):
-            return (bm.at[i].get()) * jnp.sqrt(6)
+            return (path.at[i].get()) * jnp.sqrt(6)
 
         eps_1 = jnp.trapz(integrand(_is), dx=1 / N, axis=0) - eps_0 * 0.5 * jnp.sqrt(6)
 
-- 
2.43.0


From 16a629d5f5072dec4986d1d0b84795eb2cef73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:46 +0000
Subject: [PATCH 11/16] fix: euler_maruyama_pathwise does not rescale the
 caller's increments in place

With a NumPy array and standard=True, incs *= h ** 0.5 modified the caller's
array: a second solve on the same increments gave a different path.
---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From fbcd0c8b9b5e0d5ba59973d4db9552c6825f1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 12/16] fix: predict and update can be used without a prior
 drift or innovation covariance

update returned (x, None) instead of x and predict required xi, so the
square-root and standard forms could not be used (or tested) on their own.
---
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index c2d6937..b439cb4 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -10,7 +10,7 @@ def tria(A):
     return jnp.triu(r[:n, :n]).T
 
 
-def predict(x, A, Q_or_cholQ, xi, lower_sqrt=False):
+def predict(x, A, Q_or_cholQ, xi=0.0, lower_sqrt=False):
     m, P_or_cholP = x
     if lower_sqrt:
         P_or_cholP = tria(jnp.concatenate([A @ P_or_cholP, Q_or_cholQ], axis=1))
@@ -34,13 +34,13 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
         I = chol_S[:ny, :ny]
 
         m = m - G @ linalg.solve_triangular(I, c, lower=True)
-        return (m, cholP), I if return_S else None
+        return ((m, cholP), I) if return_S else (m, cholP)
     S = H @ P_or_cholP @ H.T + R_or_cholR
     S_invH = linalg.solve(S, H, assume_a='pos')
     K = (S_invH @ P_or_cholP).T
     b = m - K @ c
     C = P_or_cholP - K @ H @ P_or_cholP
-    return (b, C), S if return_S else None
+    return ((b, C), S) if return_S else (b, C)
 
 
 def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None, lower_sqrt=False,
@@ -75,7 +75,7 @@ def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None,
         y = (m,) if param is None else (m, *param)
         H = jax.jacfwd(observation_function, 0)(*y)
         c = observation_function(*y)
-        x, _ = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
+        x = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
         return x, None
 
     if return_UC:
-- 
2.43.0


From 28a8ceb8d97fd6d1aa320ce924de843484b94858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 13/16] fix: indices and signs in the benchmark problems' drift
 and local moments

The reduced synaptic conductance model indexed past its two states (JAX clamps
the index, so both equations read the same state); the FHN and synaptic second
order local means had a wrong sign and a wrong state.
---
 bayesian_sde_solver/utils/ivp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..dc2c573 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
@@ -329,7 +329,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
@@ -337,7 +337,7 @@ def synaptic_conductance():
 
     def theoretical_variance_up_to_order_3_first_coordinate(t):
         return (t ** 3 / (3 * C ** 2) * (
-                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[2]
+                (x0[0] - V_E) ** 2 * sig_E ** 2 * x0[1]
                 + (x0[0] - V_I) ** 2 * sig_I ** 2 * x0[2]))
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2, theoretical_variance_up_to_order_3_first_coordinate
-- 
2.43.0


From 556177475dbd707cc8ca01ffc40c0ec26b906ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:15 +0000
Subject: [PATCH 14/16] fix: keep the filter covariance symmetric in the
 standard-form update

With ekf1_2 the antisymmetric rounding error of the covariance is amplified
from step to step: on FitzHugh-Nagumo (delta=0.1, N=400) the propagated
covariance loses symmetry and the solve ends in NaN although the square-root
form gives finite results.
---
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index b439cb4..4ee1edd 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -40,6 +40,7 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
     K = (S_invH @ P_or_cholP).T
     b = m - K @ c
     C = P_or_cholP - K @ H @ P_or_cholP
+    C = 0.5 * (C + C.T)  # otherwise asymmetric rounding errors grow along the solve
     return ((b, C), S) if return_S else (b, C)
 
 
-- 
2.43.0


From 0c6d4dbddca0be8aa0304143d8dfbc331b5f788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:18 +0000
Subject: [PATCH 15/16] fix: Matern 3/2 transition covariance without
 catastrophic cancellation

The literal closed formula subtracts numbers close to one: in single precision
the covariance of a step of 1e-3 is indefinite (in double precision below 1e-5),
so propagated covariances are indefinite. Same formula via gammainc and expm1.
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index d3b99a6..010240e 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -2,6 +2,7 @@ from math import comb
 from typing import Tuple
 
 import jax.numpy as jnp
+from jax.scipy.special import gammainc
 from numpy.typing import ArrayLike
 
 from bayesian_sde_solver.ode_solvers.probnum.transition_function import \
@@ -50,13 +51,13 @@ ArrayLike]:
                         jnp.exp(-dt * lambda_param) * (1 - lambda_param * dt)]])
         A = jnp.kron(jnp.eye(dim), A)
 
-        Q = magnitude ** 2 * jnp.array([[(1 + jnp.exp(-2 * dt * lambda_param) * (
-                -1. - 2 * dt * lambda_param * (1 + dt * lambda_param))) / (4 * lambda_param ** 3),
-                                         0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2],
-                                        [0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2,
-                                         jnp.exp(-2 * dt * lambda_param) * (
-                                                 -1 + jnp.exp(2 * dt * lambda_param) - 2 * dt * lambda_param * (
-                                                 -1 + dt * lambda_param)) / (4 * lambda_param)]])
+        # Same closed formula as above, without the cancellations of its literal form for small steps:
+        # 1 - exp(-2x)(1 + 2x + 2x^2) is the regularised lower incomplete gamma function P(3, 2x).
+        x = dt * lambda_param
+        Q_00 = gammainc(3.0, 2 * x) / (4 * lambda_param ** 3)
+        Q_01 = 0.5 * jnp.exp(-2 * x) * dt ** 2
+        Q_11 = (-jnp.expm1(-2 * x) + 2 * x * (1 - x) * jnp.exp(-2 * x)) / (4 * lambda_param)
+        Q = magnitude ** 2 * jnp.array([[Q_00, Q_01], [Q_01, Q_11]])
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.zeros(dim * 2)
     else:
-- 
2.43.0


From e6adf60d867e1a2c8f0ceb772d7fda5802e517e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:08 +0000
Subject: [PATCH 16/16] fix: keep the progress taps of a solve under
 reverse-mode differentiation

---
 bayesian_sde_solver/utils/progress_bar.py | 30 ++++++++++++-----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/bayesian_sde_solver/utils/progress_bar.py b/bayesian_sde_solver/utils/progress_bar.py
index 8c26aff..77bc9d3 100644
--- a/bayesian_sde_solver/utils/progress_bar.py
+++ b/bayesian_sde_solver/utils/progress_bar.py
@@ -23,28 +23,30 @@ def progress_bar(num_samples, message=None):
     def _update_tqdm(arg, transform):
         tqdm_bars[0].update(arg)
 
-    def _update_progress_bar(iter_num):
+    def _update_progress_bar(carry, iter_num):
         "Updates tqdm progress bar of a JAX scan or loop"
-        _ = lax.cond(
+        # carry goes through the taps: a tap whose result is unused is dropped by reverse-mode differentiation
+        carry = lax.cond(
             iter_num == 0,
-            lambda _: host_callback.id_tap(_define_tqdm, None, result=iter_num),
-            lambda _: iter_num,
-            operand=None,
+            lambda c: host_callback.id_tap(_define_tqdm, None, result=c),
+            lambda c: c,
+            operand=carry,
         )
-        _ = lax.cond(
+        carry = lax.cond(
             # update tqdm every multiple of `print_rate` except at the end
             (iter_num % print_rate == 0) & (iter_num != num_samples - remainder),
-            lambda _: host_callback.id_tap(_update_tqdm, print_rate, result=iter_num),
-            lambda _: iter_num,
-            operand=None,
+            lambda c: host_callback.id_tap(_update_tqdm, print_rate, result=c),
+            lambda c: c,
+            operand=carry,
         )
-        _ = lax.cond(
+        carry = lax.cond(
             # update tqdm by `remainder`
             iter_num == num_samples - remainder,
-            lambda _: host_callback.id_tap(_update_tqdm, remainder, result=iter_num),
-            lambda _: iter_num,
-            operand=None,
+            lambda c: host_callback.id_tap(_update_tqdm, remainder, result=c),
+            lambda c: c,
+            operand=carry,
         )
+        return carry
 
     def _close_tqdm(arg, transform):
         tqdm_bars[0].close()
@@ -69,7 +71,7 @@ def progress_bar(num_samples, message=None):
                 iter_num, *_ = x
             else:
                 iter_num = x
-            _update_progress_bar(iter_num)
+            carry = _update_progress_bar(carry, iter_num)
             result = func(carry, x)
             return close_tqdm(result, iter_num)
 
-- 
2.43.0

