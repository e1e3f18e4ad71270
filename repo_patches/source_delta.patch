From e15ce4090e9a512e41f19cf102afe15bcc67ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 01/94] fix: sum of two uniform cartesian grids keeps the
 bounds of the second one

---
 dolo/numeric/grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index c6cf223..4d86f90 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -129,8 +129,8 @@ class UniformCartesianGrid(CartesianGrid):
             raise Exception("Not implemented.")
 
         n = np.array(tuple(self.n) + tuple(g.n))
-        min = np.array(tuple(self.min) + tuple(self.min))
-        max = np.array(tuple(self.max) + tuple(self.max))
+        min = np.array(tuple(self.min) + tuple(g.min))
+        max = np.array(tuple(self.max) + tuple(g.max))
 
         return UniformCartesianGrid(min, max, n)
 
-- 
2.43.0


From 5e16aa9a66526a00c51f5acbfd49d6912846d118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 02/94] fix: default number of points of a uniform cartesian
 grid

---
 dolo/numeric/grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 4d86f90..8f3f413 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -113,7 +113,7 @@ class UniformCartesianGrid(CartesianGrid):
         self.min = np.array(min, dtype=float)
         self.max = np.array(max, dtype=float)
         if len(n) == 0:
-            self.n = np.zeros(n, dtype=int) + 20
+            self.n = np.zeros(self.d, dtype=int) + 20
         else:
             self.n = np.array(n, dtype=int)
 
-- 
2.43.0


From de575fb8e5ff95e2faec36c76a6cc58c60ad4a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 03/94] fix: product of two cartesian grids instantiated the
 abstract CartesianGrid

---
 dolo/numeric/grids.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/numeric/grids.py b/dolo/numeric/grids.py
index 8f3f413..b71443d 100644
--- a/dolo/numeric/grids.py
+++ b/dolo/numeric/grids.py
@@ -186,10 +186,7 @@ def cat_grids(grid_1, grid_2):
     if isinstance(grid_1, EmptyGrid):
         return grid_2
     if isinstance(grid_1, CartesianGrid) and isinstance(grid_2, CartesianGrid):
-        min = np.concatenate([grid_1.min, grid_2.min])
-        max = np.concatenate([grid_1.max, grid_2.max])
-        n = np.concatenate([grid_1.n, grid_2.n])
-        return CartesianGrid(min, max, n)
+        return grid_1 + grid_2
     else:
         raise Exception("Not Implemented.")
 
-- 
2.43.0


From b756db43f4e4648c6496c43e0114e5b74d154d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 04/94] fix: linear rules on unstructured exogenous x cartesian
 grids lost all but the first control

A second registration of the (UnstructuredGrid, CartesianGrid, Linear) methods
overrode the first one and did not reshape the values to the endogenous grid.
---
 dolo/numeric/decision_rule.py | 34 ----------------------------------
 1 file changed, 34 deletions(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index d720d47..2478e2c 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -336,40 +336,6 @@ def eval_is(
     return eval_cubic(gg, coeffs, s)
 
 
-# UnstructuredGrid x Cartesian x Linear
-
-
-@multimethod
-def get_coefficients(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    x: object,
-):
-    return [x[i].copy() for i in range(x.shape[0])]
-
-
-@multimethod
-def eval_is(
-    itp: object,
-    exo_grid: UnstructuredGrid,
-    endo_grid: CartesianGrid,
-    interp_type: Linear,
-    i: object,
-    s: object,
-):
-
-    from interpolation.splines import eval_linear
-
-    assert s.ndim == 2
-
-    coeffs = itp.coefficients[i]
-    gg = endo_grid.__numba_repr__()
-
-    return eval_linear(gg, coeffs, s)
-
-
 # Empty x Cartesian x Linear
 
 
-- 
2.43.0


From 08fdbd07fa43cf07161511cc09e429cd2354edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 05/94] fix: evaluate rules on a cartesian exogenous grid at
 one shock and many states

---
 dolo/numeric/decision_rule.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2478e2c..2873f62 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -190,6 +190,9 @@ def eval_ms(
     gg = grid.__numba_repr__()
     from interpolation.splines import eval_linear
 
+    N = max(m.shape[0], s.shape[0])
+    m = np.broadcast_to(m, (N, m.shape[1]))
+    s = np.broadcast_to(s, (N, s.shape[1]))
     x = np.concatenate([m, s], axis=1)
 
     return eval_linear(gg, coeffs, x)
@@ -247,6 +250,9 @@ def eval_ms(
 
     gg = grid.__numba_repr__()
 
+    N = max(m.shape[0], s.shape[0])
+    m = np.broadcast_to(m, (N, m.shape[1]))
+    s = np.broadcast_to(s, (N, s.shape[1]))
     x = np.concatenate([m, s], axis=1)
 
     return eval_cubic(gg, coeffs, x)
-- 
2.43.0


From e18da739283d34b8a7bb916791619b282b2f0c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 06/94] fix: the mean of a multivariate normal was counted
 twice by its discretization

---
 dolo/numeric/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 5b3132d..d3dd10d 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -604,8 +604,8 @@ class Normal(ContinuousDistribution):
                 N = [N] * self.d
             from dolo.numeric.discretization.quadrature import gauss_hermite_nodes  # type: ignore
 
-            [x, w] = gauss_hermite_nodes(N, self.Σ, mu=self.Μ)
-            x = np.row_stack([(e + self.Μ) for e in x])
+            [x, w] = gauss_hermite_nodes(N, self.Σ)
+            x = x + self.Μ[None, :]
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-- 
2.43.0


From fab0ea2d4692e1f59931fe91acffb4d392bbe057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 07/94] fix: UNormal.integrate used np.Inf and missed narrow or
 distant distributions

---
 dolo/numeric/distribution.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index d3dd10d..2d3c582 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -433,15 +433,11 @@ class UNormal(UnivariateContinuousDistribution):
         σ = self.σ
         μ = self.μ
 
-        f = (
-            lambda x: fun(x)
-            / σ
-            / np.sqrt(2 * np.pi)
-            * np.exp(-1 / 2 * ((x - μ) / σ) ** 2)
-        )
+        # integrate the standardized variable, so that quad locates the mass
+        f = lambda u: fun(μ + σ * u) / np.sqrt(2 * np.pi) * np.exp(-1 / 2 * u**2)
         import scipy.integrate
 
-        return scipy.integrate.quad(f, -np.Inf, np.Inf)[0]
+        return scipy.integrate.quad(f, -np.inf, np.inf)[0]
 
     def __discretize_gh__(self, N=5):  # Gauss-Hermite
 
-- 
2.43.0


From 151a1ac2928ee899171ecf7705efb71f28bb8673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 08/94] fix: Bernouilli draws ignored the probability

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 2d3c582..c1da74a 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -298,7 +298,7 @@ class Bernouilli(DiscreteDistribution):
 
     def draw(self, N: int) -> Matrix:
         a = np.array([0, 1])
-        c = np.random.choice(a, size=N)
+        c = np.random.choice(a, size=N, p=[1 - self.π, self.π])
         return c.reshape((N, 1))
 
 
-- 
2.43.0


From efc769869bc7dc4a5014543d1c4031419d3eab91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 09/94] fix: Bernouilli distributions have dimension 1

---
 dolo/numeric/distribution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index c1da74a..82abc0f 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -283,6 +283,7 @@ class Bernouilli(DiscreteDistribution):
     @greek_tolerance
     def __init__(self, π: float = None):
         self.π = float(π)
+        self.d = 1
 
     def discretize(self, to="iid"):
 
-- 
2.43.0


From 2e05a3c388d60083595c2e5401fa28613e97fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 10/94] fix: draws from a mixture were all equal to zero

The distributions are indexed by strings, the draws of the index are integers.
---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 82abc0f..6c43044 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -758,7 +758,7 @@ class Mixture(ContinuousDistribution):
         # naive and overkill algorithm
         inds = self.index.draw(N)  # should be (N x 1) array
         return sum(
-            [(inds == k) * dist.draw(N) for (k, dist) in self.distributions.items()]
+            [(inds == int(k)) * dist.draw(N) for (k, dist) in self.distributions.items()]
         )
 
 
-- 
2.43.0


From 77a5ee7f6fc3b4f39817a5af79297a9570c0e1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 11/94] fix: discretization options were ignored when
 discretizing a distribution to a markov chain

---
 dolo/numeric/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 6c43044..a51c40d 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -370,7 +370,9 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             else:
                 raise Exception("Unknown discretization method.")
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(
+                to="iid", N=N, method=method, mass_point=mass_point
+            )
             return discr_iid.discretize(to="mc")
         else:
             raise Exception("Not implemented (yet).")
@@ -606,7 +608,7 @@ class Normal(ContinuousDistribution):
             return FiniteDistribution(x, w, origin=self)
 
         elif to == "mc":
-            discr_iid = self.discretize(to="iid")
+            discr_iid = self.discretize(to="iid", N=N)
             return discr_iid.discretize(to="mc")
 
         else:
-- 
2.43.0


From 211591b5fc2a0f363bfa29ee1aa18e85af0b0a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 12/94] fix: discretize a product of distributions to a markov
 chain

---
 dolo/numeric/distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index a51c40d..b010b3a 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -642,6 +642,8 @@ class ProductDistribution(ContinuousDistribution):
     def discretize(self, to="iid"):
 
         # TODO: pass some options
+        if to == "mc":
+            return self.discretize(to="iid").discretize(to="mc")
         fids = [dis.discretize(to=to) for dis in self.distributions]
         return product_iid(fids)
 
-- 
2.43.0


From 8410a011bcc246b0e5b5725c9bd12111d106584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 13/94] fix: discretized correlated autoregressive processes
 had the wrong covariance

scipy's cholesky returns the upper factor by default.
---
 dolo/numeric/discretization/discretization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 3345bb4..dde5237 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -129,7 +129,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
     for i in zero_columns:
         sigma[i, i] = 1
 
-    L = scipy.linalg.cholesky(sigma)
+    L = scipy.linalg.cholesky(sigma, lower=True)
 
     N = int(N)
 
-- 
2.43.0


From 35832d6191adb74134afa7fdf303de6e39f276a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 14/94] fix: negatively correlated shocks were mistaken for
 degenerate ones

A column of the covariance matrix which sums to zero is not a null column, and
the matrix of the caller should not be modified.
---
 dolo/numeric/discretization/discretization.py | 2 +-
 dolo/numeric/discretization/quadrature.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index dde5237..233a7a5 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -125,7 +125,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     sigma = sigma.copy()
 
-    zero_columns = np.where(sigma.sum(axis=0) == 0)[0]
+    zero_columns = np.where(np.all(sigma == 0, axis=0))[0]
     for i in zero_columns:
         sigma[i, i] = 1
 
diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b92c37f..b738fcc 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -103,7 +103,8 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
 
         w = reduce(numpy.kron, weights)
 
-        zero_columns = numpy.where(sigma.sum(axis=0) == 0)[0]
+        sigma = numpy.array(sigma, dtype=float)
+        zero_columns = numpy.where(numpy.all(sigma == 0, axis=0))[0]
         for i in zero_columns:
             sigma[i, i] = 1.0
 
-- 
2.43.0


From a36da32f227bd26bdf1b5a3f18c2db5afcf2ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 15/94] fix: degenerate dimensions of quadrature nodes lost
 their mean

---
 dolo/numeric/discretization/quadrature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index b738fcc..33cc5bf 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -115,7 +115,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
         x = numpy.ascontiguousarray(x.T)
 
         for i in zero_columns:
-            x[:, i] = 0
+            x[:, i] = mu[i]
 
         return [x, w]
 
-- 
2.43.0


From ad7b7f7e9ed3813ff25b5476eb95c1aae4a7212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 16/94] fix: one-dimensional quadrature nodes ignored the mean

---
 dolo/numeric/discretization/quadrature.py | 4 ++--
 dolo/numeric/distribution.py              | 1 -
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/discretization/quadrature.py b/dolo/numeric/discretization/quadrature.py
index 33cc5bf..ccb4944 100644
--- a/dolo/numeric/discretization/quadrature.py
+++ b/dolo/numeric/discretization/quadrature.py
@@ -80,7 +80,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     import numpy
 
     if mu is None:
-        mu = numpy.array([0] * sigma.shape[0])
+        mu = numpy.array([0] * sigma.shape[0]) if sigma.ndim else 0.0
 
     herms = [hermgauss(i) for i in orders]
 
@@ -90,7 +90,7 @@ def gauss_hermite_nodes(orders, sigma, mu=None):
     if len(orders) == 1:
         # Note: if sigma is 2D, x will always be 2D, even if sigma is only 1x1.
         # print(points.shape)
-        x = numpy.array(points[0]) * numpy.sqrt(float(sigma))
+        x = numpy.array(points[0]) * numpy.sqrt(float(sigma)) + float(mu)
         if sigma.ndim == 2:
             x = x[:, None]
         w = weights[0]
diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index b010b3a..c333866 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -448,7 +448,6 @@ class UNormal(UnivariateContinuousDistribution):
         from dolo.numeric.discretization.quadrature import gauss_hermite_nodes
 
         [x, w] = gauss_hermite_nodes(N, np.array([[self.σ**2]]), mu=self.μ)
-        x += np.array([self.μ])[:, None]
         return FiniteDistribution(x, w, origin=self)
 
 
-- 
2.43.0


From d8a1858008794ac6252f658fe7de8199a5231e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 17/94] fix: shape of the nodes obtained with the tauchen
 method

---
 dolo/numeric/discretization/discretization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 233a7a5..8265b24 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -135,6 +135,7 @@ def multidimensional_discretization(rho, sigma, N=3, method="rouwenhorst", m=2):
 
     if method == "tauchen":
         [nodes_1d, probas_1d] = tauchen(N, 0, rho, 1, m=m)
+        nodes_1d = nodes_1d.ravel()
     elif method == "rouwenhorst":
         [nodes_1d, probas_1d] = rouwenhorst(rho, 1, N)
 
-- 
2.43.0


From 56e1052c4520c34a5e74cb16c35e9a55b3d48600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 18/94] fix: undefined variable when simulating the values of a
 markov chain

---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa934ec..bc21e34 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -54,7 +54,7 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     indices = simulate_mc_indices(C, N, T, i0_)
     if return_values:
         values = np.reshape(
-            np.concatenate([Q[i, :][None, :] for i in indices.ravel()], axis=0),
+            np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
             indices.shape + (-1,),
         )
         return indices, values
-- 
2.43.0


From f4abfbecb80d21ae22cdd3c882c10e04180f17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 19/94] fix: simulated markov chain could leave the set of
 states

when the probabilities of a row sum to slightly less than one.
---
 dolo/numeric/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index bc21e34..76dc32f 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -23,7 +23,7 @@ from dolang.language import language_element
 def choice(x, n, cumul):
     i = 0
     running = True
-    while i < n and running:
+    while i < n - 1 and running:
         if x < cumul[i]:
             running = False
         else:
-- 
2.43.0


From bac674943bef394050beac23b0ef25486c6418b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 20/94] fix: deterministic simulation of autoregressive
 processes

---
 dolo/numeric/processes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 76dc32f..4f911d3 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -468,7 +468,7 @@ class AR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
         sim[0, :, :] = m0[None, :]
@@ -604,7 +604,7 @@ class VAR1(ContinuousProcess):
         if stochastic:
             innov = multivariate_normal(mu, Sigma, N * T)
         else:
-            innov = mu[None, len(mu)].repeat(T * N, axis=0)
+            innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-- 
2.43.0


From f093e2cf301d18ff2258c75b04cd4434e8ccb5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 21/94] fix: simulation and response of AR1 processes

The mean was undefined (and would have been added to every innovation), and
the autocorrelation was used as a matrix.
---
 dolo/numeric/processes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 4f911d3..1d1d7d7 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -457,7 +457,8 @@ class AR1(ContinuousProcess):
     def simulate(self, N, T, m0=None, stochastic=True):
 
         Sigma = np.array([[self.σ]])
-        mu = np.array([self.μ])
+        μ = np.array([self.μ])
+        mu = μ * 0.0
         rho = np.array([[self.ρ]])
         d = self.d
 
@@ -482,8 +483,8 @@ class AR1(ContinuousProcess):
     def response(self, T, impulse):
 
         d = self.d
-        rho = self.ρ
-        μ = self.μ
+        rho = np.array([[self.ρ]])
+        μ = np.array([self.μ])
 
         irf = np.zeros((T, d))
         irf[0, :] = impulse
-- 
2.43.0


From df7fa1e72d185e5b1750bd0fefaed4f180e66b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 22/94] fix: discretization of autoregressive processes as gdp

CartesianGrid is an abstract class, and AR1's autocorrelation is a scalar.
---
 dolo/numeric/processes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 1d1d7d7..fa435e1 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -414,7 +414,7 @@ class AR1(ContinuousProcess):
     def discretize_gdp(self, N=3):
 
         Σ = np.array([[self.σ]])
-        ρ = self.ρ
+        ρ = np.array([[self.ρ]])
 
         n_nodes = N
         n_std = 2.5
@@ -440,9 +440,9 @@ class AR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
@@ -578,9 +578,9 @@ class VAR1(ContinuousProcess):
         min = -n_std * (σ / (np.sqrt(1 - ρ**2)))
         max = n_std * (σ / (np.sqrt(1 - ρ**2)))
 
-        from .grids import CartesianGrid
+        from .grids import UniformCartesianGrid
 
-        grid = CartesianGrid([min], [max], [n_nodes])
+        grid = UniformCartesianGrid([min], [max], [n_nodes])
 
         nodes = np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
-- 
2.43.0


From 2173059760050fde945fa316ec5c8878a113a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 23/94] fix: the mean of autoregressive processes was ignored
 when they are discretized as gdp

---
 dolo/numeric/processes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index fa435e1..bd96ca4 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -442,14 +442,15 @@ class AR1(ContinuousProcess):
 
         from .grids import UniformCartesianGrid
 
-        grid = UniformCartesianGrid([min], [max], [n_nodes])
+        μ = np.atleast_1d(self.μ)
+        grid = UniformCartesianGrid([μ[0] + min], [μ[0] + max], [n_nodes])
 
-        nodes = np.linspace(min, max, n_nodes)[:, None]
+        nodes = μ[0] + np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = (1 - ρ) * μ + ρ * nodes[i, :] + epsilons[j]
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
@@ -580,14 +581,15 @@ class VAR1(ContinuousProcess):
 
         from .grids import UniformCartesianGrid
 
-        grid = UniformCartesianGrid([min], [max], [n_nodes])
+        μ = np.atleast_1d(self.μ)
+        grid = UniformCartesianGrid([μ[0] + min], [μ[0] + max], [n_nodes])
 
-        nodes = np.linspace(min, max, n_nodes)[:, None]
+        nodes = μ[0] + np.linspace(min, max, n_nodes)[:, None]
         iweights = weights[None, :].repeat(n_nodes, axis=0)
         integration_nodes = np.zeros((n_nodes, n_integration_nodes))[:, :, None]
         for i in range(n_nodes):
             for j in range(n_integration_nodes):
-                integration_nodes[i, j, :] = ρ * nodes[i, :] + epsilons[j]
+                integration_nodes[i, j, :] = (1 - ρ) * μ + ρ * nodes[i, :] + epsilons[j]
 
         return GDP(nodes, integration_nodes, iweights, grid=grid)
         # return (nodes,integration_nodes,iweights)
-- 
2.43.0


From 0bfc108505ee6c270fe86574dfed47319ea782b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 24/94] fix: non-scalar autocorrelations were silently replaced
 by their first element

The documented error is now raised.
---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index bd96ca4..666eda8 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -395,11 +395,11 @@ class AR1(ContinuousProcess):
         μ = np.array([self.μ])
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
@@ -534,11 +534,11 @@ class VAR1(ContinuousProcess):
         Sigma = self.Σ
 
         try:
-            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1
+            assert abs(np.eye(rho.shape[0]) * rho[0, 0] - rho).max() <= 1e-10
         except:
             raise Exception(
                 "When discretizing a Vector AR1 process, the autocorrelation coefficient must be as scalar. Found: {}".format(
-                    rho_array
+                    rho
                 )
             )
 
-- 
2.43.0


From 411692a4fba70c36e608ef21811a2e7582dc316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 25/94] fix: simulations of markov chains could not be
 replicated by seeding numpy's generator

---
 dolo/numeric/processes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 666eda8..e4c534a 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -11,7 +11,6 @@ Matrix = List[Vector]
 
 from numba import jit, njit
 from dolo.numeric.grids import EmptyGrid, CartesianGrid, UnstructuredGrid
-from random import random as rand
 
 from xarray import DataArray
 
@@ -32,7 +31,7 @@ def choice(x, n, cumul):
 
 
 @njit
-def simulate_mc_indices(C, N, T, i0):
+def simulate_mc_indices(C, N, T, i0, draws):
     k = len(C)
     out = np.zeros((T, N), dtype=np.int32)
     out[0, :] = i0
@@ -40,7 +39,7 @@ def simulate_mc_indices(C, N, T, i0):
         for t in range(0, T - 1):
             ii = out[t, n]
             options = C[ii]
-            x = rand()
+            x = draws[t, n]
             ix = choice(x, k, options)
             out[t + 1, n] = ix
     return out
@@ -51,7 +50,8 @@ def simulate_markov_chain(nodes, transitions, N, T, i0=None, return_values=False
     if i0 is not None:
         i0_[:] = i0
     C = transitions.cumsum(axis=1)
-    indices = simulate_mc_indices(C, N, T, i0_)
+    draws = np.random.random((T, N))
+    indices = simulate_mc_indices(C, N, T, i0_, draws)
     if return_values:
         values = np.reshape(
             np.concatenate([nodes[i, :][None, :] for i in indices.ravel()], axis=0),
-- 
2.43.0


From d9dbeb42e83fa0915d5aee5b31195399533ff96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 26/94] fix: the initial value of autoregressive simulations
 was shifted by the mean

---
 dolo/numeric/processes.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index e4c534a..6297a60 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -464,7 +464,8 @@ class AR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = self.μ
+        m0 = np.atleast_1d(m0)
         from numpy.random import multivariate_normal
 
         if stochastic:
@@ -473,7 +474,7 @@ class AR1(ContinuousProcess):
             innov = mu[None, :].repeat(T * N, axis=0)
         innov = innov.reshape((T, N, d))
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = m0[None, :] - self.μ
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
@@ -599,7 +600,8 @@ class VAR1(ContinuousProcess):
         d = self.d
 
         if m0 is None:
-            m0 = np.zeros(d)
+            m0 = self.μ
+        m0 = np.atleast_1d(m0)
         from numpy.random import multivariate_normal
 
         Sigma = self.Σ
@@ -611,7 +613,7 @@ class VAR1(ContinuousProcess):
         innov = innov.reshape((T, N, d))
         rho = self.ρ
         sim = np.zeros((T, N, d))
-        sim[0, :, :] = m0[None, :]
+        sim[0, :, :] = m0[None, :] - self.μ
         for t in range(1, sim.shape[0]):
             sim[t, :, :] = sim[t - 1, :, :] @ rho.T + innov[t, :, :]
 
-- 
2.43.0


From 17c693f3b39d0625e794e6d94803ddef038f6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 27/94] fix: responses of autoregressive processes follow the
 convention of iid ones

The response of a model to a shock could not be computed for these processes:
they returned a bare array with one date less.
---
 dolo/numeric/processes.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index 6297a60..cbfc172 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -488,12 +488,13 @@ class AR1(ContinuousProcess):
         rho = np.array([[self.ρ]])
         μ = np.array([self.μ])
 
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
-        for t in range(1, irf.shape[0]):
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 @language_element
@@ -623,13 +624,14 @@ class VAR1(ContinuousProcess):
 
     def response(self, T, impulse):
         d = self.d
-        irf = np.zeros((T, d))
-        irf[0, :] = impulse
         rho = self.ρ
-        for t in range(1, irf.shape[0]):
+        irf = np.zeros((T + 1, d))
+        irf[1, :] = impulse
+        for t in range(2, irf.shape[0]):
             irf[t, :] = rho @ irf[t - 1, :]
         irf += self.μ[None, :]
-        return irf
+        coords = {"T": range(T + 1), "V": list(self.names)}
+        return DataArray(irf, dims=coords.keys(), coords=coords)
 
 
 #### dummy class
-- 
2.43.0


From b78cb7f99db7654f3fb9e10758bda6b536950f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 28/94] fix: default impulse for univariate normal shocks is
 one standard deviation

---
 dolo/algos/simulations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index f716fbf..53982a0 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -21,7 +21,11 @@ def response(model, dr, varname, T=40, impulse: float = None):
                 model.exogenous.Σ[i_exo, i_exo]
             )  # works only for IID/AR1
         except:
-            impulse = numpy.sqrt(model.exogenous.σ)  # works only for IID/AR1
+            from dolo.numeric.processes import AR1
+
+            impulse = model.exogenous.σ
+            if isinstance(model.exogenous, AR1):
+                impulse = numpy.sqrt(impulse)
 
     e1 = numpy.zeros(len(model.symbols["exogenous"]))
     e1[i_exo] = impulse
-- 
2.43.0


From 7b4f96a6aa77ec37c397679e2cef6b41cb7dee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 29/94] fix: response should not print debug information

---
 dolo/algos/simulations.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 53982a0..58b2c4e 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -31,8 +31,6 @@ def response(model, dr, varname, T=40, impulse: float = None):
     e1[i_exo] = impulse
 
     exogenous = model.exogenous
-    print(exogenous)
-    print(T, e1)
     m_simul = model.exogenous.response(T - 1, e1)  # this is an xarray T x V
     m_simul = m_simul.expand_dims("N")
     m_simul = m_simul.transpose("T", "N", "V").data
-- 
2.43.0


From 8116e5dc1a9a3623f9f96dd76430997de8675a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 30/94] fix: simulations ignored their seed

The generator was seeded after the exogenous shocks had been drawn.
---
 dolo/algos/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 58b2c4e..a076ad6 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -112,6 +112,8 @@ def simulate(
     if isinstance(dr, AlgoResult):
         dr = dr.dr
 
+    numpy.random.seed(seed)
+
     calib = model.calibration
     parms = numpy.array(calib["parameters"])
 
@@ -181,8 +183,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    numpy.random.seed(seed)
-
     mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
-- 
2.43.0


From 86460b55eea5a521af518bc55f4282f2726db5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 31/94] fix: simulated states were computed with the shocks of
 the preceding date

A transition equation s[t] = g(m[t-1], s[t-1], x[t-1], m[t]) did not hold along
simulated paths.
---
 dolo/algos/simulations.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index a076ad6..8331e14 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -183,7 +183,6 @@ def simulate(
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
 
-    mp = m0
     for i in range(T):
         m = m_simul[i, :, :]
         s = s_simul[i, :, :]
@@ -198,10 +197,8 @@ def simulate(
 
         x_simul[i, :, :] = x
 
-        ss = g(mp, s, x, m, parms)
         if i < T - 1:
-            s_simul[i + 1, :, :] = ss
-        mp = m
+            s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
         l = [s_simul, x_simul]
-- 
2.43.0


From 66fe15d0767f69971f8362d9e9da20464d625848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 32/94] fix: simulation along a path of indices required an
 initial index

---
 dolo/algos/simulations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 8331e14..93a9c99 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -140,6 +140,8 @@ def simulate(
             i_simul = driving_process
             nodes = dr.exo_grid.nodes
             m_simul = nodes[i_simul]
+            if i0 is None:
+                i0 = i_simul[0, 0]
             # inds = i_simul.ravel()
             # m_simul = np.reshape( np.concatenate( [nodes[i,:][None,:] for i in inds.ravel()], axis=0 ), inds.shape + (-1,) )
             sim_type = "discrete"
-- 
2.43.0


From 3221e7c6e1090e86b1b8ab2320dda46239ac30e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 33/94] fix: simulations of markov chains with repeated values
 recovered the wrong states

---
 dolo/algos/simulations.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 93a9c99..e8591d1 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -150,7 +150,7 @@ def simulate(
             raise Exception("Incorrect specification of driving values.")
         m0 = m_simul[0, :, :]
     else:
-        from dolo.numeric.processes import DiscreteProcess
+        from dolo.numeric.processes import DiscreteProcess, simulate_markov_chain
 
         if process is None:
             if hasattr(dr, "dprocess") and hasattr(dr.dprocess, "simulate"):
@@ -168,8 +168,13 @@ def simulate(
             if i0 is None:
                 i0 = 0
             dp = process
-            m_simul = dp.simulate(N, T, i0=i0, stochastic=stochastic)
-            i_simul = find_index(m_simul, dp.values)
+            if stochastic:
+                i_simul = simulate_markov_chain(
+                    dp.values, dp.transitions, N, T, i0=i0
+                )
+            else:
+                i_simul = np.zeros((T, N), dtype=int) + i0
+            m_simul = dp.values[i_simul]
             m0 = dp.node(i0)
             x0 = dr.eval_is(i0, s0[None, :])[0, :]
         else:
-- 
2.43.0


From d1775f2528eec50e0ac87fd4946164e4ec336264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 34/94] fix: tabulate rules defined on a cartesian exogenous
 grid

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index e8591d1..57c30e9 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -293,7 +293,7 @@ def tabulate(
         xvec = dr.eval_is(i0, svec)
     elif m0 is not None:
         m = m0
-        xvec = dr.eval_ms(m0, svec)
+        xvec = dr.eval_ms(numpy.row_stack([m0] * n_steps), svec)
 
     mm = numpy.row_stack([m] * n_steps)
     l = [mm, svec, xvec]
-- 
2.43.0


From fec6e9f2a3b898d9d68754c70a4ee36db7ef8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 35/94] fix: tabulate_2d evaluated rules at a flat state

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 57c30e9..2f0b7dc 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -342,7 +342,7 @@ def tabulate_2d(model, dr, states=None, i0=0, s0=None, n=[12, 13]):
         s[i_x] = xx
         for yy in lps[1]:
             s[i_y] = yy
-            x = dr.eval_is(i0, s)
+            x = dr.eval_is(i0, s[None, :])[0, :]
             vv.append(numpy.concatenate([s, x]))
         vals.append(vv)
     vv = numpy.array(vals)
-- 
2.43.0


From 0f48cdd30445d880c4d680222a1214d06ee8ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 36/94] fix: generalized eigenvalues were not ordered according
 to their modulus

Complex eigenvalues were compared through the real part of their square, and
their modulus was read on the diagonal of the quasi-triangular factors.
---
 dolo/numeric/extern/qz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/numeric/extern/qz.py b/dolo/numeric/extern/qz.py
index be26ea8..814b963 100644
--- a/dolo/numeric/extern/qz.py
+++ b/dolo/numeric/extern/qz.py
@@ -11,11 +11,11 @@ def qzordered(A, B, crit=1.0):
     TOL = 1e-10
 
     def select(alpha, beta):
-        return alpha**2 > crit * beta**2
+        return abs(alpha) > crit * abs(beta)
 
     [S, T, alpha, beta, U, V] = ordqz(A, B, output="real", sort=select)
 
-    eigval = abs(numpy.diag(S) / numpy.diag(T))
+    eigval = abs(alpha) / abs(beta)
 
     return [S, T, U, V, eigval]
 
-- 
2.43.0


From 5e5dff70d95ed234460d6c9dc970fab8cd51eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 37/94] fix: perturbation of models driven by a VAR1

---
 dolo/algos/perturbation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index a64fe13..fdcfc32 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -30,7 +30,7 @@ def get_derivatives(model, steady_state=None):
     process = model.exogenous
 
     if isinstance(process, VAR1):
-        A = process.rho
+        A = process.ρ
         B = np.eye(A.shape[0])
         G_s = np.row_stack(
             [
-- 
2.43.0


From 858d91483e765751725c509a8e50f407ea707fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 38/94] fix: derivatives of the states with respect to the
 innovations

Innovations enter the transition through the exogenous variables of the current
date, not of the preceding one.
---
 dolo/algos/perturbation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index fdcfc32..847f54f 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -39,7 +39,7 @@ def get_derivatives(model, steady_state=None):
             ]
         )
         G_x = np.row_stack([np.zeros((n_m, n_x)), g_x])
-        G_e = g_m @ B
+        G_e = np.row_stack([B, g_M @ B])
         F_s = np.column_stack([f_m, f_s])
         F_S = np.column_stack([f_M, f_S])
         F_x = f_x
@@ -47,7 +47,7 @@ def get_derivatives(model, steady_state=None):
     elif isinstance(process, IIDProcess):
         G_s = g_s
         G_x = g_x
-        G_e = g_m
+        G_e = g_M
         F_s = f_s
         F_S = f_S
         F_x = f_x
-- 
2.43.0


From b938bd9a17fdc0dfc601c75d15a7425f29d509b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 39/94] fix: violations of the Blanchard-Kahn conditions were
 not detected by the perturbation

The condition was met as soon as one eigenvalue was well placed, and the
selection of the smallest roots in the other case could not succeed.
---
 dolo/algos/perturbation.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index 847f54f..c7d1938 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -129,7 +129,8 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
 
     B = row_stack([column_stack([g_s, g_x]), column_stack([f_s, f_x])])
 
-    [S, T, Q, Z, eigval] = qzordered(A, B, 1.0 - 1e-8)
+    crit = 1.0 - 1e-8
+    [S, T, Q, Z, eigval] = qzordered(A, B, crit)
 
     Z = Z.real
 
@@ -142,29 +143,26 @@ def approximate_1st_order(g_s, g_x, g_e, f_s, f_x, f_S, f_X):
         ok = sum((abs(diag_S) < tol_geneigvals) * (abs(diag_T) < tol_geneigvals)) == 0
         assert ok
     except Exception as e:
-        raise GeneralizedEigenvaluesError(diag_S=diag_S, diag_T=diag_T)
+        raise Exception(
+            "Undetermined generalized eigenvalues: {}, {}".format(diag_S, diag_T)
+        )
 
+    # these are the inverses of the roots of the system: stable ones exceed 1
     eigval_s = sorted(eigval, reverse=False)
-    if max(eigval[:n_s]) >= 1 and min(eigval[n_s:]) < 1:
+    if min(eigval[:n_s]) >= crit and max(eigval[n_s:]) < crit:
         # BK conditions are met
         pass
     else:
-        ev_a = eigval_s[n_s - 1]
-        ev_b = eigval_s[n_s]
-        cutoff = (ev_a - ev_b) / 2
+        ev_a = eigval_s[-n_s]
+        ev_b = eigval_s[-n_s - 1]
         if not ev_a > ev_b:
-            raise GeneralizedEigenvaluesSelectionError(
-                A=A,
-                B=B,
-                eigval=eigval,
-                cutoff=cutoff,
-                diag_S=diag_S,
-                diag_T=diag_T,
-                n_states=n_s,
+            raise Exception(
+                "Impossible to select {} eigenvalues among: {}".format(n_s, eigval_s)
             )
+        cutoff = (ev_a + ev_b) / 2 if ev_a < np.inf else ev_b * 2 + 1
         import warnings
 
-        if cutoff > 1:
+        if cutoff < 1:
             warnings.warn("Solution is not convergent.")
         else:
             warnings.warn(
-- 
2.43.0


From 7d24035cb2bb8ce14f6f5c53816b40bbab7eca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 40/94] fix: perturbation results were always reported as
 stable, determined and unique

---
 dolo/algos/perturbation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perturbation.py b/dolo/algos/perturbation.py
index c7d1938..d0a72b7 100644
--- a/dolo/algos/perturbation.py
+++ b/dolo/algos/perturbation.py
@@ -261,10 +261,14 @@ def perturb(
     if not details:
         return dr
     else:
+        # generalized eigenvalues are the inverses of the roots of the system
+        n_s = G_s.shape[0]
+        ev_a = eigvals[-n_s]
+        ev_b = eigvals[-n_s - 1]
         return PerturbationResult(
             dr,
             eigvals,
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
-            True,  # otherwise an Exception should have been raised already
+            bool(ev_a >= 1.0 - 1e-8),
+            bool(ev_a > ev_b),
+            bool(ev_b < 1.0 - 1e-8),
         )
-- 
2.43.0


From 693135a18107f3571b6e6f266c81422713f9e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 41/94] fix: tabulate a perturbation solution when shocks are
 autocorrelated

---
 dolo/algos/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 2f0b7dc..c7b7cc8 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -281,7 +281,7 @@ def tabulate(
     if (i0 is None) and (m0 is None):
         from dolo.numeric.grids import UnstructuredGrid
 
-        if isinstance(dp.grid, UnstructuredGrid):
+        if isinstance(dp.grid, UnstructuredGrid) and hasattr(dr, "eval_is"):
             n_ms = dp.n_nodes
             [q, r] = divmod(n_ms, 2)
             i0 = q - 1 + r
-- 
2.43.0


From be51097b7f38a95ad5f993bb0e03aba2ba2d0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 42/94] fix: rules were defined on the default exogenous grid
 when another process is supplied

---
 dolo/algos/improved_time_iteration.py | 2 +-
 dolo/algos/time_iteration.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index e39697b..99352ab 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -305,7 +305,7 @@ def improved_time_iteration(
         dprocess = dprocess_
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     n_m = max(dprocess.n_nodes, 1)
     n_s = len(model.symbols["states"])
diff --git a/dolo/algos/time_iteration.py b/dolo/algos/time_iteration.py
index ae47e44..fcec6d4 100644
--- a/dolo/algos/time_iteration.py
+++ b/dolo/algos/time_iteration.py
@@ -114,7 +114,7 @@ def time_iteration(
     n_s = len(model.symbols["states"])
 
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dprocess.grid
 
     mdr = DecisionRule(
         exo_grid, endo_grid, dprocess=dprocess, interp_method=interp_method
-- 
2.43.0


From 5cb6f70b61aa9ca3fe557699650ea5132cc5f38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 43/94] fix: the domain of the states depended on the order in
 which it is written

---
 dolo/compiler/model.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 8c454bd..cbb9c7d 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -350,9 +350,6 @@ class SymbolicModel:
         states = self.symbols["states"]
 
         sdomain = self.data.get("domain", {})
-        for k in sdomain.keys():
-            if k not in states:
-                sdomain.pop(k)
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
@@ -370,8 +367,8 @@ class SymbolicModel:
         if len(sdomain) == 0:
             return None
 
-        if len(sdomain) < len(states):
-            missing = [s for s in states if s not in sdomain]
+        missing = [s for s in states if s not in sdomain]
+        if len(missing) > 0:
             raise Exception(
                 "Missing domain for states: {}.".format(str.join(", ", missing))
             )
@@ -381,7 +378,8 @@ class SymbolicModel:
 
         sdomain = eval_data(sdomain, calibration)
 
-        domain = CartesianDomain(**sdomain)
+        # bounds are listed in the order of the states
+        domain = CartesianDomain(**{s: sdomain[s] for s in states})
 
         return domain
 
-- 
2.43.0


From b2a169e077943f25e4a5ff5d096ae0d9c870f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 44/94] fix: discretize the product of a single process as a
 markov chain

---
 dolo/numeric/discretization/discretization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolo/numeric/discretization/discretization.py b/dolo/numeric/discretization/discretization.py
index 8265b24..028b053 100644
--- a/dolo/numeric/discretization/discretization.py
+++ b/dolo/numeric/discretization/discretization.py
@@ -173,6 +173,11 @@ def tensor_markov(*args):
         prod = tensor_markov(m1, m2)
         return tensor_markov(prod, *tail)
 
+    elif len(args) == 1:
+
+        n, t = args[0]
+        return np.array(n, dtype=float), np.array(t, dtype=float)
+
     elif len(args) == 2:
 
         m1, m2 = args
-- 
2.43.0


From 794abdb74b12b4834df02a550472200e67746848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 45/94] fix: custom decision rules failed when no group had as
 many symbols as controls

---
 dolo/numeric/decision_rule.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 2873f62..870db75 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -525,7 +525,11 @@ class CustomDR(CallableDecisionRule):
         self.exo_grid = model.exogenous.discretize()  # this is never used
         self.endo_grid = model.endo_grid
         self.gufun = gufun
+        self.n_x = len(controls)
 
     def eval_ms(self, m, s):
 
-        return self.gufun(m, s, self.p)
+        shape = np.broadcast_shapes(m.shape[:-1], s.shape[:-1])
+        out = np.zeros(shape + (self.n_x,))
+        self.gufun(m, s, self.p, out)
+        return out
-- 
2.43.0


From 3e19898f20d273d301d3d86b735e627ae81cff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 46/94] fix: discretized mixtures ignored the values taken by
 their index

---
 dolo/numeric/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index c333866..4e2d77f 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -738,7 +738,8 @@ class Mixture(ContinuousDistribution):
             for i in range(inddist.n_inodes(0)):
                 wind = inddist.iweight(0, i)
                 xind = inddist.inode(0, i)
-                dist = self.distributions[str(i)].discretize(to=to)
+                # same convention as draw: distributions are indexed by the values of the index
+                dist = self.distributions[str(int(xind[0]))].discretize(to=to)
                 for j in range(dist.n_inodes(0)):
                     w = dist.iweight(0, j)
                     x = dist.inode(0, j)
-- 
2.43.0


From ae8b08ed5890f8d60ac9921fcc7916752bcc3bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 47/94] fix: shape of a single draw from a multivariate normal

---
 dolo/numeric/distribution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index 4e2d77f..ccd9ff6 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -587,11 +587,9 @@ class Normal(ContinuousDistribution):
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
-        if res.ndim == 1:
-            # scipy returns a 1d object for 1d distribution
-            res = res[:, None]
 
-        return res
+        # scipy drops the dimensions of length one
+        return np.reshape(res, (N, self.d))
 
     def discretize(self, to="iid", N=None) -> FiniteDistribution:
 
-- 
2.43.0


From e11a902f70c726882b0c33f139c42c7d8568e190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 48/94] fix: in-place solution of linear systems with
 rectangular right-hand sides

---
 dolo/algos/invert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/invert.py b/dolo/algos/invert.py
index ac27d59..12e6761 100644
--- a/dolo/algos/invert.py
+++ b/dolo/algos/invert.py
@@ -56,7 +56,7 @@ def substract_tensor(i, j, c, M):
 @jit
 def substract_matrix(i, j, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] = M[i, k] - c * M[j, k]
 
@@ -100,7 +100,7 @@ def divide_tensor(i, c, M):
 @jit
 def divide_matrix(i, c, M):
     # Li <- Li - c*Lj
-    n = M.shape[0]
+    n = M.shape[1]
     for k in range(n):
         M[i, k] /= c
 
-- 
2.43.0


From 322699578381a534daf1723c59e7b9c5d96ed5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 49/94] fix: bounds were ignored by ncpsolve with full
 jacobians

---
 dolo/numeric/optimize/ncpsolve.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 7bf9bb4..1862b7d 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -91,7 +91,6 @@ def smooth(x, a, b, fx, J, jactype="serial"):
         xxx = diag(xx)
         #        xxx = diag(xx)
         Jnew = fff * J - xxx
-        return fx, J
         return [fxnew, Jnew]
 
     else:
-- 
2.43.0


From 1766cec73353b96a1662d5eb782851a1b9dcfefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 50/94] fix: derivatives of complementarity conditions were
 undefined at bounds with zero residuals

---
 dolo/algos/improved_time_iteration.py | 2 ++
 dolo/numeric/optimize/ncpsolve.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 99352ab..fad4843 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -48,6 +48,8 @@ def smooth(res, dres, jres, dx, pos=1.0):
     n_m, N, n_x = res.shape
     sq = sqrt(res**2 + (dx) ** 2)
     H = res + (dx) - sq
+    # at kinks any generalized derivative will do
+    sq[sq == 0] = 1
     Phi_a = 1 - res / sq
     Phi_b = 1 - (dx) / sq
     H[dinf] = res[dinf]
diff --git a/dolo/numeric/optimize/ncpsolve.py b/dolo/numeric/optimize/ncpsolve.py
index 1862b7d..900702e 100644
--- a/dolo/numeric/optimize/ncpsolve.py
+++ b/dolo/numeric/optimize/ncpsolve.py
@@ -48,6 +48,10 @@ def smooth(x, a, b, fx, J, jactype="serial"):
 
     fxnew[dbinf] = pval[dbinf]
 
+    # at kinks (where square roots vanish) any generalized derivative will do
+    sq1[sq1 == 0] = 1
+    sq2[sq2 == 0] = 1
+
     dpdy = 1 + fx / sq1
     dpdy[dainf] = 1
 
-- 
2.43.0


From 3bb61aa22a7363d55eda9373fe89713d12ff518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 51/94] fix: second_order_solver could not be called with
 recent versions of numpy

---
 dolo/numeric/matrix_equations.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/dolo/numeric/matrix_equations.py b/dolo/numeric/matrix_equations.py
index d9c5e44..65b0396 100644
--- a/dolo/numeric/matrix_equations.py
+++ b/dolo/numeric/matrix_equations.py
@@ -11,19 +11,7 @@ def second_order_solver(FF, GG, HH, eigmax=1.0 + 1e-6):
     # from scipy.linalg import qz
     from dolo.numeric.extern.qz import qzordered
 
-    from numpy import (
-        array,
-        mat,
-        c_,
-        r_,
-        eye,
-        zeros,
-        real_if_close,
-        diag,
-        allclose,
-        where,
-        diagflat,
-    )
+    from numpy import array, c_, r_, eye, zeros, real_if_close, allclose
     from numpy.linalg import solve
 
     Psi_mat = array(FF)
-- 
2.43.0


From bc140e13e02a869836fca16ac2f8c66ee40aba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 52/94] fix: find_steady_state returned points that are no
 steady states

---
 dolo/algos/steady_state.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/algos/steady_state.py b/dolo/algos/steady_state.py
index 800fb53..d8e3245 100644
--- a/dolo/algos/steady_state.py
+++ b/dolo/algos/steady_state.py
@@ -48,5 +48,8 @@ def find_steady_state(model: Model, *, m=None):
     sol = scipy.optimize.root(fobj, x0)
     res = sol.x
 
+    if not abs(fobj(res)).max() < 1e-6:
+        raise Exception("Steady-state could not be found: " + sol.message)
+
     d = dict(exogenous=m, states=res[:n_s], controls=res[n_s:], parameters=p)
     return CalibrationDict(model.symbols, d)
-- 
2.43.0


From 1fad8b5a37077469801ae5a9be3a8cb89055007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 53/94] fix: leads and lags were exchanged by eval_formula

---
 dolo/compiler/eval_formula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/eval_formula.py b/dolo/compiler/eval_formula.py
index ffc08a9..2f847f5 100644
--- a/dolo/compiler/eval_formula.py
+++ b/dolo/compiler/eval_formula.py
@@ -41,7 +41,7 @@ def eval_formula(expr: str, dataframe=None, context=None):
         import pandas as pd
 
         for k, t in variables:
-            dd[stringify_symbol((k, t))] = dataframe[k].shift(t)
+            dd[stringify_symbol((k, t))] = dataframe[k].shift(-t)
         dd["t_"] = pd.Series(dataframe.index, index=dataframe.index)
 
     expr = str_expression(nexpr)
-- 
2.43.0


From 3c0747490e226aaff59a80d8b351213b7d005b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 54/94] fix: first value of the shocks was dropped by
 deterministic_solve when given as an array

---
 dolo/algos/perfect_foresight.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 9950d55..e7f058d 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -24,7 +24,7 @@ def _shocks_to_epsilons(model, shocks, T):
         epsilons = np.zeros((T + 1, n_e))
         for i, k in enumerate(model.symbols["exogenous"]):
             if k in shocks:
-                this_shock = shocks[k]
+                this_shock = np.atleast_1d(shocks[k])[: T + 1]
                 epsilons[: len(this_shock), i] = this_shock
                 epsilons[len(this_shock) :, i] = this_shock[-1]
             else:
@@ -43,9 +43,10 @@ def _shocks_to_epsilons(model, shocks, T):
     shocks = shocks.reshape((-1, n_e))
 
     # until last period, exogenous shock takes its last value
+    shocks = shocks[: T + 1, :]
     epsilons = np.zeros((T + 1, n_e))
-    epsilons[: (shocks.shape[0] - 1), :] = shocks[1:, :]
-    epsilons[(shocks.shape[0] - 1) :, :] = shocks[-1:, :]
+    epsilons[: shocks.shape[0], :] = shocks
+    epsilons[shocks.shape[0] :, :] = shocks[-1:, :]
 
     return epsilons
 
-- 
2.43.0


From 2a77fab962ab55e5f3d41448a0081439d8a1e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 55/94] fix: initial states given to deterministic_solve were
 not those of the simulation

---
 dolo/algos/perfect_foresight.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index e7f058d..0c30980 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -165,10 +165,9 @@ def deterministic_solve(
         from dolo.algos.steady_state import find_steady_state
 
         start_state = find_steady_state(model, m=m0)
-        s0 = start_state["states"]
         x0 = start_state["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
+        if s0 is None:
+            s0 = start_state["states"]
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -179,10 +178,16 @@ def deterministic_solve(
         # we should probably do something here with the nature of the exogenous process if specified
         # i.e. compute nonlinear irf
         epsilons = _shocks_to_epsilons(model, exogenous, T)
+        epsilons[0, :] = m0
         x0 = model.calibration["controls"]
-        m1 = epsilons[1, :]
-        s1 = model.functions["transition"](m0, s0, x0, m1, p)
-        s1 = np.array(s1)
+
+    # initial states are given
+    if isinstance(s0, dict):
+        s0 = [
+            s0.get(k, v)
+            for k, v in zip(model.symbols["states"], model.calibration["states"])
+        ]
+    s1 = np.array(s0, dtype=float).ravel()
 
     x1_g = model.calibration["controls"]  # we can do better here
     sT_g = model.calibration["states"]  # we can do better here
-- 
2.43.0


From a1867638a665d3b3f2db8361446e8072c026212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 56/94] fix: options of the solver were ignored by
 deterministic_solve without constraints

---
 dolo/algos/perfect_foresight.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 0c30980..eca31b3 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -276,7 +276,9 @@ def deterministic_solve(
         # sol = sol.x.reshape(sh)
         from dolo.numeric.optimize.newton import newton
 
-        sol, nit = newton(ff, v0, jactype="sparse")
+        sol, nit = newton(
+            ff, v0, verbose=verbose, maxit=maxit, tol=tol, jactype="sparse"
+        )
         sol = sol.reshape(sh)
 
     # sol = sol[:-1, :]
-- 
2.43.0


From 11d74c5c91237a6859981fc5c8722a0138150bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:59 +0000
Subject: [PATCH 57/94] fix: initial guesses and keep_steady_state option of
 deterministic_solve

---
 dolo/algos/perfect_foresight.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index eca31b3..bd19f59 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -161,13 +161,14 @@ def deterministic_solve(
     if exogenous is not None:
         epsilons = _shocks_to_epsilons(model, exogenous, T)
         m0 = epsilons[0, :]
-        # get initial steady-state
-        from dolo.algos.steady_state import find_steady_state
-
-        start_state = find_steady_state(model, m=m0)
-        x0 = start_state["controls"]
-        if s0 is None:
-            s0 = start_state["states"]
+        if s0 is None or keep_steady_state:
+            # get initial steady-state
+            from dolo.algos.steady_state import find_steady_state
+
+            start_state = find_steady_state(model, m=m0)
+            x0 = start_state["controls"]
+            if s0 is None:
+                s0 = start_state["states"]
     else:
         if s0 is None:
             s0 = model.calibration["states"]
@@ -205,8 +206,8 @@ def deterministic_solve(
             initial_guess = np.array(
                 initial_guess[model.symbols["states"] + model.symbols["controls"]]
             )
-        initial_guess = initial_guess[1:, :]
-        initial_guess = initial_guess[:, : n_s + n_x]
+        # drop the initial steady-state if there is one
+        initial_guess = initial_guess[-(T + 1) :, : n_s + n_x]
 
     sh = initial_guess.shape
 
@@ -286,7 +287,7 @@ def deterministic_solve(
     if (exogenous is not None) and keep_steady_state:
         sx = np.concatenate([s0, x0])
         sol = np.concatenate([sx[None, :], sol], axis=0)
-        epsilons = np.concatenate([epsilons[:1:], epsilons], axis=0)
+        epsilons = np.concatenate([epsilons[:1, :], epsilons], axis=0)
         index = range(-1, T + 1)
     else:
         index = range(0, T + 1)
-- 
2.43.0


From 22f34266a4217cf6359b9271593b7625b0bc6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 58/94] fix: deterministic_solve accepted variable bounds when
 other controls are unbounded

---
 dolo/algos/perfect_foresight.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index bd19f59..6fabb98 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -218,9 +218,9 @@ def deterministic_solve(
         lower_bound[:, n_s:] = lb
         upper_bound = initial_guess * 0 + np.inf
         upper_bound[:, n_s:] = ub
-        test1 = max(lb.max(axis=0) - lb.min(axis=0))
-        test2 = max(ub.max(axis=0) - ub.min(axis=0))
-        if test1 > 0.00000001 or test2 > 0.00000001:
+        test1 = lb.max(axis=0) > lb.min(axis=0) + 0.00000001
+        test2 = ub.max(axis=0) > ub.min(axis=0) + 0.00000001
+        if test1.any() or test2.any():
             msg = "Not implemented: perfect foresight solution requires that "
             msg += "controls have constant bounds."
             raise Exception(msg)
-- 
2.43.0


From 204d4f3d685d88c7878dc73725fcdb83f914c059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 59/94] fix: arguments of lmmcp were exchanged by
 deterministic_solve

---
 dolo/algos/perfect_foresight.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/perfect_foresight.py b/dolo/algos/perfect_foresight.py
index 6fabb98..8537627 100644
--- a/dolo/algos/perfect_foresight.py
+++ b/dolo/algos/perfect_foresight.py
@@ -255,10 +255,10 @@ def deterministic_solve(
 
             sol = lmmcp(
                 lambda u: ff(u)[0],
-                lambda u: ff(u)[1].todense(),
+                lambda u: ff(u)[1].toarray(),
+                initial_guess.ravel(),
                 lower_bound.ravel(),
                 upper_bound.ravel(),
-                initial_guess.ravel(),
                 verbose=verbose,
             )
             nit = -1
-- 
2.43.0


From addee63ce94d13ad8454b7a02125e17406b356a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 60/94] fix: gmres option of improved_time_iteration used an
 argument removed from scipy

---
 dolo/algos/improved_time_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index fad4843..790e39b 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -460,7 +460,7 @@ def improved_time_iteration(
             L.addid = True
             ttol = err_0 / 100
             sol = scipy.sparse.linalg.gmres(
-                L, ddx.ravel(), tol=ttol
+                L, ddx.ravel(), rtol=ttol
             )  # , maxiter=1, restart=smaxit)
             lam0 = 0.01
             nn = L.counter - n0
-- 
2.43.0


From 581efdf812689a0dfb4e63902f20b25ebf697b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 61/94] fix: improved_time_iteration could not solve models
 without complementarity conditions

---
 dolo/algos/improved_time_iteration.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index 790e39b..ce6d3ba 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -296,8 +296,11 @@ def improved_time_iteration(
 
     f = model.functions["arbitrage"]
     g = model.functions["transition"]
-    x_lb = model.functions["arbitrage_lb"]
-    x_ub = model.functions["arbitrage_ub"]
+    if "arbitrage_lb" in model.functions:
+        x_lb = model.functions["arbitrage_lb"]
+        x_ub = model.functions["arbitrage_ub"]
+    else:
+        complementarities = False
 
     parms = model.calibration["parameters"]
 
@@ -342,12 +345,13 @@ def improved_time_iteration(
 
     steps = 0.5 ** numpy.arange(maxbsteps)
 
-    lb = x0.copy()
-    ub = x0.copy()
-    for i_m in range(n_m):
-        m = dprocess.node(i_m)
-        lb[i_m, :] = x_lb(m, s, parms)
-        ub[i_m, :] = x_ub(m, s, parms)
+    if complementarities:
+        lb = x0.copy()
+        ub = x0.copy()
+        for i_m in range(n_m):
+            m = dprocess.node(i_m)
+            lb[i_m, :] = x_lb(m, s, parms)
+            ub[i_m, :] = x_ub(m, s, parms)
 
     x = x0
 
-- 
2.43.0


From ee964b933b57e8b6184690f4a2bd81dcdf22f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 62/94] fix: improved_time_iteration did not accept the same
 initial guesses as time_iteration

---
 dolo/algos/improved_time_iteration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/improved_time_iteration.py b/dolo/algos/improved_time_iteration.py
index ce6d3ba..081510c 100644
--- a/dolo/algos/improved_time_iteration.py
+++ b/dolo/algos/improved_time_iteration.py
@@ -339,8 +339,15 @@ def improved_time_iteration(
     )
 
     if dr0 is not None:
-        for i_m in range(n_m):
-            x0[i_m, :, :] = dr0.eval_is(i_m, s)
+        if isinstance(dr0, AlgoResult):
+            dr0 = dr0.dr
+        try:
+            for i_m in range(n_m):
+                x0[i_m, :, :] = dr0(i_m, s)
+        except Exception:
+            for i_m in range(n_m):
+                m = dprocess.node(i_m)
+                x0[i_m, :, :] = dr0(m, s)
     ddr.set_values(x0)
 
     steps = 0.5 ** numpy.arange(maxbsteps)
-- 
2.43.0


From 10d443953216af904af1131c6357a4d4086f64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 63/94] fix: egm printed every integration step, even when not
 verbose

---
 dolo/algos/egm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 5e158c9..626f300 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -107,7 +107,6 @@ def egm(
                 w = dp.iweight(i_m, i_M)
                 M = dp.inode(i_m, i_M)
                 S = gt(m, a, M, p)
-                print(it, i_m, i_M)
                 X = drfut(i_M, S)
                 z[i_m, :, :] += w * h(M, S, X, p)
             xa[i_m, :, :] = τ(m, a, z[i_m, :, :], p)
-- 
2.43.0


From 4ad718b884da3884cbc6307eedea136697f69a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 64/94] fix: details option was ignored by egm

---
 dolo/algos/egm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 626f300..718c7a0 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -134,6 +134,9 @@ def egm(
         np.concatenate([drfut(i, s)[None, :, :] for i in range(n_m)], axis=0)
     )
 
+    if not details:
+        return mdr
+
     sol = EGMResult(mdr, it, dp, (η < η_tol), η_tol, η)
 
     return sol
-- 
2.43.0


From 350b892a4a5ce025c9a0cc11a070747402a423c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 65/94] fix: egm could not be called with a grid or a
 discretized process only

---
 dolo/algos/egm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 718c7a0..2a38438 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -36,8 +36,10 @@ def egm(
 
     p = model.calibration["parameters"]
 
-    if grid is None and dp is None:
-        grid, dp = model.discretize()
+    if grid is None or dp is None:
+        grid_, dp_ = model.discretize()
+        grid = grid_ if grid is None else grid
+        dp = dp_ if dp is None else dp
 
     s = grid["endo"].nodes
 
@@ -127,7 +129,7 @@ def egm(
 
     # resample the result on the standard grid
     endo_grid = grid["endo"]
-    exo_grid = grid["exo"]
+    exo_grid = dp.grid
     mdr = DecisionRule(exo_grid, endo_grid, dprocess=dp, interp_method="cubic")
 
     mdr.set_values(
-- 
2.43.0


From ae1443c5e35a3f7beb7512f7fb6950ab9c3d596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 66/94] fix: egm did not accept results of other algorithms as
 initial guess

---
 dolo/algos/egm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolo/algos/egm.py b/dolo/algos/egm.py
index 2a38438..803e4bb 100644
--- a/dolo/algos/egm.py
+++ b/dolo/algos/egm.py
@@ -3,7 +3,7 @@ from dolo.numeric.decision_rule import DecisionRule
 import numpy as np
 from interpolation.splines import eval_linear
 from dolo.compiler.model import Model
-from .results import EGMResult
+from .results import AlgoResult, EGMResult
 
 
 def egm(
@@ -54,6 +54,8 @@ def egm(
     if dr0 is None:
         x0 = model.calibration["controls"]
         dr0 = lambda i, s: x0[None, :].repeat(s.shape[0], axis=0)
+    elif isinstance(dr0, AlgoResult):
+        dr0 = dr0.dr
 
     n_m = dp.n_nodes
     n_x = len(model.symbols["controls"])
-- 
2.43.0


From df2bf640277fdc04780027d23d32013d768504fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 67/94] fix: value_iteration looked for bounds of controls
 under a name which is never defined

---
 dolo/algos/value_iteration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 8e52d13..370bfa1 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -50,8 +50,11 @@ def value_iteration(
 
     transition = model.functions["transition"]
     felicity = model.functions["felicity"]
-    controls_lb = model.functions["controls_lb"]
-    controls_ub = model.functions["controls_ub"]
+    if model.x_bounds is not None:
+        controls_lb, controls_ub = model.x_bounds
+    else:
+        controls_lb = lambda m, s, p: np.full(len(x0), -np.inf)
+        controls_ub = lambda m, s, p: np.full(len(x0), np.inf)
 
     parms = model.calibration["parameters"]
     discount = model.calibration["beta"]
-- 
2.43.0


From 815a1c88029b152a4a3221bbdc123113eb199c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 68/94] fix: value_iteration did not report convergence with
 respect to the requested tolerance

---
 dolo/algos/value_iteration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 370bfa1..1adffad 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -100,7 +100,7 @@ def value_iteration(
     err_x = 100
     err_x_0 = 0
     tol_x = 1e-5
-    tol_v = 1e-7
+    tol_v = tol
 
     itprint = IterationsPrinter(
         ("N", int),
@@ -114,7 +114,7 @@ def value_iteration(
     )
     itprint.print_header("Start value function iterations.")
 
-    while (it < maxit) and (err_v > tol or err_x > tol_x):
+    while (it < maxit) and (err_v > tol_v or err_x > tol_x):
 
         t_start = time.time()
         it += 1
-- 
2.43.0


From 82c5d7c5b36b82eda1344c7b445b67962e216969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 69/94] fix: initial guess was overwritten by evaluate_policy

---
 dolo/algos/value_iteration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 1adffad..7f12ee2 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -278,10 +278,7 @@ def evaluate_policy(
     n_v = len(v0)
     n_s = len(model.symbols["states"])
 
-    if dr0 is not None:
-        mdrv = dr0
-    else:
-        mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
+    mdrv = DecisionRule(exo_grid, endo_grid, interp_method=interp_method)
 
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
-- 
2.43.0


From 24d9caaf4932253ed8b658061954a0a47a99b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 70/94] fix: evaluate_policy did not accept results of other
 algorithms

---
 dolo/algos/value_iteration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 7f12ee2..d4ca696 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -283,6 +283,9 @@ def evaluate_policy(
     s = mdrv.endo_grid.nodes
     N = s.shape[0]
 
+    if isinstance(mdr, AlgoResult):
+        mdr = mdr.dr
+
     if isinstance(mdr, np.ndarray):
         controls = mdr
     else:
-- 
2.43.0


From c5c3583d76b90378c4893af87ba181dbc219abd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 71/94] fix: exogenous variables were missing from simulations
 of models without definitions

---
 dolo/algos/simulations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index c7b7cc8..7583e08 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -208,8 +208,12 @@ def simulate(
             s_simul[i + 1, :, :] = g(m, s, x, m_simul[i + 1, :, :], parms)
 
     if "auxiliary" not in model.functions:  # TODO: find a better test than this
-        l = [s_simul, x_simul]
-        varnames = model.symbols["states"] + model.symbols["controls"]
+        l = [m_simul, s_simul, x_simul]
+        varnames = (
+            model.symbols["exogenous"]
+            + model.symbols["states"]
+            + model.symbols["controls"]
+        )
     else:
         aux = model.functions["auxiliary"]
         a_simul = aux(
-- 
2.43.0


From fe0d1c2ca1b8ec1d5755ea2bd1a305cab881b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 72/94] fix: hp_filter ignored the smoothing parameter when
 filtering several series

---
 dolo/numeric/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/filters.py b/dolo/numeric/filters.py
index 7eae04f..4e3f9cf 100644
--- a/dolo/numeric/filters.py
+++ b/dolo/numeric/filters.py
@@ -38,7 +38,7 @@ def hp_filter(data, lam=1600):
     Y = np.asarray(data)
 
     if Y.ndim == 2:
-        resp = [hp_filter(e) for e in data]
+        resp = [hp_filter(e, lam) for e in data]
         T = np.row_stack([e[0] for e in resp])
         Cycle = np.row_stack([e[1] for e in resp])
         return [T, Cycle]
-- 
2.43.0


From 85005cd42ba6e95d49c4e90eca36816d4aaa6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 73/94] fix: memoized functions confused arguments with the
 same hash, shape-less content or type

---
 dolo/misc/caching.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 37ff9d6..d3c288b 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -13,11 +13,8 @@ class memoized(object):
 
     def __call__(self, *args, **kargs):
 
-        targs = (e for e in args)
-        hh = tuple(hashable(e) for e in targs)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
         try:
+            h = (hashable(args), hashable(kargs))
             return self.cache[h]
         except KeyError:
             value = self.func(*args, **kargs)
@@ -138,17 +135,21 @@ class DiskDictionary:
             return None
 
 
-import collections
+import collections.abc
 
 
 def hashable(obj):
+    """Hashable key for obj: two different objects have different keys."""
+    name = type(obj).__name__
     if hasattr(obj, "flatten"):  # for numpy arrays
-        return tuple(obj.flatten().tolist())
+        return (name, str(obj.dtype), obj.shape, tuple(obj.flatten().tolist()))
+    if isinstance(obj, (list, tuple)):
+        return (name,) + tuple(hashable(e) for e in obj)
+    if isinstance(obj, collections.abc.Mapping):
+        items = [(hashable(k), hashable(v)) for (k, v) in obj.items()]
+        return (name,) + tuple(sorted(items, key=repr))
+    if isinstance(obj, collections.abc.Set):
+        return (name,) + tuple(sorted([hashable(e) for e in obj], key=repr))
     if isinstance(obj, collections.abc.Hashable):
         return obj
-    if isinstance(obj, collections.abc.Mapping):
-        items = [(k, hashable(v)) for (k, v) in obj.items()]
-        return frozenset(items)
-    if isinstance(obj, collections.abc.Iterable):
-        return tuple([hashable(item) for item in obj])
-    return TypeError(type(obj))
+    raise TypeError("Not hashable: {}".format(type(obj)))
-- 
2.43.0


From 7d8516851ec590b321bc82e5ac5b4a27a32022bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 74/94] fix: caches on disk relied on hashes, which collide and
 change with the process

---
 dolo/misc/caching.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index d3c288b..15df276 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -54,9 +54,12 @@ class cachedondisk(object):
     def __call__(self, *args, **kargs):
         import pickle
 
-        hh = tuple(hashable(e) for e in args)
-        h2 = hashable(kargs)
-        h = hash((hh, h2))
+        try:
+            h = digest((hashable(args), hashable(kargs)))
+        except Exception:
+            # uncachable -- for instance, passing an object which can't be pickled.
+            # Better to not cache than to blow up entirely.
+            return self.func(*args, **kargs)
         try:
             with open(".cache/{0}.{1}.pickle".format(self.fname, h), "rb") as f:
                 value = pickle.load(f)
@@ -68,10 +71,6 @@ class cachedondisk(object):
                 with open(".cache/{0}.{1}.pickle".format(self.fname, h), "wb") as f:
                     pickle.dump(value, f)
             return value
-        except TypeError:
-            # uncachable -- for instance, passing a list as an argument.
-            # Better to not cache than to blow up entirely.
-            return self.func(*args, **kargs)
 
     def __repr__(self):
         """Return the function's docstring."""
@@ -106,10 +105,7 @@ class DiskDictionary:
         self.directory = directory
 
     def get_filename(self, key):
-        import pickle
-
-        hh = tuple(hashable(k) for k in key)
-        h = hash(hh)
+        h = digest(tuple(hashable(k) for k in key))
         filename = "{0}/{1}.{2}.pickle".format(self.directory, self.funname, h)
         return filename
 
@@ -153,3 +149,16 @@ def hashable(obj):
     if isinstance(obj, collections.abc.Hashable):
         return obj
     raise TypeError("Not hashable: {}".format(type(obj)))
+
+
+def digest(key):
+    """Name for a key, which doesn't depend on the process."""
+    import hashlib
+    import io
+    import pickle
+
+    f = io.BytesIO()
+    pickler = pickle.Pickler(f, protocol=4)
+    pickler.fast = True  # equal keys are pickled the same way
+    pickler.dump(key)
+    return hashlib.sha1(f.getvalue()).hexdigest()
-- 
2.43.0


From 0676e2550dc63c4cee052ed715eca7b5524856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 75/94] fix: DiskDictionary opened pickles as text files

---
 dolo/misc/caching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/caching.py b/dolo/misc/caching.py
index 15df276..fd6ea6f 100644
--- a/dolo/misc/caching.py
+++ b/dolo/misc/caching.py
@@ -114,7 +114,7 @@ class DiskDictionary:
 
         filename = self.get_filename(key)
         try:
-            with open(filename, "w") as f:
+            with open(filename, "wb") as f:
                 pickle.dump(value, f)
         except TypeError as e:
             raise e
@@ -124,7 +124,7 @@ class DiskDictionary:
 
         filename = self.get_filename(item)
         try:
-            with open(filename) as f:
+            with open(filename, "rb") as f:
                 value = pickle.load(f)
                 return value
         except:
-- 
2.43.0


From d9206d62d331bb4465328680ae775c1bfd4194de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 76/94] fix: set_calibration ignores the symbols which are not
 calibrated in the file

---
 dolo/compiler/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index cbb9c7d..135299e 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -562,7 +562,13 @@ class Model(SymbolicModel):
         if len(pargs) == 1:
             self.set_calibration(**pargs[0])
         self.set_changed()
-        self.data["calibration"].update(kwargs)
+        calibration = self.data["calibration"]
+        for k, v in kwargs.items():
+            new = k not in calibration
+            calibration[k] = v
+            if new:
+                # dolang calls "name" any new key
+                calibration.value[-1][0].value = k
 
     @property
     def calibration(self):
-- 
2.43.0


From a5f278af1309ed667d66ccb1e6a64be2390fabec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 77/94] fix: the file name of an imported model is recorded as
 its name

---
 dolo/compiler/model_import.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/compiler/model_import.py b/dolo/compiler/model_import.py
index 0cd2377..e72e998 100644
--- a/dolo/compiler/model_import.py
+++ b/dolo/compiler/model_import.py
@@ -29,7 +29,11 @@ def yaml_import(fname, check=True, check_only=False):
     # if check_only:
     #     return output
 
+    new = "filename" not in data
     data["filename"] = fname
+    if new:
+        # dolang calls "name" any new key
+        data.value[-1][0].value = "filename"
 
     from dolo.compiler.model import Model
 
-- 
2.43.0


From 6ed72d1d72d9afb8b873d9f9c69cfa404b1bfc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 78/94] fix: file name without its closing quote in the
 description of a model

---
 dolo/compiler/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 135299e..82f4107 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -659,7 +659,7 @@ class Model(SymbolicModel):
         ------
         name: "{name}"
         type: "{type}"
-        file: "{filename}\n""".format(
+        file: "{filename}"\n""".format(
             **self.infos
         )
 
-- 
2.43.0


From 3c897ad34741f1c8ad960024ba07bdc18bae5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 79/94] fix: plot_irfs rejects impulse responses, and single
 panels

---
 dolo/misc/graphs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolo/misc/graphs.py b/dolo/misc/graphs.py
index d87d48b..4dcdb30 100644
--- a/dolo/misc/graphs.py
+++ b/dolo/misc/graphs.py
@@ -36,6 +36,9 @@ def plot_irfs(
         # we have only one series to compare
         sims = [sims]
 
+    # series obtained with `response` are arrays
+    sims = [s if isinstance(s, pd.DataFrame) else s.to_pandas() for s in sims]
+
     if variables is None:
         variables = sims[0].columns
 
@@ -57,9 +60,9 @@ def plot_irfs(
             layout = default_layout[n_v][1]
 
     if line_options is None:
-        line_options = [{}] * n_v
+        line_options = [{}] * len(sims)
 
-    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize)
+    fig, axes = plt.subplots(layout[0], layout[1], figsize=figsize, squeeze=False)
     axes = axes.ravel()
     for i, v in enumerate(variables):
         ax = axes[i]
-- 
2.43.0


From d2d728f0942e0f413d7cf95bbaa887370200a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 80/94] fix: plot_decision_rule uses undefined names

---
 dolo/algos/simulations.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 7583e08..84c8a3a 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -384,12 +384,29 @@ def plot3d(tab, varname):
     return iplot(fig, filename="graph_" + varname)
 
 
-def plot_decision_rule(plot_controls=None, **kwargs):
+def plot_decision_rule(
+    model,
+    dr,
+    state,
+    plot_controls=None,
+    bounds=None,
+    n_steps=100,
+    s0=None,
+    i0=None,
+    m0=None,
+    **kwargs
+):
 
     if isinstance(dr, AlgoResult):
         dr = dr.dr
 
-    df = tabulate(dr, state, bounds=None, n_steps=100, s0=None, i0=None, m0=None)
+    df = tabulate(
+        model, dr, state, bounds=bounds, n_steps=n_steps, s0=s0, i0=i0, m0=m0
+    )
+    values = df[state]
+
+    if plot_controls is None:
+        plot_controls = model.symbols["controls"]
 
     from matplotlib import pyplot
 
-- 
2.43.0


From 114f913d29d6031be4b707c4cda05acccc48d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 81/94] fix: default parameters of LogNormal are swapped

---
 dolo/numeric/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index ccd9ff6..cbe38d0 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -494,7 +494,7 @@ class LogNormal(UnivariateContinuousDistribution):
     signature = {"μ": "Optional[float]", "σ": "float"}  # this is redundant for now
 
     @greek_tolerance
-    def __init__(self, σ: float = 0.0, μ: float = 1.0):
+    def __init__(self, σ: float = 1.0, μ: float = 0.0):
         self.σ = float(σ)
         self.μ = float(μ)
 
-- 
2.43.0


From 16d81bcb7ac77c1d517aea0563bda9b9cf30d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 82/94] fix: rules found by value iteration do not carry the
 exogenous process

---
 dolo/algos/value_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index d4ca696..3c63df6 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -185,7 +185,7 @@ def value_iteration(
 
     itprint.print_finished()
 
-    mdr = DecisionRule(exo_grid, endo_grid)
+    mdr = DecisionRule(exo_grid, endo_grid, dprocess=dprocess)
 
     mdr.set_values(controls)
     mdrv.set_values(values_0)
-- 
2.43.0


From 92bf8db0653854fa4a0f7b1f915a284f5bfa7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 83/94] fix: tabulate fails for rules which do not carry an
 exogenous process

---
 dolo/algos/simulations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dolo/algos/simulations.py b/dolo/algos/simulations.py
index 84c8a3a..012a310 100644
--- a/dolo/algos/simulations.py
+++ b/dolo/algos/simulations.py
@@ -277,9 +277,8 @@ def tabulate(
     svec = numpy.row_stack([s0] * n_steps)
     svec[:, index] = values
 
-    try:
-        dp = dr.dprocess
-    except:
+    dp = getattr(dr, "dprocess", None)
+    if dp is None:
         dp = model.exogenous.discretize()
 
     if (i0 is None) and (m0 is None):
-- 
2.43.0


From bec2c2baffd3e69bc8e6da5516b53a6ccebb4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 84/94] fix: type of the grid can't be given by
 options:grid:type

The tag of a mapping without tag is 'tag:yaml.org,2002:map', which was taken
for the (unknown) type of the grid. A model without grid failed with an
AttributeError instead of reporting the missing geometry.
---
 dolo/compiler/model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 82f4107..58dc54a 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -470,12 +470,15 @@ class SymbolicModel:
 
 
 def get_type(d):
+    # implicit tags look like "tag:yaml.org,2002:map"
+    if d is None:
+        return None
+    if d.tag.startswith("!"):
+        return d.tag.strip("!")
     try:
-        s = d.tag
-        return s.strip("!")
-    except:
-        v = d.get("type")
-        return v
+        return d.get("type").value
+    except AttributeError:
+        return None
 
 
 def get_address(data, address, default=None):
-- 
2.43.0


From 255dcc74de4009b2fe889926222020b2356ec8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 85/94] fix: files with http in their path are taken for urls

---
 dolo/misc/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/misc/display.py b/dolo/misc/display.py
index 16cf377..24e5a30 100644
--- a/dolo/misc/display.py
+++ b/dolo/misc/display.py
@@ -5,7 +5,7 @@ is_python_3 = sys.version_info >= (3, 0)
 
 def read_file_or_url(url):
 
-    if "http" in url:
+    if url.startswith(("http://", "https://")):
         if is_python_3:
             import urllib.request
 
-- 
2.43.0


From 9e987ead6b56c3270aa2d3497cd59581a1c387c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 86/94] fix: domain given by the bounds of the grid
 (options:grid:a, b) is refused

The domain was built as a dictionary, which can't be evaluated as yaml data.
Bounds are now evaluated with the calibration, like those of the domain.
---
 dolo/compiler/model.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 58dc54a..37d2900 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -349,15 +349,25 @@ class SymbolicModel:
         calibration = self.get_calibration()
         states = self.symbols["states"]
 
-        sdomain = self.data.get("domain", {})
+        from dolo.compiler.objects import CartesianDomain
+        from dolang.language import eval_data
+
+        if "domain" in self.data:
+            sdomain = eval_data(self.data["domain"], calibration)
+        else:
+            sdomain = {}
 
         # backward compatibility
         if len(sdomain) == 0 and len(states) > 0:
             try:
                 import warnings
 
-                min = get_address(self.data, ["options:grid:a", "options:grid:min"])
-                max = get_address(self.data, ["options:grid:b", "options:grid:max"])
+                min = get_address(
+                    self.data, ["options:grid:a", "options:grid:min"], None, calibration
+                )
+                max = get_address(
+                    self.data, ["options:grid:b", "options:grid:max"], None, calibration
+                )
                 for i, s in enumerate(states):
                     sdomain[s] = [min[i], max[i]]
                 # shall we raise a warning for deprecated syntax ?
@@ -373,11 +383,6 @@ class SymbolicModel:
                 "Missing domain for states: {}.".format(str.join(", ", missing))
             )
 
-        from dolo.compiler.objects import CartesianDomain
-        from dolang.language import eval_data
-
-        sdomain = eval_data(sdomain, calibration)
-
         # bounds are listed in the order of the states
         domain = CartesianDomain(**{s: sdomain[s] for s in states})
 
@@ -481,10 +486,10 @@ def get_type(d):
         return None
 
 
-def get_address(data, address, default=None):
+def get_address(data, address, default=None, calibration={}):
 
     if isinstance(address, list):
-        found = [get_address(data, e, None) for e in address]
+        found = [get_address(data, e, None, calibration) for e in address]
         found = [f for f in found if f is not None]
         if len(found) > 0:
             return found[0]
@@ -496,7 +501,7 @@ def get_address(data, address, default=None):
         fields = fields[1:]
         if data is None:
             return default
-    return eval_data(data)
+    return eval_data(data, calibration)
 
 
 import re
-- 
2.43.0


From 29295bb7da1122d420120574de94eee820049067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 87/94] fix: exogenous processes can't be given as a list

---
 dolo/compiler/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 37d2900..1edc92d 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -404,7 +404,7 @@ class SymbolicModel:
         if isinstance(exogenous, Process):
             # old style
             return exogenous
-        elif isinstance(exo, list):
+        elif isinstance(exogenous, list):
             # old style (2)
             return ProductProcess(*exogenous)
         else:
-- 
2.43.0


From 3b5cb0a608665957c36e84f3f1baee3fe4459b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 88/94] fix: misordered shocks are reported by an unrelated
 error

---
 dolo/compiler/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolo/compiler/model.py b/dolo/compiler/model.py
index 1edc92d..423f5fc 100644
--- a/dolo/compiler/model.py
+++ b/dolo/compiler/model.py
@@ -419,9 +419,9 @@ class SymbolicModel:
             if tuple(syms) != ssyms:
                 from dolang.language import ModelError
 
-                lc = exo.lc
+                lc = exo.start_mark
                 raise ModelError(
-                    f"{lc.line}:{lc.col}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
+                    f"{lc.line}:{lc.column}: 'exogenous' section. Shocks specification must match declaration order. Found {ssyms}. Expected{tuple(syms)}"
                 )
 
             return ProductProcess(*exogenous.values())
-- 
2.43.0


From fb917b2195532dd70e7e29bc01d245ab8b2c8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 89/94] fix: numdiff2 indexes its result with a list

---
 dolo/numeric/serial_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolo/numeric/serial_operations.py b/dolo/numeric/serial_operations.py
index a40a25f..4fbee49 100644
--- a/dolo/numeric/serial_operations.py
+++ b/dolo/numeric/serial_operations.py
@@ -57,7 +57,7 @@ def numdiff2(f, x0, dv=1e-8):
         x2[ind] -= dv
         df = (f(x) - f(x2)) / dv / 2.0
         obj = [Ellipsis] + list(ind) + [slice(None, None, None)]
-        # obj = tuple(obj)
+        obj = tuple(obj)
         ret[obj] = df
 
     return ret
-- 
2.43.0


From ecb967378c5a697a2231ef493a340f3a2ba8ea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:59 +0000
Subject: [PATCH 90/94] fix: symbols named out0, out1... are confused with the
 outputs of functions

---
 dolo/compiler/factories.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolo/compiler/factories.py b/dolo/compiler/factories.py
index 77de480..2874bbd 100644
--- a/dolo/compiler/factories.py
+++ b/dolo/compiler/factories.py
@@ -106,7 +106,11 @@ def get_factory(model, eq_type: str, tshift: int = 0):
         eqs = [
             ("({1})-({0})".format(*eq.split("=")) if "=" in eq else eq) for eq in eqs
         ]
-        targets = [("out{}".format(i), 0) for i in range(len(eqs))]
+        # names of the outputs must differ from the symbols of the model
+        out = "out"
+        while any(s.startswith(out) for sg in model.symbols.values() for s in sg):
+            out += "_"
+        targets = [("{}{}".format(out, i), 0) for i in range(len(eqs))]
 
     eqs = [str.strip(eq) for eq in eqs]
 
-- 
2.43.0


From f29ca2ec1f2a9db0d061eac3369f95bf661af986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 91/94] fix: constant rules could not be evaluated (no
 eval_ijs)

---
 dolo/numeric/decision_rule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/decision_rule.py b/dolo/numeric/decision_rule.py
index 870db75..22e514f 100644
--- a/dolo/numeric/decision_rule.py
+++ b/dolo/numeric/decision_rule.py
@@ -455,6 +455,9 @@ class ConstantDecisionRule(CallableDecisionRule):
     def eval_ms(self, m, s):
         return self.eval_s(s)
 
+    def eval_ijs(self, i, j, s):
+        return self.eval_s(s)
+
 
 import dolang
 import dolang.symbolic
-- 
2.43.0


From e3ecd238a3097254141c9d3fdfe5f22e04c9a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:24 +0000
Subject: [PATCH 92/94] fix: policies given as arrays of values could not be
 evaluated

---
 dolo/algos/value_iteration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolo/algos/value_iteration.py b/dolo/algos/value_iteration.py
index 3c63df6..95398d3 100644
--- a/dolo/algos/value_iteration.py
+++ b/dolo/algos/value_iteration.py
@@ -288,6 +288,10 @@ def evaluate_policy(
 
     if isinstance(mdr, np.ndarray):
         controls = mdr
+        mdr = DecisionRule(
+            exo_grid, endo_grid, dprocess=dprocess, interp_method=interp_method
+        )
+        mdr.set_values(controls)
     else:
         controls = np.zeros((n_ms, N, n_x))
         for i_m in range(n_ms):
-- 
2.43.0


From 87568e7b31200e65001ccd80c9a1e0c601f81c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:20 +0000
Subject: [PATCH 93/94] fix: responses and deterministic paths of iid processes
 ignored their mean

---
 dolo/numeric/distribution.py | 23 +++++++++++++++++++++++
 dolo/numeric/processes.py    | 13 ++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/dolo/numeric/distribution.py b/dolo/numeric/distribution.py
index cbe38d0..1b5641e 100644
--- a/dolo/numeric/distribution.py
+++ b/dolo/numeric/distribution.py
@@ -341,6 +341,11 @@ class UnivariateContinuousDistribution(ContinuousDistribution):
             f"Not Implemented (yet). Should be implemented by subclass {self.__class__}"
         )
 
+    def mean(self) -> Vector:
+        import scipy.integrate
+
+        return np.array([scipy.integrate.quad(self.ppf, 0, 1)[0]])
+
     def discretize(self, to="iid", N=5, method="equiprobable", mass_point="median"):
         """
         Returns a discretized version of this process.
@@ -421,6 +426,9 @@ class UNormal(UnivariateContinuousDistribution):
         p = norm.cdf(x, loc=self.μ, scale=self.σ)
         return p
 
+    def mean(self) -> Vector:
+        return np.array([self.μ])
+
     def draw(self, N):
 
         from numpy.random import multivariate_normal
@@ -584,6 +592,9 @@ class Normal(ContinuousDistribution):
 
         self._dist_ = scipy.stats.multivariate_normal(mean=self.Μ, cov=self.Σ)
 
+    def mean(self) -> Vector:
+        return self.Μ
+
     def draw(self, N: int) -> Matrix:
 
         res = self._dist_.rvs(size=N)
@@ -644,6 +655,10 @@ class ProductDistribution(ContinuousDistribution):
         fids = [dis.discretize(to=to) for dis in self.distributions]
         return product_iid(fids)
 
+    def mean(self) -> Vector:
+
+        return np.concatenate([dis.mean() for dis in self.distributions])
+
     def draw(self, N: int) -> Matrix:
 
         return np.concatenate([dis.draw(N) for dis in self.distributions], axis=1)
@@ -755,6 +770,14 @@ class Mixture(ContinuousDistribution):
         else:
             raise Exception("Not implemented.")
 
+    def mean(self) -> Vector:
+
+        # distributions are indexed by the values of the index
+        return sum(
+            w * self.distributions[str(int(x[0]))].mean()
+            for (w, x) in self.index.discretize(to="iid").items()
+        )
+
     def draw(self, N: int) -> Matrix:
 
         # naive and overkill algorithm
diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index cbfc172..e598089 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -95,9 +95,13 @@ class IIDProcess(Process):
     def draw(self, n: int) -> Vector:
         raise Exception("Not Implemented")
 
+    def mean(self) -> Vector:
+        dist = self.discretize(to="iid")
+        return sum(w * x for (w, x) in dist.items())
+
     def response(self, T, impulse) -> DataArray:
-        irf = numpy.zeros((T + 1, self.d))
-        irf[1, :] = impulse[None, :]
+        irf = numpy.zeros((T + 1, self.d)) + self.mean()
+        irf[1, :] += impulse
         coords = {"T": range(T + 1), "V": list(self.names)}
         xar = DataArray(irf, dims=coords.keys(), coords=coords)
         return xar
@@ -105,7 +109,10 @@ class IIDProcess(Process):
     def simulate(
         self, N: int = 10, T: int = 100, i0=None, m0=None, stochastic=True
     ) -> DataArray:
-        sim = self.draw((T) * N).reshape((T, N, -1))
+        if stochastic:
+            sim = self.draw((T) * N).reshape((T, N, -1))
+        else:
+            sim = numpy.zeros((T, N, self.d)) + self.mean()
         coords = {"T": range(T), "N": range(N), "V": list(self.names)}
         xar = DataArray(sim, dims=coords.keys(), coords=coords)
         return xar
-- 
2.43.0


From 0207b084da1bc55a1ba057927a2843b2c797d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:20 +0000
Subject: [PATCH 94/94] fix: constant processes could not be simulated

---
 dolo/numeric/processes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolo/numeric/processes.py b/dolo/numeric/processes.py
index e598089..7747338 100644
--- a/dolo/numeric/processes.py
+++ b/dolo/numeric/processes.py
@@ -132,6 +132,9 @@ class ConstantProcess(IIDProcess):
         assert self.μ.ndim == 1
         self.d = len(self.μ)
 
+    def draw(self, n: int) -> Vector:
+        return self.μ[None, :].repeat(n, axis=0)
+
     def discretize(self, to=None, **kwargs):
 
         if to == "iid":
-- 
2.43.0

