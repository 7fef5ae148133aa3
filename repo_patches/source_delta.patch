From b29c1c48e5d10d1a6415d340b866b5c551a1adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 01/34] fix: return the feasibility test of the samplers'
 'Reject' constraint

---
 stochopy/sample/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/_common.py b/stochopy/sample/_common.py
index 79ab58a..f841e1a 100644
--- a/stochopy/sample/_common.py
+++ b/stochopy/sample/_common.py
@@ -4,6 +4,6 @@ import numpy as np
 def in_search_space(x, lower, upper, constraints):
     """Determine feasibility of a sample."""
     if constraints == "Reject":
-        np.logical_and(np.all(x >= lower), np.all(x <= upper))
+        return np.logical_and(np.all(x >= lower), np.all(x <= upper))
     else:
         return True
-- 
2.43.0


From 065eabc5362b90460a35fb76ff3fa3b484921156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 02/34] fix: count the initial sample when tracking the
 samplers' best sample

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 82199ac..42d4d26 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -140,7 +140,7 @@ def sample(
 
     # Leap-frog algorithm
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     for i in range(1, maxiter):
         q = xall[i - 1].copy()
         p = np.random.randn(ndim)  # Random momentum
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index cd47e83..5fc5389 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -119,7 +119,7 @@ def sample(
     # Metropolis-Hastings algorithm
     i = 1
     n_accepted = 0
-    imin, fmin = 0, np.Inf
+    imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
             jmax = min(ndim, j + ndim_per_iter - 1)
-- 
2.43.0


From 9ab16f6d23e39b33e68c65209f8670593ad6d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 03/34] fix: include the current sample in the history the
 samplers pass to callback

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 42d4d26..1b52155 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -182,7 +182,7 @@ def sample(
                 accept_ratio=n_accepted / (i + 1),
             )
             if return_all:
-                res.update({"xall": xall[:i], "funall": funall[:i]})
+                res.update({"xall": xall[: i + 1], "funall": funall[: i + 1]})
 
             callback(xall[i], res)
 
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 5fc5389..34fb4a3 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -151,7 +151,7 @@ def sample(
                     accept_ratio=n_accepted / i,
                 )
                 if return_all:
-                    res.update({"xall": xall[: i - 1], "funall": funall[: i - 1]})
+                    res.update({"xall": xall[:i], "funall": funall[:i]})
 
                 callback(xall[i - 1], res)
 
-- 
2.43.0


From 770a09c235640cc1844361a92fe1555545c2c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 04/34] fix: call the user's jac in HMC instead of recursing
 forever

---
 stochopy/sample/hmc/_hmc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 1b52155..f4ba322 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -112,9 +112,9 @@ def sample(
         raise TypeError()
 
     if jac is None:
-        jac = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
+        grad = lambda x: numerical_gradient(x, fun, args, finite_diff_abs_step)
     else:
-        jac = lambda x: jac(x, *args)
+        grad = lambda x: jac(x, *args)
 
     # Seed
     if seed is not None:
@@ -147,12 +147,12 @@ def sample(
         q0 = q.copy()
         p0 = p.copy()
 
-        p -= 0.5 * stepsize * jac(q)  # First half momentum step
+        p -= 0.5 * stepsize * grad(q)  # First half momentum step
         q += stepsize * p  # First full position step
         for _ in range(nleap):
-            p -= stepsize * jac(q)  # Momentum
+            p -= stepsize * grad(q)  # Momentum
             q += stepsize * p  # Position
-        p -= 0.5 * stepsize * jac(q)  # Last half momentum step
+        p -= 0.5 * stepsize * grad(q)  # Last half momentum step
 
         accept = False
         if in_search_space(q, lower, upper, constraints):
-- 
2.43.0


From a5cafd935a5b8cc2856700d80e735b3977a9fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 05/34] fix: do not scale the caller's stepsize array in place,
 accept integer stepsize

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index f4ba322..7749feb 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 34fb4a3..9b17720 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize *= 0.5 * (upper - lower)
+    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0


From 6285cde962cbd42af6c6fdecbb7dbea8731a5760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 06/34] fix: copy the initial population of DE, PSO and CPSO to
 a float array

x0 was used as the working population: the caller's array was overwritten,
lists failed and integer arrays truncated every candidate.
---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 stochopy/optimize/de/_de.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 4ff9398..089800e 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -216,7 +216,7 @@ def cpso(
         delta = np.log(1.0 + 0.003 * popsize) / np.max((0.2, np.log(0.01 * maxiter)))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     V = np.zeros((popsize, ndim))
     pbest = X.copy()
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index d1185ed..db11acc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -205,7 +205,7 @@ def de(
     de_iter = de_sync if sync else de_async
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     U = np.empty((popsize, ndim))
 
     # Evaluate initial population
-- 
2.43.0


From 2e4c8892e02f6afb6ef4da3cad7f6bb1b0e88b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 07/34] fix: stop immediate DE, PSO and CPSO when the best
 solution reaches ftol

The status of every individual but the last one was discarded, so a run that
had reached ftol went on and could end as a failure.
---
 stochopy/optimize/cpso/_cpso.py | 8 +++++++-
 stochopy/optimize/de/_de.py     | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 089800e..b5d1a38 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -384,6 +384,7 @@ def pso_async(
     """Asynchronous PSO."""
     popsize = len(X)
 
+    status = None
     for i in range(popsize):
         # Mutation
         X[i], V[i] = mutation(
@@ -391,9 +392,14 @@ def pso_async(
         )
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, X, gbest, gfit, pbest, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
+
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index db11acc..39adf94 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -372,6 +372,7 @@ def de_async(
     """Asynchronous DE."""
     popsize, ndim = X.shape
 
+    status = None
     for i in range(popsize):
         # Mutation
         V = mut(delete_shuffle_async(i, popsize), F, X, gbest)
@@ -383,9 +384,14 @@ def de_async(
         U[i] = cons(np.where(np.logical_or(mask, r1[i] <= CR), V, X[i]))
 
         # Selection
-        gbest, gfit, pfit[i], status = selection_async(
+        gbest, gfit, pfit[i], istatus = selection_async(
             it, U, gbest, gfit, X, pbestfit, maxiter, xtol, ftol, fun, i
         )
+        status = istatus if istatus is not None else status
+
+    # Stop if best solution value is less than ftol
+    if status is None and gfit <= ftol:
+        status = 1
 
     # Stop if maximum iteration is reached
     if status is None and it >= maxiter:
-- 
2.43.0


From e101739f0bb979c59afed109726230604c30421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 08/34] fix: do not run a second generation of DE, PSO, CPSO
 and NA when maxiter is 1

---
 stochopy/optimize/cpso/_cpso.py | 3 ++-
 stochopy/optimize/de/_de.py     | 3 ++-
 stochopy/optimize/na/_na.py     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index b5d1a38..ba735f7 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,8 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 39adf94..2ab7fbc 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -243,7 +243,8 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 97b1bdc..7004c60 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,8 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    converged = False
+    status = -1 if it >= maxiter else None
+    converged = status is not None
     while not converged:
         it += 1
 
-- 
2.43.0


From fab20678d11631ec226a3cfbc6ca2a17965944ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 09/34] fix: store the first population of NA in original units
 in xall

---
 stochopy/optimize/na/_na.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 7004c60..0f0ff0c 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -190,13 +190,13 @@ def na(
         if nout > 0:
             xall = np.empty((maxiter, nout, ndim))
             funall = np.empty((maxiter, nout))
-            xall[0] = X[:nout].copy()
+            xall[0] = unnormalize(X[:nout])
             funall[0] = pfit[:nout].copy()
 
         else:
             xall = np.empty((maxiter, 1, ndim))
             funall = np.empty((maxiter, 1))
-            xall[0] = gbest
+            xall[0] = unnormalize(gbest)
             funall[0] = gfit
 
     # First iteration for callback
-- 
2.43.0


From b5a03bd42dbaac66810632fe465298f3a6b45dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 10/34] fix: make callback optional in na, as in the other
 optimizers

---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 0f0ff0c..9dde7e8 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -23,7 +23,7 @@ def minimize(
     backend=None,
     return_all=False,
     verbosity=1.0,
-    callback=True,
+    callback=None,
 ):
     """
     Minimize an objective function using Neighborhood Algorithm (NA).
-- 
2.43.0


From 1706db19cf54f42b2d3a76e3d94cefe1b9f4cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 11/34] fix: store in DE's funall the values of the population
 stored in xall

xall holds the surviving population while funall held the values of the trial
vectors, including those that were rejected.
---
 stochopy/optimize/de/_de.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 2ab7fbc..993e1fe 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -271,12 +271,12 @@ def de(
         if return_all:
             if nout > 0:
                 xall[it - 1] = X[:nout].copy()
-                funall[it - 1] = pfit[:nout].copy()
+                funall[it - 1] = pbestfit[:nout].copy()
 
             else:
-                idx = pfit.argmin()
+                idx = pbestfit.argmin()
                 xall[it - 1] = X[idx].copy()
-                funall[it - 1] = pfit[idx].copy()
+                funall[it - 1] = pbestfit[idx].copy()
 
         converged = status is not None
 
-- 
2.43.0


From d5762d3e79c1dda38bf98f8d993cfec7d6220417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 12/34] fix: store objective function values as floats

When all initial values were integers the fitness arrays were integer arrays:
later values were truncated, CPSO's 1e30 overflowed and Penalize failed.
---
 stochopy/optimize/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d81155e..b159a4e 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -40,7 +40,7 @@ def optimizer(optfun):
 
                         def wrapper(x):
                             f = parallel(fun(xx, *args) for xx in x)
-                            return np.array(f)
+                            return np.array(f, dtype=float)
 
                     elif backend == "mpi":
                         try:
@@ -77,13 +77,13 @@ def optimizer(optfun):
                 else:
 
                     def wrapper(x):
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
 
             else:
 
                 def wrapper(x):
                     if x.ndim == 2:
-                        return np.array([fun(xx, *args) for xx in x])
+                        return np.array([fun(xx, *args) for xx in x], dtype=float)
                     else:
                         return fun(x, *args)
 
-- 
2.43.0


From f71d4c4634ede2e4e7db79d4444814821f3ab176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 13/34] fix: clip the mean at the lower bounds too in the
 Penalize constraint

---
 stochopy/optimize/cmaes/_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_constraints.py b/stochopy/optimize/cmaes/_constraints.py
index 0009593..3178d5d 100644
--- a/stochopy/optimize/cmaes/_constraints.py
+++ b/stochopy/optimize/cmaes/_constraints.py
@@ -51,7 +51,7 @@ def Penalize(
     # Corrected mean
     ti = np.logical_or(xmean < -ones, xmean > ones)
     tx = np.where(xmean < -ones, -ones, xmean)
-    tx = np.where(xmean > ones, ones, xmean)
+    tx = np.where(xmean > ones, ones, tx)
 
     # Set initial weights
     if iniphase and ti.any():
-- 
2.43.0


From a2f9f945e752542dd82233400f188346823e6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 14/34] fix: keep at least one parent in CMA-ES and VD-CMA

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 00f1e15..fde98d4 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 032d32c..03b66d9 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -182,7 +182,7 @@ def vdcma(
     xold = np.empty(ndim)
 
     # Number of parents
-    mu = int(muperc * popsize)
+    mu = max(1, int(muperc * popsize))
 
     # Strategy parameter setting: Selection
     weights = np.log(mu + 0.5) - np.log(np.arange(1, mu + 1))
-- 
2.43.0


From 4cc31f2950e1b499ba01e6edf0886dd9ba779cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 15/34] fix: ignore generations still to come in EqualFunValues
 and TolFun

The history of best values is filled with zeros beyond the current generation:
with them a flat objective function stopped the run only if it was near zero.
---
 stochopy/optimize/cmaes/_cmaes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index fde98d4..e4e6dee 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -408,8 +408,8 @@ def converge(
     # EqualFunValues: stop if the range of fitness values is zero
     elif (
         it >= ilim
-        and arbestfitness[it - ilim : it + 1].max()
-        - arbestfitness[it - ilim : it + 1].min()
+        and arbestfitness[it - ilim : it].max()
+        - arbestfitness[it - ilim : it].min()
         < 1.0e-10
     ):
         status = -5
@@ -421,8 +421,8 @@ def converge(
     # TolFun: stop if fun-changes smaller than 1e-12
     elif (
         it > 2
-        and np.append(arfitness, arbestfitness).max()
-        - np.append(arfitness, arbestfitness).min()
+        and np.append(arfitness, arbestfitness[:it]).max()
+        - np.append(arfitness, arbestfitness[:it]).min()
         < 1.0e-12
     ):
         status = -7
-- 
2.43.0


From 5e9558f08515d88d396131b142c325ce784cbb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 16/34] fix: reject unknown backends instead of running
 serially

---
 stochopy/optimize/_common.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index b159a4e..d5216db 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -71,9 +71,6 @@ def optimizer(optfun):
 
                             return f
 
-                    else:
-                        raise ValueError(f"unknown backend '{backend}'")
-
                 else:
 
                     def wrapper(x):
@@ -90,6 +87,8 @@ def optimizer(optfun):
             return wrapper
 
         backend = backend if backend else "threading"
+        if backend not in prefer and backend != "mpi":
+            raise ValueError(f"unknown backend '{backend}'")
 
         if backend in prefer and workers not in {0, 1}:
             with Parallel(n_jobs=workers, prefer=prefer[backend]) as parallel:
-- 
2.43.0


From 27449a4a023ffab02148508e05f4cbe948e5d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 17/34] fix: give restarted particles of CPSO an infinite
 personal best value

With 1e30, objective values above 1e30 made the restarted position the best
solution although it had not been evaluated.
---
 stochopy/optimize/cpso/_cpso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index ba735f7..1614b5b 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -428,7 +428,7 @@ def restart(it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxite
             V[idx] = np.zeros((nw, ndim))
             X[idx] = np.random.uniform(lower, upper, (nw, ndim))
             pbest[idx] = X[idx].copy()
-            pbestfit[idx] = np.full(nw, 1.0e30)
+            pbestfit[idx] = np.full(nw, np.inf)
 
     return X, V, pbest, pbestfit
 
-- 
2.43.0


From 62bcd759bad5d6825aa33e1cb63d34c89a0e2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 18/34] fix: give fixed variables the same normalized value in
 all of NA's models

The initial models held the bound and the later ones 0, and the difference
entered the distances that define the Voronoi cells.
---
 stochopy/optimize/na/_na.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 9dde7e8..2145c40 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -157,7 +157,7 @@ def na(
     span = upper - lower
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
-    normalize = lambda x: np.where(span_mask, (x - lower) / span, upper)
+    normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
     unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
 
     fun = lambda x: funnorm(unnormalize(x))
-- 
2.43.0


From e070d1bf5bf4a842de21fdd9a4e2963315b99154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 19/34] fix: share the random state of the root process with
 all MPI processes

Without a seed each process drew its own random numbers: NA, CMA-ES and VD-CMA
returned solutions that do not match their function values on all processes
but the root, and could wait forever for processes that had converged.
---
 stochopy/optimize/_common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index d5216db..f38ef76 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -55,6 +55,11 @@ def optimizer(optfun):
                         mpi_size = mpi_comm.Get_size()
                         mpi_double = MPI.DOUBLE
 
+                        # All processes must draw the same random numbers
+                        np.random.set_state(
+                            mpi_comm.bcast(np.random.get_state(), root=0)
+                        )
+
                         def wrapper(x):
                             popsize = len(x)
                             f = np.zeros(popsize)
-- 
2.43.0


From b140bc4ad5fa60d80e01e058083d16f85b74e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 20/34] fix: reject DE populations too small for the strategy

---
 stochopy/optimize/de/_de.py       | 5 ++++-
 stochopy/optimize/de/_strategy.py | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 993e1fe..5a41e56 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -3,7 +3,7 @@ import numpy as np
 from .._common import lhs, messages, optimizer, selection_async, selection_sync
 from .._helpers import OptimizeResult, register
 from ._constraints import _constraints_map
-from ._strategy import _strategy_map
+from ._strategy import _min_popsize, _strategy_map
 
 __all__ = [
     "minimize",
@@ -139,6 +139,9 @@ def minimize(
     CR = recombination
     mut = _strategy_map[strategy]
 
+    if popsize < _min_popsize[strategy]:
+        raise ValueError()
+
     # Synchronize
     sync = updating == "deferred"
     sync = sync or workers not in {0, 1}
diff --git a/stochopy/optimize/de/_strategy.py b/stochopy/optimize/de/_strategy.py
index ff95f5a..c4cf1a5 100644
--- a/stochopy/optimize/de/_strategy.py
+++ b/stochopy/optimize/de/_strategy.py
@@ -38,6 +38,14 @@ def best2bin(i, F, X, gbest):
     return gbest + F * (X[i[0]] + X[i[1]] - X[i[2]] - X[i[3]])
 
 
+# Minimum population size: the current solution and the vectors drawn by the strategy
+_min_popsize = {
+    "rand1bin": 4,
+    "rand2bin": 6,
+    "best1bin": 3,
+    "best2bin": 5,
+}
+
 _strategy_map = {
     "rand1bin": rand1bin,
     "rand2bin": rand2bin,
-- 
2.43.0


From 668e92f6f81e7ccffe4cdcfc8d5a3cc9f36b51a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 21/34] fix: reject VD-CMA populations of less than two
 individuals

---
 stochopy/optimize/vdcma/_vdcma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 03b66d9..21572bc 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -106,6 +106,10 @@ def minimize(
         if np.ndim(x0) != 1 or len(x0) != len(bounds):
             raise ValueError()
 
+    # Population size
+    if popsize < 2:
+        raise ValueError()
+
     # VDCMA parameters
     if sigma <= 0.0:
         raise ValueError()
-- 
2.43.0


From a90d3230237513d1c2ba2b22785d1301e7fac59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 22/34] fix: reject unknown constraints in the samplers instead
 of ignoring them

---
 stochopy/sample/hmc/_hmc.py   | 4 ++++
 stochopy/sample/mcmc/_mcmc.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 7749feb..ede34ba 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -116,6 +116,10 @@ def sample(
     else:
         grad = lambda x: jac(x, *args)
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 9b17720..575564b 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -94,6 +94,10 @@ def sample(
 
     ndim_per_iter = max(1, int(perc * ndim))
 
+    # Constraints
+    if constraints not in {None, "Reject"}:
+        raise ValueError()
+
     # Seed
     if seed is not None:
         np.random.seed(seed)
-- 
2.43.0


From 779fed944d420a0053ff8a438a1ef27cfc11e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 23/34] fix: report success of DE, PSO, CPSO and NA when
 maxiter is 1 and ftol is reached

---
 stochopy/optimize/cpso/_cpso.py | 5 ++++-
 stochopy/optimize/de/_de.py     | 5 ++++-
 stochopy/optimize/na/_na.py     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 1614b5b..5d74805 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -255,7 +255,10 @@ def cpso(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    status = -1 if it >= maxiter else None
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+
     converged = status is not None
     while not converged:
         it += 1
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 5a41e56..06aff46 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -246,7 +246,10 @@ def de(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    status = -1 if it >= maxiter else None
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+
     converged = status is not None
     while not converged:
         it += 1
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 2145c40..8e8144d 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -209,7 +209,10 @@ def na(
 
     # Iterate until one of the termination criterion is satisfied
     it = 1
-    status = -1 if it >= maxiter else None
+    status = None
+    if it >= maxiter:
+        status = 1 if gfit <= ftol else -1
+
     converged = status is not None
     while not converged:
         it += 1
-- 
2.43.0


From 0b5ebbe14ae4262fc6e1d4df3cc91aa05ccec983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 24/34] fix: do not perturb beyond the last variable in mcmc
 when perc does not divide ndim

---
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 575564b..763c0c5 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -126,7 +126,7 @@ def sample(
     imin, fmin = 0, funall[0]
     while i < maxiter:
         for j in np.arange(0, ndim, ndim_per_iter):
-            jmax = min(ndim, j + ndim_per_iter - 1)
+            jmax = min(ndim - 1, j + ndim_per_iter - 1)
             perturbation = np.random.randn(jmax - j + 1) * stepsize[j : jmax + 1]
 
             xall[i] = xall[i - 1].copy()
-- 
2.43.0


From f180c42bfbbc87f0503d66260c91b221efbf7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 25/34] fix: do not return NaN from PSO's Shrink constraint
 when a particle does not move

---
 stochopy/optimize/cpso/_constraints.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stochopy/optimize/cpso/_constraints.py b/stochopy/optimize/cpso/_constraints.py
index 7f43cbc..27167bc 100644
--- a/stochopy/optimize/cpso/_constraints.py
+++ b/stochopy/optimize/cpso/_constraints.py
@@ -43,25 +43,25 @@ def Shrink(lower, upper, sync):
 
         def cons(X, V):
             Xcand = X + V
-            maskl = Xcand < lower
-            masku = Xcand > upper
+            maskl = np.logical_and(Xcand < lower, V != 0.0)
+            masku = np.logical_and(Xcand > upper, V != 0.0)
             beta = np.array(
                 [shrink(x, v, ml, mu) for x, v, ml, mu in zip(X, V, maskl, masku)]
             )
             V *= beta[:, None]
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     else:
 
         def cons(X, V):
             Xcand = X + V
-            maskl = Xcand < lower
-            masku = Xcand > upper
+            maskl = np.logical_and(Xcand < lower, V != 0.0)
+            masku = np.logical_and(Xcand > upper, V != 0.0)
             beta = shrink(X, V, maskl, masku)
             V *= beta
 
-            return X + V, V
+            return np.clip(X + V, lower, upper), V
 
     return cons
 
-- 
2.43.0


From b5f17cf2119cf9886dc7d0d55c7fb2c1bf46b7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 26/34] fix: account for fixed variables in NA's distances to
 the other models

---
 stochopy/optimize/na/_na.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 8e8144d..c65c9d9 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -287,20 +287,20 @@ def mutation(Xall, Xallfit, popsize, ndim, nr, span_mask):
         d2 = ((U[:, 1:] - X[i, 1:]) ** 2).sum(axis=1)
 
         for j in range(ndim):
-            if not span_mask[j]:
-                # Value does not matter as it will be fixed by unnormalize
-                X[i, j] = 0.0
-                continue
+            if span_mask[j]:
+                lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
 
-            lim = 0.5 * (Xall[k, j] + U[:, j] + (d1 - d2) / (Xall[k, j] - U[:, j]))
+                idx = lim <= X[i, j]
+                low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
 
-            idx = lim <= X[i, j]
-            low = max(lim[idx].max(), 0.0) if idx.sum() else 0.0
+                idx = lim >= X[i, j]
+                high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
 
-            idx = lim >= X[i, j]
-            high = min(lim[idx].min(), 1.0) if idx.sum() else 1.0
+                X[i, j] = np.random.uniform(low, high)
 
-            X[i, j] = np.random.uniform(low, high)
+            else:
+                # Value does not matter as it will be fixed by unnormalize
+                X[i, j] = 0.0
 
             if j < ndim - 1:
                 d1 += (Xall[k, j] - X[i, j]) ** 2 - (Xall[k, j + 1] - X[i, j + 1]) ** 2
-- 
2.43.0


From 2ba47c29834ccbfb74075a8274c952797a841e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 27/34] fix: compute the benchmark functions in floating point

Integer input overflowed silently: sphere([2**40]) was 0 and
quartic([100000]) was wrong.
---
 stochopy/factory/benchmark.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stochopy/factory/benchmark.py b/stochopy/factory/benchmark.py
index b39cd52..daa6530 100644
--- a/stochopy/factory/benchmark.py
+++ b/stochopy/factory/benchmark.py
@@ -26,7 +26,7 @@ def ackley(x):
         The value of the Ackley function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     e = 2.7182818284590451
     sum1 = np.sqrt(1.0 / ndim * np.square(x).sum())
@@ -49,7 +49,7 @@ def griewank(x):
         The value of the Griewank function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = np.square(x).sum() / 4000.0
     prod1 = np.prod(np.cos(x / np.sqrt(np.arange(1, ndim + 1))))
@@ -71,7 +71,7 @@ def quartic(x):
         The value of the Quartic function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     return (np.arange(1, ndim + 1) * np.power(x, 4)).sum()
 
@@ -91,7 +91,7 @@ def rastrigin(x):
         The value of the Rastrigin function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     ndim = x.size
     sum1 = (np.square(x) - 10.0 * np.cos(2.0 * np.pi * x)).sum()
     return 10.0 * ndim + sum1
@@ -112,7 +112,7 @@ def rosenbrock(x):
         The value of the Rosenbrock function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = ((x[1:] - x[:-1] ** 2) ** 2).sum()
     sum2 = np.square(1.0 - x[:-1]).sum()
     return 100.0 * sum1 + sum2
@@ -133,6 +133,7 @@ def sphere(x):
         The value of the Sphere function.
 
     """
+    x = np.asarray(x, dtype=float)
     return np.square(x).sum()
 
 
@@ -151,6 +152,6 @@ def styblinski_tang(x):
         The value of the Styblinski-Tang function.
 
     """
-    x = np.asarray(x)
+    x = np.asarray(x, dtype=float)
     sum1 = (np.power(x, 4) - 16.0 * np.square(x) + 5.0 * x).sum()
     return 0.5 * sum1 + 39.16599 * x.size
-- 
2.43.0


From 57d2560756b1280c829dd77b0a5419879e4e622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 28/34] fix: hmc uses objective values as floats

Differences of unsigned or small integers wrapped in the gradient and in
the acceptance test.
---
 stochopy/sample/hmc/_hmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index ede34ba..9582705 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -211,7 +211,8 @@ def count(fun):
     def wrapper(*args, **kwargs):
         wrapper.nfev += 1
 
-        return fun(*args, **kwargs)
+        # Differences of unsigned integers would wrap
+        return float(fun(*args, **kwargs))
 
     wrapper.nfev = 0
 
-- 
2.43.0


From 9dee6e47cd70d9099225af543ac29847c1d4ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 29/34] fix: keep clipped solutions inside of the bounds
 despite rounding

The conversion of normalized coordinates +-1 (cmaes and vdcma with 'Penalize')
and 1 (na, initial guess on an upper bound) to original units could give a
value beyond the bound by a rounding error.
---
 stochopy/optimize/cmaes/_cmaes.py | 3 +++
 stochopy/optimize/na/_na.py       | 6 +++++-
 stochopy/optimize/vdcma/_vdcma.py | 3 +++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index e4e6dee..bbf50bf 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -176,6 +176,9 @@ def cmaes(
     if constraints is not None:
         cons = _constraints_map[constraints]
 
+        # Rounding errors must not move clipped solutions out of the bounds
+        unstandardize = lambda x: np.clip(x * xstd + xm, lower, upper)
+
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
     xold = np.empty(ndim)
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index c65c9d9..974de77 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -158,7 +158,11 @@ def na(
     span_mask = span > 0.0
     span[~span_mask] = 1.0  # Avoid zero division in normalize
     normalize = lambda x: np.where(span_mask, (x - lower) / span, 0.0)
-    unnormalize = lambda x: np.where(span_mask, x * span + lower, upper)
+    unnormalize = lambda x: np.where(
+        np.logical_and(span_mask, x != 1.0),  # Upper bound is exact
+        x * span + lower,
+        upper,
+    )
 
     fun = lambda x: funnorm(unnormalize(x))
 
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 21572bc..917c8a4 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -181,6 +181,9 @@ def vdcma(
     if constraints is not None:
         cons = _constraints_map[constraints]
 
+        # Rounding errors must not move clipped solutions out of the bounds
+        unstandardize = lambda x: np.clip(x * xstd + xm, lower, upper)
+
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
     xold = np.empty(ndim)
-- 
2.43.0


From 2074cc09c804404fdd186dcaa7472de79b97d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:06 +0000
Subject: [PATCH 30/34] fix: first penalty of cmaes and vdcma does not depend
 on uninitialised memory

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index bbf50bf..69352e5 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -181,7 +181,7 @@ def cmaes(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 917c8a4..3d24d4a 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -186,7 +186,7 @@ def vdcma(
 
     # Initial mean
     xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
-    xold = np.empty(ndim)
+    xold = xmean.copy()
 
     # Number of parents
     mu = max(1, int(muperc * popsize))
-- 
2.43.0


From acf8704d822bfd91c3f4d299b0475ac1a3dd3bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:51 +0000
Subject: [PATCH 31/34] fix: cmaes and vdcma no longer modify a sigma given as
 an array in place

---
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 69352e5..56a0d37 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -298,7 +298,7 @@ def cmaes(
         C += tmp
 
         # Adapt step size sigma
-        sigma *= np.exp((cs / damps) * (np.linalg.norm(ps) / chind - 1.0))
+        sigma = sigma * np.exp((cs / damps) * (np.linalg.norm(ps) / chind - 1.0))
 
         # Diagonalization of C
         if nfev - eigeneval > popsize / (c1 + cmu) / ndim / 10.0:
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 3d24d4a..43b619e 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -307,7 +307,7 @@ def vdcma(
             alpha_act = np.where(arindex == 1)[0][0] - np.where(arindex == 0)[0][0]
             alpha_act /= popsize - 1.0
             ps += cs * (alpha_act - ps)
-            sigma *= np.exp(ps / ds)
+            sigma = sigma * np.exp(ps / ds)
             cond = ps < 0.5
         else:
             flg_injection = True
-- 
2.43.0


From 79a6963810304a2ba721cdcf546abd10b6403e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:45 +0000
Subject: [PATCH 32/34] fix: bounds given as an array of a narrow type no
 longer overflow or lose precision

---
 stochopy/optimize/_common.py      | 2 +-
 stochopy/optimize/cmaes/_cmaes.py | 2 +-
 stochopy/optimize/cpso/_cpso.py   | 2 +-
 stochopy/optimize/de/_de.py       | 2 +-
 stochopy/optimize/na/_na.py       | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 2 +-
 stochopy/sample/hmc/_hmc.py       | 2 +-
 stochopy/sample/mcmc/_mcmc.py     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stochopy/optimize/_common.py b/stochopy/optimize/_common.py
index f38ef76..4c8cbd4 100644
--- a/stochopy/optimize/_common.py
+++ b/stochopy/optimize/_common.py
@@ -117,7 +117,7 @@ def lhs(popsize, ndim, bounds=None):
     pop = np.transpose([x[np.random.permutation(popsize), i] for i in range(ndim)])
 
     if bounds is not None:
-        lower, upper = np.transpose(bounds)
+        lower, upper = np.transpose(bounds).astype(float)
         pop *= 0.5 * (upper - lower)
         pop += 0.5 * (upper + lower)
 
diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index 56a0d37..fce3fff 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -162,7 +162,7 @@ def cmaes(
 ):
     """Optimize with CMA-ES."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
diff --git a/stochopy/optimize/cpso/_cpso.py b/stochopy/optimize/cpso/_cpso.py
index 5d74805..530aadf 100644
--- a/stochopy/optimize/cpso/_cpso.py
+++ b/stochopy/optimize/cpso/_cpso.py
@@ -203,7 +203,7 @@ def cpso(
 ):
     """Optimize with CPSO."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Constraints
     cons = _constraints_map[constraints](lower, upper, sync)
diff --git a/stochopy/optimize/de/_de.py b/stochopy/optimize/de/_de.py
index 06aff46..e052c1d 100644
--- a/stochopy/optimize/de/_de.py
+++ b/stochopy/optimize/de/_de.py
@@ -199,7 +199,7 @@ def de(
 ):
     """Optimize with DE."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Constraints
     cons = _constraints_map[constraints](lower, upper)
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index 974de77..de6eac9 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -151,7 +151,7 @@ def na(
 ):
     """Optimize with Neighborhood Algorithm."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Normalize and unnormalize
     span = upper - lower
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 43b619e..7f4cd21 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -167,7 +167,7 @@ def vdcma(
 ):
     """Optimize with VD-CMA."""
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Standardize and unstandardize
     xm = 0.5 * (upper + lower)
diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 9582705..40a3318 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -88,7 +88,7 @@ def sample(
         raise ValueError()
 
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Initial guess x0
     if x0 is not None and len(x0) != ndim:
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index 763c0c5..c7a6e20 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -73,7 +73,7 @@ def sample(
         raise ValueError()
 
     ndim = len(bounds)
-    lower, upper = np.transpose(bounds)
+    lower, upper = np.transpose(bounds).astype(float)
 
     # Initial guess x0
     if x0 is not None and len(x0) != ndim:
-- 
2.43.0


From f749720476920e2114e37cb74fe23de04908ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:10 +0000
Subject: [PATCH 33/34] fix: na, cmaes and vdcma convert the initial guess to
 floats like the other methods

---
 stochopy/optimize/cmaes/_cmaes.py | 6 +++++-
 stochopy/optimize/na/_na.py       | 2 +-
 stochopy/optimize/vdcma/_vdcma.py | 6 +++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/stochopy/optimize/cmaes/_cmaes.py b/stochopy/optimize/cmaes/_cmaes.py
index fce3fff..eefae7d 100644
--- a/stochopy/optimize/cmaes/_cmaes.py
+++ b/stochopy/optimize/cmaes/_cmaes.py
@@ -180,7 +180,11 @@ def cmaes(
         unstandardize = lambda x: np.clip(x * xstd + xm, lower, upper)
 
     # Initial mean
-    xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
+    xmean = (
+        np.random.uniform(-1.0, 1.0, ndim)
+        if x0 is None
+        else standardize(np.array(x0, dtype=float))
+    )
     xold = xmean.copy()
 
     # Number of parents
diff --git a/stochopy/optimize/na/_na.py b/stochopy/optimize/na/_na.py
index de6eac9..aa3c1b4 100644
--- a/stochopy/optimize/na/_na.py
+++ b/stochopy/optimize/na/_na.py
@@ -170,7 +170,7 @@ def na(
     nr = max(1, int(nrperc * popsize))
 
     # Initial population
-    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)
+    X = np.array(x0, dtype=float) if x0 is not None else lhs(popsize, ndim, bounds)
     X = normalize(X)
     pbest = X.copy()
 
diff --git a/stochopy/optimize/vdcma/_vdcma.py b/stochopy/optimize/vdcma/_vdcma.py
index 7f4cd21..cd90335 100644
--- a/stochopy/optimize/vdcma/_vdcma.py
+++ b/stochopy/optimize/vdcma/_vdcma.py
@@ -185,7 +185,11 @@ def vdcma(
         unstandardize = lambda x: np.clip(x * xstd + xm, lower, upper)
 
     # Initial mean
-    xmean = np.random.uniform(-1.0, 1.0, ndim) if x0 is None else standardize(x0)
+    xmean = (
+        np.random.uniform(-1.0, 1.0, ndim)
+        if x0 is None
+        else standardize(np.array(x0, dtype=float))
+    )
     xold = xmean.copy()
 
     # Number of parents
-- 
2.43.0


From eb4f0f83adfbb40b155b638ad163e2114710de2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:16 +0000
Subject: [PATCH 34/34] fix: samplers convert the step sizes to floats before
 scaling them

---
 stochopy/sample/hmc/_hmc.py   | 2 +-
 stochopy/sample/mcmc/_mcmc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stochopy/sample/hmc/_hmc.py b/stochopy/sample/hmc/_hmc.py
index 40a3318..5c1a5d0 100644
--- a/stochopy/sample/hmc/_hmc.py
+++ b/stochopy/sample/hmc/_hmc.py
@@ -105,7 +105,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
+    stepsize = np.asarray(stepsize, dtype=float) * (0.5 * (upper - lower))
 
     # Jacobian
     if not (jac is None or hasattr(jac, "__call__")):
diff --git a/stochopy/sample/mcmc/_mcmc.py b/stochopy/sample/mcmc/_mcmc.py
index c7a6e20..54a16a2 100644
--- a/stochopy/sample/mcmc/_mcmc.py
+++ b/stochopy/sample/mcmc/_mcmc.py
@@ -86,7 +86,7 @@ def sample(
     if len(stepsize) != ndim:
         raise ValueError()
 
-    stepsize = np.asarray(stepsize) * (0.5 * (upper - lower))
+    stepsize = np.asarray(stepsize, dtype=float) * (0.5 * (upper - lower))
 
     # Number of dimensions to perturb per iteration
     if not 0.0 <= perc <= 1.0:
-- 
2.43.0

