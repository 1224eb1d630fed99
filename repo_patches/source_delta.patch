From f0e2ac2e30dc56b63375e949d665f68b415dfce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 01/32] fix: divide transition counts by their row sums
 directly

1 / row_sum * count rounds twice, so that e.g. 49 / 49 was not 1 and an
absorbing state went undetected (absorbing states, sojourn times, first
passage times).
---
 giddy/markov.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..c35cb18 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,8 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
-            P[i] = p_i
+            P[i] = mat / row_sum[:, np.newaxis]
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-- 
2.43.0


From 3846bc476c7312c49b9c77d17d56f9c7eaef9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 02/32] fix: find infinite mean first passage times by
 reachability

mfpt() relied on an exactly singular system to have an absorbing state, and
on rounding errors above 1e16 otherwise: chains with a recurrent class of
several states got all-inf columns, huge finite or negative values.
---
 giddy/ergodic.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..1de49a3 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -323,28 +323,15 @@ rows to be 1 to make sure the matrix is stochastic.
         k = P.shape[0]
         mfpt_all = np.zeros((k, k))
         for desti in range(k):
-            b = np.ones(k - 1)
             p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
-            p_calc = np.eye(k - 1) - p_sub
             m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
+            # the mean first passage time is infinite for the states which
+            # can get to a state from which desti can no longer be reached
+            reaching = _can_reach(p_sub, np.delete(P[:, desti], desti) > 0)
+            finite = np.where(~_can_reach(p_sub, ~reaching))[0]
+            if len(finite) >= 1:
+                p_calc = np.eye(len(finite)) - p_sub[finite, :][:, finite]
+                m[finite] = np.linalg.solve(p_calc, np.ones(len(finite)))
             recc = (
                 np.nan_to_num(
                     (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
@@ -352,11 +339,21 @@ rows to be 1 to make sure the matrix is stochastic.
                 + 1
             )
             mfpt_all[:, desti] = np.insert(m, desti, recc)
-            mfpt_all = np.where(mfpt_all < -1e16, np.inf, mfpt_all)
-            mfpt_all = np.where(mfpt_all > 1e16, np.inf, mfpt_all)
     return mfpt_all
 
 
+def _can_reach(P, states):
+    """
+    Boolean mask of the states of P from which any of the states in the
+    boolean mask `states` (these included) can be reached.
+    """
+    while True:
+        reaching = states | (P[:, states] > 0).any(axis=1)
+        if (reaching == states).all():
+            return reaching
+        states = reaching
+
+
 def var_fmpt_ergodic(p):
     warn(
         (
-- 
2.43.0


From 104521f613b4fd791d71c0dd41c03ea0ef4ed3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 03/32] fix: do not truncate the steady state for integer
 transition matrices in mfpt

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 1de49a3..f0d9cb5 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros(P.shape)
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From 5f70dd3c0a73bc27599bc71b50198a47ed9646b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/32] fix: return a (k,) steady state when there is one
 recurrent class

As documented, also when the chain has transient classes.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index f0d9cb5..49bf8b5 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,7 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
+    num_classes = mc.num_recurrent_classes
     if num_classes == 1:
         return mc.stationary_distributions[0]
     else:
-- 
2.43.0


From 3bdb7914f6026adc3830d40a971a3c2563e9107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 05/32] fix: build Spatial_Markov.S when conditional chains
 differ in steady states

---
 giddy/markov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c35cb18..9fea9a1 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -862,8 +862,12 @@ class Spatial_Markov:
             _S = []
             for p in self.P:
                 _S.append(steady_state(p))
-            # if np.array(_S).dtype is np.dtype('O'):
-            self._S = np.asarray(_S, dtype=object)
+            if len({s.shape for s in _S}) == 1:
+                self._S = np.asarray(_S, dtype=object)
+            else:
+                self._S = np.empty(len(_S), dtype=object)
+                for i, s in enumerate(_S):
+                    self._S[i] = s
         return self._S
 
     @property
-- 
2.43.0


From b54d5a981a4ad587168b01cce4c4a32de34ea8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 06/32] fix: Spatial_Markov permutations with m != k or
 discrete data

The realizations summed over the first k of the m regimes (IndexError when
m < k), the lag classes were left those of the last permutation, and for
discrete data the permuted series was ignored.
---
 giddy/markov.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 9fea9a1..05c9899 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -840,13 +840,15 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
+            self.lclass_ids = lclass_ids
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
 
@@ -960,7 +962,8 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            class_ids = np.searchsorted(self.classes, y)
+            self.lclass_ids = weights.lag_categorical(w, class_ids, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From 62873e83f3dfca327d7323e68e408904dfa1219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 07/32] fix: name the m regimes in Spatial_Markov.summary

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 05c9899..11c6cd7 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1049,7 +1049,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From 31cf82deac3e93ad1f715a55f309abbc69ec15ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 08/32] fix: keep unoccupied classes in the aspatial chain of
 Spatial_Markov

It had fewer than k states, so that chi2 and x2 raised for cutoffs leaving
a class without observations.
---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 11c6cd7..6664df0 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -830,7 +830,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From eab19bd56f407634a677acf24746ea2094a4903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 09/32] fix: no degree of freedom for rows without transitions
 in homogeneity

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 6664df0..ebfa2c1 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1831,7 +1831,7 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        self.dof = int(((b_i - 1) * (A_i - 1))[b_i > 0].sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From c9d61aefb9354761a15bd009a22d370ae9a051c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 10/32] fix: do not truncate probabilities for integer counts
 in homogeneity

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ebfa2c1..c3ec047 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1788,7 +1788,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From b2272a003fc760b4487038920f606727a3946a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 11/32] fix: order the expected LISA transitions by the GeoDa
 quadrants when asked

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index c3ec047..5ecd911 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1429,6 +1429,8 @@ class LISA_Markov(Markov):
         markov_y = Markov(rc, summary=False)
         markov_ylag = Markov(rlagc, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if gq:  # LL=2, LH=3
+            A = A[[0, 2, 1, 3]]
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From 13373d067f854a903ab568dedbf8b216c6e9af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 12/32] fix: LISA_Markov when the series or its lag stays on
 one side of the mean

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 5ecd911..6379e4d 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1426,8 +1426,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        states = np.array([False, True])
+        markov_y = Markov(rc, states, summary=False)
+        markov_ylag = Markov(rlagc, states, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
         if gq:  # LL=2, LH=3
             A = A[[0, 2, 1, 3]]
-- 
2.43.0


From a9fd222cb5ac0640134ac7d90a7f1104ff43ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 13/32] fix: report the components of the last period in
 LISA_Markov.spillover

---
 giddy/markov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 6379e4d..bbfdccf 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1510,6 +1510,7 @@ class LISA_Markov(Markov):
             sig_ids = [np.nonzero(sig_lisas[:, i])[0].tolist() for i in range(k)]
 
             neighbors = self.w.neighbors
+            components2 = []
             for t in range(k - 1):
                 s1 = sig_ids[t]
                 s2 = sig_ids[t + 1]
@@ -1556,6 +1557,10 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+            for c, component in enumerate(components2):  # last period
+                for i in component:
+                    ii = self.w.id2i[i]
+                    components[ii, k - 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From 8e0d3bb66e7171ff685cd1f71d8db8da739f404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 14/32] fix: search graph components without recursion

The recursive search failed with RecursionError on components of about a
thousand units, and so did LISA_Markov.spillover.
---
 giddy/components.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..bf942e6 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,17 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
-        visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        aux = []
+        stack = [v]
+        while stack:
+            v = stack.pop()
+            if v in visited:
+                continue
+            aux.append(v)
+            visited.add(v)
+            stack.extend(
+                n
+                for n, w in reversed(list(self.edges.get(v, {}).items()))
+                if op(w, threshold) and n not in visited
+            )
         return aux, visited
-- 
2.43.0


From bddf25dd860e20b899881586d6350e27ac6408e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 15/32] fix: compare ranks by order, not by products of
 differences

(xi - xj) * (yi - yj) overflows for large integers, wraps around for
unsigned ones and underflows for small floats.
---
 giddy/rank.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..9e5a93c 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -386,8 +386,8 @@ class SpatialTau:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
                     yj = y[j]
-                    dx = xi - xj
-                    dy = yi - yj
+                    dx = int(xi > xj) - int(xi < xj)
+                    dy = int(yi > yj) - int(yi < yj)
                     dxdy = dx * dy
                     if dxdy != 0:
                         n1 += 1
@@ -483,8 +483,9 @@ class Tau_Local:
         xx = x.reshape(self.n, 1)
         yy = y.reshape(self.n, 1)
 
-        C = (xx - xx.T) * (yy - yy.T)
-        self.S = -1 * (C < 0) + 1 * (C > 0)
+        dx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
+        dy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
+        self.S = dx * dy
 
         self.tau = self.S.sum() * 1.0 / (self.n * (self.n - 1))
         si = self.S.sum(axis=1)
@@ -630,8 +631,8 @@ class Tau_Local_Neighbor:
             self.tau_ln_pvalues = tau_ln_pvalues
 
     def _calc_r(self, xi, yi, xj, yj, w):
-        dx = xi - xj
-        dy = yi - yj
+        dx = int(xi > xj) - int(xi < xj)
+        dy = int(yi > yj) - int(yi < yj)
         dxdy = dx * dy
         if dxdy != 0:
             if dxdy > 0.0:
-- 
2.43.0


From 798b5c1cc3cfb2ed1c188cff4dac6a8383fdc55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 16/32] fix: do not truncate permuted x to the dtype of y in
 Tau_Local_Neighbor

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 9e5a93c..3c09959 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -612,7 +612,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 0b12a874c9f9f5e2d1a7d37742713db62435aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 17/32] fix: exactly k sectors in Rose

np.arange with a float step gave k + 1 sectors for some k, e.g. 12 or 30,
and Rose.permute failed.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..e79677a 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.arange(self.k + 1) * self.sw
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From 5ef91c0e8dd4022d8c069c4db2f5701daf98e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 18/32] fix: keep the observed Y and wY of a Rose when it is
 permuted

permute() left the last permutation in them, so that later plots showed
permuted data. Seeded sequences of permute() calls are unchanged.
---
 giddy/directional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index e79677a..45846f2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -209,11 +209,13 @@ class Rose:
         """
 
         self.Y = Y
+        self._Y_perm = Y
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
         self.cuts = np.arange(self.k + 1) * self.sw
         observed = self._calc(Y, w, k)
+        self.wY = observed["lag"]
         self.theta = observed["theta"]
         self.bins = observed["bins"]
         self.counts = observed["counts"]
@@ -239,12 +241,13 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self._Y_perm
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
-            res = self._calc(rY[idxs, :], self.w, self.k)
+            self._Y_perm = rY[idxs, :]
+            res = self._calc(self._Y_perm, self.w, self.k)
             counts[m] = res["counts"]
         self.counts_perm = counts
         self.larger_perm = np.array(
@@ -303,8 +306,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From b80faa059ce5af811ef2bc7c95ad21b7f2c084a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 19/32] fix: check the keywords of dynamic_lisa_rose before
 changing rcParams

The ValueError left the grey background and white edges behind for all later
figures.
---
 giddy/plotting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..cdb7c55 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -266,6 +266,12 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
+    if attribute is not None and ("c" in kwargs or "color" in kwargs):
+        raise ValueError(
+            "c and color are not valid keywords here; "
+            "attribute is used for coloring"
+        )
+
     # save_old default values
     old_gridcolor = mpl.rcParams["grid.color"]
     old_facecolor = mpl.rcParams["axes.facecolor"]
@@ -290,12 +296,6 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     if attribute is None:
         c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
     else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
-            )
-
         c = ax.scatter(
             rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
         )
-- 
2.43.0


From 19feeb2ccd1a4221bd463ba1cee270ba9a3f8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 20/32] fix: order the tick labels of dynamic_lisa_heatmap as
 its cells

Rows and columns are 0 ns, 1 HH, 2 LH, 3 LL, 4 HL.
---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index cdb7c55..c038f45 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From 847e5b04e259d88fec9102322f2d9f1629caefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 21/32] fix: tell sequences of more than ten classes apart in
 optimal matching

[1, 11] and [11, 1] were joined to the same string: KeyError or a distance
of 0.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..50887bb 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(",".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From 8e10281e499c4be8606029a34301df2f5e22c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 22/32] fix: accept lists of varying lengths in Sequence

---
 giddy/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 50887bb..e58f08e 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -177,7 +177,10 @@ class Sequence:
     """  # noqa E501
 
     def __init__(self, y, subs_mat=None, dist_type=None, indel=None, cluster_type=None):
-        y = np.asarray(y)
+        try:
+            y = np.asarray(y)
+        except ValueError:  # sequences of varying lengths
+            y = list(y)
         merged = list(itertools.chain.from_iterable(y))
         self.classes = np.unique(merged)
         self.k = len(self.classes)
-- 
2.43.0


From 950fa0b3470b432ed01594e1945913049fe47d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 23/32] fix: total the transitions from each state in kullback,
 not those into it

The statistic mixed the column totals of the strata with the pooled row
totals; both agree only when every state is entered as often as left.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index bbfdccf..bb489e4 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1645,7 +1645,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F.sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From 65cc9135d15536b4cd5bf27ae0c7f60773661c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:00 +0000
Subject: [PATCH 24/32] fix: end the last sector of a Rose at 2 pi exactly

k * (2 pi / k) is below 2 pi for some k, e.g. 75, and angles just below zero
were then counted in no sector.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 45846f2..5da8376 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -213,7 +213,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(self.k + 1) * self.sw
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.wY = observed["lag"]
         self.theta = observed["theta"]
-- 
2.43.0


From baabf40243fb2fef7343756a7c07a66903175485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 25/32] fix: no wrap-around of small integer types in Rose

Differences of int8 or uint8 values wrapped around, giving wrong angles and
undefined lengths.
---
 giddy/directional.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/directional.py b/giddy/directional.py
index 5da8376..f2c0228 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -303,6 +303,7 @@ class Rose:
             print(f"Bad option for alternative: {alternative}")
 
     def _calc(self, Y, w, k):
+        Y = np.asarray(Y, dtype=float)
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-- 
2.43.0


From 04c6a51d80361586ba391c005d489910a1e5b9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 26/32] fix: plotting a Rose keeps the transform of its weights

Moran_Local row-standardized the weights of the Rose for good, and a later
permute compared counts under other weights with the observed ones.
---
 giddy/plotting.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index c038f45..65ebe4f 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -4,6 +4,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 import seaborn as sns
 from esda.moran import Moran_Local
+from libpysal.weights import W
 from packaging.version import Version
 
 from .directional import Rose
@@ -62,10 +63,14 @@ def _moran_loc_from_rose_calc(rose):
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
     old_state = np.random.get_state()
+    # Moran_Local row-standardizes W objects in place
+    old_transform = rose.w.transform if isinstance(rose.w, W) else None
     moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
     np.random.set_state(old_state)
     moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
     np.random.set_state(old_state)
+    if old_transform is not None:
+        rose.w.transform = old_transform
     return moran_locy, moran_locx
 
 
-- 
2.43.0


From a1299d0831034551e01b3b49f50a02a45cdb5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 27/32] fix: restore rcParams when dynamic_lisa_rose fails

Unusable axes or keywords left the style of the plot in matplotlib's global
settings.
---
 giddy/plotting.py | 51 +++++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 65ebe4f..50457cc 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -277,40 +277,31 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
             "attribute is used for coloring"
         )
 
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
     alpha = kwargs.pop("alpha", 0.9)
     cmap = kwargs.pop("cmap", "YlGnBu")
 
-    if ax is None:
-        fig = plt.figure()
-        ax = fig.add_subplot(111, projection="polar")
-        can_insert_colorbar = True
-    else:
-        fig = ax.get_figure()
-        can_insert_colorbar = False
-
-    ax.set_rlabel_position(315)
-
-    if attribute is None:
-        c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
-    else:
-        c = ax.scatter(
-            rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
-        )
-        if can_insert_colorbar:
-            fig.colorbar(c)
+    # define plotting style
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
+    with mpl.rc_context(style):
+        if ax is None:
+            fig = plt.figure()
+            ax = fig.add_subplot(111, projection="polar")
+            can_insert_colorbar = True
+        else:
+            fig = ax.get_figure()
+            can_insert_colorbar = False
+
+        ax.set_rlabel_position(315)
+
+        if attribute is None:
+            c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
+        else:
+            c = ax.scatter(
+                rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
+            )
+            if can_insert_colorbar:
+                fig.colorbar(c)
 
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
     return fig, ax
 
 
-- 
2.43.0


From f55d44854eab430837baf7bd687b707f84d2d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 28/32] fix: accept numbers and any sequences as names in
 homogeneity summaries

---
 giddy/markov.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index bb489e4..d285ec2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1856,10 +1856,10 @@ class Homogeneity_Results:
 
     def summary(self, file_name=None, title="Markov Homogeneity Test"):
         regime_names = ["%d" % i for i in range(self.m)]
-        if self.regime_names:
-            regime_names = self.regime_names
+        if self.regime_names is not None and len(self.regime_names):
+            regime_names = [str(regime) for regime in self.regime_names]
         cols = ["P(%s)" % str(regime) for regime in regime_names]
-        if not self.class_names:
+        if self.class_names is None or not len(self.class_names):
             self.class_names = list(range(self.k))
 
         max_col = max([len(col) for col in cols])
@@ -1890,9 +1890,7 @@ class Homogeneity_Results:
         print("\n".join(contents))
         print(lead)
 
-        cols = ["P(%s)" % str(regime) for regime in self.regime_names]
-        if not self.class_names:
-            self.class_names = list(range(self.k))
+        cols = ["P(%s)" % str(regime) for regime in regime_names]
         cols.extend(["%s" % str(cname) for cname in self.class_names])
 
         max_col = max([len(col) for col in cols])
-- 
2.43.0


From 3e9574ce50615d81f2df08c8dd6dc73baa0850a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 29/32] fix: show counts of 100 and more in full in LISA
 heatmaps

---
 giddy/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 50457cc..f184e6c 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -166,6 +166,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     heatmap_data, diagonal_mask = _dynamic_lisa_heatmap_data(moran_locy, moran_locx, p)
     # set default plot style
     annot = kwargs.pop("annot", True)
+    if annot is True:  # the cells are counts
+        kwargs.setdefault("fmt", "d")
     cmap = kwargs.pop("cmap", "YlGnBu")
     mask = kwargs.pop("mask", diagonal_mask)
     cbar = kwargs.pop("cbar", False)
-- 
2.43.0


From 559d777c330b17343c81de65c9c1c596ef551224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 30/32] fix: keep the largest values in the top quantile class
 when its bound is rounded down

---
 giddy/markov.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index d285ec2..9c37191 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1068,14 +1068,17 @@ class Spatial_Markov:
         rows, cols = y.shape
         if cutoffs is None:
             if self.fixed:
-                mcyb = mc.Quantiles(y.flatten(), k=k)
-                yb = mcyb.yb.reshape(y.shape)
-                cutoffs = mcyb.bins
+                cutoffs = mc.Quantiles(y.flatten(), k=k).bins
+                # The last bound can fall short of the largest value by rounding.
+                yb = np.searchsorted(cutoffs[:-1], y)
                 k = len(cutoffs)
                 return yb, cutoffs[:-1], k
             else:
                 yb = np.array(
-                    [mc.Quantiles(y[:, i], k=k).yb for i in np.arange(cols)]
+                    [
+                        np.searchsorted(mc.Quantiles(y[:, i], k=k).bins[:-1], y[:, i])
+                        for i in np.arange(cols)
+                    ]
                 ).transpose()
                 return yb, None, k
         else:
-- 
2.43.0


From a124821e9ab424f16d525ac062f83c21c138f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 31/32] fix: keep to k quantile classes when rounding adds a
 bound

---
 giddy/markov.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 9c37191..956d70b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1068,17 +1068,18 @@ class Spatial_Markov:
         rows, cols = y.shape
         if cutoffs is None:
             if self.fixed:
-                cutoffs = mc.Quantiles(y.flatten(), k=k).bins
-                # The last bound can fall short of the largest value by rounding.
-                yb = np.searchsorted(cutoffs[:-1], y)
-                k = len(cutoffs)
-                return yb, cutoffs[:-1], k
+                # The last bound can fall short of the largest value by rounding,
+                # or another bound can come next to it.
+                cutoffs = mc.Quantiles(y.flatten(), k=k).bins[:-1][: k - 1]
+                yb = np.searchsorted(cutoffs, y)
+                return yb, cutoffs, len(cutoffs) + 1
             else:
+                cutoffs = [
+                    mc.Quantiles(y[:, i], k=k).bins[:-1][: k - 1]
+                    for i in np.arange(cols)
+                ]
                 yb = np.array(
-                    [
-                        np.searchsorted(mc.Quantiles(y[:, i], k=k).bins[:-1], y[:, i])
-                        for i in np.arange(cols)
-                    ]
+                    [np.searchsorted(cutoffs[i], y[:, i]) for i in np.arange(cols)]
                 ).transpose()
                 return yb, None, k
         else:
-- 
2.43.0


From fbd4be125fca62175438e86bc734e02cfc4a3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 32/32] fix: read the regimes of Theta as an array, so that
 lists of strings are told apart

---
 giddy/rank.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/rank.py b/giddy/rank.py
index 3c09959..79efcbd 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -95,6 +95,7 @@ class Theta:
         n, k = y.shape
         ranks_d = ranks[:, list(range(1, k))] - ranks[:, list(range(k - 1))]
         self.ranks_d = ranks_d
+        regime = np.asarray(regime)
         regimes = np.unique(regime)
         self.regimes = regimes
         self.total = sum(abs(ranks_d))
-- 
2.43.0

