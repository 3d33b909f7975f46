From e8ad213cc2185e9b0b1413eb4166354c6885474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 01/17] fix: genCoeffs of a QDeltaGenerator returned its
 internal cache for scalar k

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..f2c03be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From 3e211ee46f68e19d81a08df3a1383e89f2597ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 02/17] fix: genQDeltaCoeffs extended the list of types given
 by the caller

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index f2c03be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From 6201d3e1090f9ea71b0cbec11a91b82759a3570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 03/17] fix: QGenerator.genCoeffs returned the generator's (or
 class) tables instead of copies

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..628500e 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From a5333fbf99dc51f1573ae26ee462b7262a310eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 04/17] fix: RK objects exposed the Butcher tables of their
 class, modifiable for all later users

---
 qmat/qcoeff/butcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..b73b3ad 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,8 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        self.A, self.b, self.c = self.A.copy(), self.b.copy(), self.c.copy()
+        if self.b2 is not None: self.b2 = self.b2.copy()
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From 63bddb86de1c4f2747e6f96db3c525cbfa9191f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/17] fix: padding of a RK scheme left its embedded weights
 unpadded

---
 qmat/qcoeff/butcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index b73b3ad..5a29be0 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -53,6 +53,7 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None: self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -61,6 +62,7 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None: self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 03cbdb5accb387fc7856476111570970af2a9cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 06/17] fix: BEPAR, TRAPAR and SOE were wrong (and not
 diagonal) for tLeft != 0

---
 qmat/qdelta/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..048df82 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)/2
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 926ff82c12c0a851c8e02d89935b6c3a9669f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 07/17] fix: time-stepping approximations ignored the left
 bound of the given qGen

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 048df82..577acf7 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From 791d7f50a6e9f19fb3fd172689a55bdf1f4aeb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 08/17] fix: node-based diagonal approximations ignored the
 left bound of the given qGen

---
 qmat/qdelta/diag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/diag.py b/qmat/qdelta/diag.py
index 7355aed..5eb4118 100644
--- a/qmat/qdelta/diag.py
+++ b/qmat/qdelta/diag.py
@@ -134,7 +134,7 @@ class MIN_SR_NS(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes - getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self):
-- 
2.43.0


From 1ae71780a089f9e6e3111401b97df4d0c48daffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 09/17] fix: integer nodes truncated the first step of
 time-stepping approximations

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 577acf7..9bdca19 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From 38a54436a9c2acd297986b594791073930e6091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 10/17] fix: right boundary of a Collocation was assumed to be
 1 for hCoeffs and rightIsNode

---
 qmat/qcoeff/__init__.py    | 2 +-
 qmat/qcoeff/collocation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index 628500e..785cea5 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -58,7 +58,7 @@ class QGenerator(object):
     @property
     def rightIsNode(self)->bool:
         """Wether or not the last nodes is the right boundary"""
-        return self.nodes[-1] == 1.
+        return self.nodes[-1] == getattr(self, "tRight", 1.)
 
     @property
     def T(self)->np.ndarray:
diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..e88de90 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -91,7 +91,7 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
 
     @property
     def order(self)->int:
-- 
2.43.0


From a6be7c334f894430f981164db025fd9cfd719fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 11/17] fix: inner nodes close to a boundary were moved onto it
 (or boundary nodes not) by an absolute tolerance

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index e88de90..f5980c8 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From a5fb815803676b41a71884a9138018b795ad1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 12/17] fix: barycentric weights of distinct but unsorted
 points were paired with the wrong points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From a7a6c1ade8188a3059eeac361c9e9c6d5a721dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 13/17] fix: AUTO weight computation did not switch to the
 stable algorithm on overflow

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..fa1ec23 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,7 +211,7 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
+            with np.errstate(divide='raise', over='raise'):
                 try:
                     invProd = analytic(diffs)
                 except FloatingPointError:
-- 
2.43.0


From 1beaad8817a415d83d1ba8f8f1dcd10a3647d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 14/17] fix: sparse interpolation re-used lines of different
 stencils on fine grids (absolute tolerance)

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index fa1ec23..438125e 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -584,7 +584,7 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=1e-8*np.ptp(closestPoints)):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From cb0d34afaa6d9ead80c7bdf5a971c59673ec2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 15/17] fix: stage time of RK53 did not match its Butcher
 matrix

---
 qmat/qcoeff/butcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 5a29be0..dbc6e19 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -223,7 +223,7 @@ class RK53(RK):
          [0, 0, 1/3, 0, 0],
          [0, 0, 0, 2/3, 0]]
     b = [1/4, 0, 0, 0, 3/4]
-    c = [0, 1/7, 3/16, 1/3, 2/3]
+    c = [0, 1/7, 3/13, 1/3, 2/3]
 
     @property
     def order(self)->int: return 3
-- 
2.43.0


From b5648c795dd614437ede17d6d218e469376ed56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 16/17] fix: QDelta constructors silently dropped surplus or
 duplicated arguments

---
 qmat/utils/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmat/utils/__init__.py b/qmat/utils/__init__.py
index 5082079..97ca821 100644
--- a/qmat/utils/__init__.py
+++ b/qmat/utils/__init__.py
@@ -93,8 +93,13 @@ def useQGen(__init__):
             assert "qGen" not in kwargs, "`coll` and `qGen` given together, that's an ambiguous call !"
             kwargs["qGen"] = kwargs.pop("coll")
 
+        if len(args) > len(pNames):
+            raise TypeError(f"{len(args)} positional arguments given, but at most {len(pNames)} are accepted")
         params = {name: value for name, value in zip(pNames, args)}
         qGen = kwargs.pop("qGen", None)
+        duplicates = [name for name in params if name in kwargs]
+        if duplicates:
+            raise TypeError(f"got multiple values for argument(s) {duplicates}")
         params.update(kwargs)
 
         if qGen is not None:
-- 
2.43.0


From 9e3d3e26acaa82926ce9d05ff3c8585a5fa6ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:24 +0000
Subject: [PATCH 17/17] fix: reject unknown scaleRef and duplicates options
 whatever the points

---
 qmat/lagrange.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 438125e..344c97a 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -164,6 +164,10 @@ class LagrangeApproximation(object):
     def __init__(self, points,
                  weightComputation='AUTO', scaleWeights=False, scaleRef='MAX',
                  duplicates="USE_LEFT", fValues=None):
+        if scaleRef not in ["MAX", "ZERO"]:
+            raise NotImplementedError(f'scaleRef={scaleRef}')
+        if duplicates not in ["USE_LEFT", "USE_RIGHT"]:
+            raise NotImplementedError(f"duplicates={duplicates}")
         points = np.asarray(points, dtype=float).ravel()
 
         uniques = np.unique(points)
-- 
2.43.0

