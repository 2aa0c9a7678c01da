From 97c25005da784ce892bdbdc774dfb76ee5e779e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:41 +0000
Subject: [PATCH 001/134] fix: findrfc raised IndexError for turning points of
 length two

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..783636b 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1327,8 +1327,8 @@ def findrfc(tp, h=0.0, method='clib'):
     if nc < 1:
         return zeros(0, dtype=int)  # No RFC cycles*/
 
-    if (y[0] > y[1] and y[1] > y[2] or
-            y[0] < y[1] and y[1] < y[2]):
+    if n > 2 and (y[0] > y[1] and y[1] > y[2] or
+                  y[0] < y[1] and y[1] < y[2]):
         warnings.warn('This is not a sequence of turningpoints, exit')
         return zeros(0, dtype=int)
 
-- 
2.43.0


From aa56c7caa544d17410faa847b0874ff9c40c36e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:41 +0000
Subject: [PATCH 002/134] fix: findtp raised IndexError for kind mw/Mw when the
 rainflow filter left nothing

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 783636b..28e89f4 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1489,7 +1489,7 @@ def findtp(x, h=0.0, kind=None, method='clib'):
         ind1 = findrfc(x[ind], h, method)
         ind = ind[ind1]
 
-    if kind in ('mw', 'Mw'):
+    if kind in ('mw', 'Mw') and ind.size > 1:
         # make sure that the first is a Max if wdef == 'Mw'
         # or make sure that the first is a min if wdef == 'mw'
         first_is_max = (x[ind[0]] > x[ind[1]])
-- 
2.43.0


From c1c7096eca86590374ddb3889a01efae40038b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:02 +0000
Subject: [PATCH 003/134] fix: compiled findrfc read past the end of two
 turning points

---
 source/c_library/c_functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 352c0ad..a05360c 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -34,11 +34,11 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    }
 
 
-   if (( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
+   if ((n-Tstart>2) && ( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
       info[0] = -1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-   if ((*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
+   if ((n-Tstart>2) && (*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
       info[0]=-1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-- 
2.43.0


From d033e0a4ccb4bbf0e95e10d745bd0e403c4c15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 004/134] fix: level_crossings reported a spurious level 0 when
 all tied extremes are negative

---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..ffd308a 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -797,7 +797,7 @@ class CyclePairs(PlotData):
                 ii += 1
                 extr[:, ii] = extremes[:, i]
 
-        nx = extr[0].argmax() + 1
+        nx = ii + 1
         levels = extr[0, 0:nx]
 
         def _upcrossings_and_maxima(extr, nx):
-- 
2.43.0


From 7233013fbc7aad3b3b2ae06aa10c28b832f986d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:51 +0000
Subject: [PATCH 005/134] fix: cycle_matrix discretized cycles one level too
 high

---
 src/wafo/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index ffd308a..5a9de9e 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1053,15 +1053,15 @@ class CyclePairs(PlotData):
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
         a, b, n = param
 
         delta = (b - a) / (n - 1)  # Discretization step
-        cp1 = (cp1 - a) / delta + 1
-        cp2 = (cp2 - a) / delta + 1
+        cp1 = (cp1 - a) / delta
+        cp2 = (cp2 - a) / delta
 
         if ddef == 0:
             cp1 = np.clip(np.round(cp1), 0, n - 1)
@@ -1075,7 +1075,7 @@ class CyclePairs(PlotData):
         else:
             raise ValueError('Undefined discretization definition, ddef = {}'.format(ddef))
 
-        if np.any(ix):
+        if ix.size:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
         return np.asarray(cp1, dtype=int), np.asarray(cp2, dtype=int)
 
-- 
2.43.0


From 643029f619b22c071d718b9c477bcf69daefbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 006/134] fix: nt2fr used a single column of the counting
 distribution

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..d1ca82d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -26,7 +26,7 @@ def nt2fr(nt, kind=0):
     """
 
     n = len(nt)
-    fr_raw = (nt[:n - 1, :][:, n - 1] + nt[1:, :][:, 1:] -
+    fr_raw = (nt[:n - 1, :][:, :n - 1] + nt[1:, :][:, 1:] -
               nt[:n - 1, :][:, 1:] - nt[1:, :][:, :n - 1])
 
     fr = np.zeros(np.shape(nt))
-- 
2.43.0


From 40d31ca6bd82b9fe2545e978c3c4bdc8079697cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:09 +0000
Subject: [PATCH 007/134] fix: fr2nt raised IndexError for every matrix

---
 src/wafo/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index d1ca82d..ac8db76 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -58,9 +58,9 @@ def fr2nt(fr):
     if n != m:
         raise ValueError('The matrix is not square!')
 
-    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr)
+    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr, axis=0)
     m2 = np.zeros((n, n))
-    m2[1:, 1:] = m1[:n - 2, :][:, 1:]
+    m2[1:, 1:] = m1[:n - 1, :][:, 1:]
     nt = np.fliplr(np.triu(np.fliplr(m2), 0))
 
     return nt
-- 
2.43.0


From 1ee9882951ee22bfaaacf7e3202d0daa7a5ea093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 008/134] fix: findpot lost or mixed up peaks when there was
 more than one cluster

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..c90f119 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -446,7 +446,7 @@ def _remove_index_to_data_too_close_to_each_other(ix_e, is_too_small, di_e, ti_e
                               is_too_small[-1]))
     # Find opening (no) and closing (nc) index for data beeing to close:
     iy = findextrema(np.hstack([0, 0, is_too_small, 0]))
-    no = iy[:2] - 1
+    no = iy[0::2] - 1
     nc = iy[1::2]
     for start, stop in zip(no, nc):
         iz = slice(start, stop)
-- 
2.43.0


From 04d4d7d4d5b87c0cf4e41c5614df057aa1006dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 009/134] fix: edf sorted the caller's data in place

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index c90f119..21bb26c 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From 601d98149b8f5eab1f85c601eab270fb17812310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:35 +0000
Subject: [PATCH 010/134] fix: return period conversions raised TypeError for
 scalars and ValueError for invalid integers

---
 src/wafo/stats/core.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 21bb26c..f2db49e 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -494,8 +494,7 @@ def returnperiod2sf(period, numevents_per_unit=1):
     t, npu = np.broadcast_arrays(period, numevents_per_unit)
     invprb = t*npu
     nan_mask = (npu <= 0) | (invprb < 1)
-    invprb[nan_mask] = np.nan
-    return 1./invprb
+    return 1./np.where(nan_mask, np.nan, invprb)
 
 
 def sf2returnperiod(q, numevents_per_unit=1):
@@ -533,8 +532,7 @@ def sf2returnperiod(q, numevents_per_unit=1):
     prbi, npu = np.broadcast_arrays(q, numevents_per_unit)
     inv_period = npu * prbi
     nan_mask = (npu < 0) | (prbi < 0) | (1 <= prbi)
-    inv_period[nan_mask] = np.nan
-    return 1./inv_period
+    return 1./np.where(nan_mask, np.nan, inv_period)
 
 
 def findpot(data, t=None, thresh=None, tmin=1):
-- 
2.43.0


From ab6e2262b1575320b697a5a13f7fc69edf83fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:19 +0000
Subject: [PATCH 011/134] fix: gridcount failed or lost mass for data on the
 upper limit of the grid

---
 src/wafo/kdetools/gridding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..ddff92b 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -353,6 +353,7 @@ def gridcount(data, X, y=1):
 
     dx = np.diff(x[:, :2], axis=1)
     binx = np.asarray(np.floor((dataset - xlo[:, np.newaxis]) / dx), dtype=int)
+    binx = np.clip(binx, 0, inc - 2)  # data on the upper limit belong to the last cell
     w = dx.prod()
     if d == 1:
         return _gridcount_1d(acfun, dataset, x, y, w, binx, inc)
-- 
2.43.0


From db933d78e9bad660431a28cb13e68570edab268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 012/134] fix: gridcount reshaped the caller's grid in place

---
 src/wafo/kdetools/gridding.py | 2 +-
 src/wafo/kdetools/kdetools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index ddff92b..2785007 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..7066092 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1008,7 +1008,7 @@ class BKRegression(object):
         xmin, xmax = x.min(), x.max()
         ni = max(2 * int((xmax - xmin) / hs_e) + 3, 5)
         sml = hs_e  # *0.1
-        xi = np.linspace(xmin - sml, xmax + sml, ni).T
+        xi = np.linspace(xmin - sml, xmax + sml, ni).ravel()
         return xi
 
     def _wilson_score(self, n, p, alpha):
-- 
2.43.0


From c3ed026b3098fb59de6a8a11c722f6deb4c4a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 013/134] fix: binned kernel regression returned zero where the
 weighted response is negative

---
 src/wafo/kdetools/kdetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 7066092..2a5d740 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -431,7 +431,7 @@ class TKDE(_KDE):
                                   method='linear', fill_value=0.0)
         self.args = args
         r = kwds.get('r', 0)
-        if r == 0:
+        if r == 0 and np.all(np.asarray(kwds.get('y', 1.0)) >= 0):
             return fi * (fi > 0)
         return fi
 
@@ -733,7 +733,7 @@ class KDE(_KDE):
         z = np.real(ifftn(fftn(c, s=kw.shape) * fftn(kw)))
 
         ix = (slice(0, inc),) * d
-        if r == 0:
+        if r == 0 and np.all(np.asarray(y) >= 0):
             return z[ix] * (z[ix] > 0.0)
         return z[ix]
 
-- 
2.43.0


From 1ba5cf8c4641434a60219897c82df4b9d51c782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 014/134] fix: TKDE.eval_grid_fast ignored the response y and
 the moment r, so KRegression with L2 was constant

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 2a5d740..e380094 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -450,7 +450,7 @@ class TKDE(_KDE):
             self.args = self.tkde.args
             return f
         targs = self._get_targs(args)
-        tf = self.tkde.eval_grid_fast(*targs)
+        tf = self.tkde.eval_grid_fast(*targs, **kwds)
 
         self.args = self._inverse_transform(list(self.tkde.args))
         points = meshgrid(*self.args)
-- 
2.43.0


From b6d77db12d056f840d8ad93413b3b411b08fb738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 015/134] fix: TKDE truncated the transformed values of integer
 data

---
 src/wafo/kdetools/kdetools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index e380094..466eee0 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -11,7 +11,6 @@
 # -------------------------------------------------------------------------
 
 # from abc import ABCMeta, abstractmethod
-import copy
 import warnings
 import numpy as np
 from numpy import linalg
@@ -390,7 +389,7 @@ class TKDE(_KDE):
 
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
-        tpoints = copy.copy(points)
+        tpoints = list(points) if isinstance(points, (list, tuple)) else np.array(points, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
             tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
         return tpoints
@@ -401,7 +400,7 @@ class TKDE(_KDE):
 
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
-        points = copy.copy(tpoints)
+        points = list(tpoints) if isinstance(tpoints, (list, tuple)) else np.array(tpoints, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
             points[i] = np.exp(
                 tpoints[i]) if v2 == 0 else tpoints[i] ** (1.0 / v2)
-- 
2.43.0


From b299c23c09ed7af9aac97152edac38b2d1ae0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 016/134] fix: TKDE could not be evaluated in a single point

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 466eee0..dc7849a 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -415,7 +415,7 @@ class TKDE(_KDE):
             factor = v2 * np.sign(v2) if v2 else 1
             pdf *= np.where(v2 == 1, 1, points[i] ** (v2 - 1) * factor)
 
-        _assert_warn((np.abs(np.diff(pdf)).max() < 10).all(), '''
+        _assert_warn((np.abs(np.diff(pdf)) < 10).all(), '''
         Numerical problems may have occured due to the power transformation.
         Check the KDE for spurious spikes''')
         return pdf
-- 
2.43.0


From 8facdc6f3d20d9d505ce5507f57c5e6e03a19ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 017/134] fix: KDE replaced non-positive entries in the
 caller's smoothing parameter

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index dc7849a..50e10a0 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -620,7 +620,7 @@ class KDE(_KDE):
         """make sure it has the correct dimension and replace negative vals"""
         h = np.atleast_1d(h)
         if (len(h.shape) == 1) or (self.d == 1):
-            h = h * np.ones(self.d) if max(h.shape) == 1 else h.reshape(self.d)
+            h = h * np.ones(self.d) if max(h.shape) == 1 else 1.0 * h.reshape(self.d)
             self._replace_negatives_with_default_hs(h)
         return h
 
-- 
2.43.0


From 5f722e2834fa3cd43493447a458674247e2a2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:47 +0000
Subject: [PATCH 018/134] fix: hste and hstt overwrote the caller's initial
 smoothing parameter

---
 src/wafo/kdetools/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 64845cb..ca1b9e2 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -805,7 +805,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
@@ -1005,7 +1005,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = np.array(h0, dtype=float)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From f6d49d215916782e58f4718c6e4a9d5f3286d116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 019/134] fix: TKDE transformed with a decreasing function for
 negative L2, so the grid did not cover the data

---
 src/wafo/kdetools/kdetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 50e10a0..a468a7c 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -391,7 +391,7 @@ class TKDE(_KDE):
 
         tpoints = list(points) if isinstance(points, (list, tuple)) else np.array(points, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
-            tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
+            tpoints[i] = np.log(points[i]) if v2 == 0 else np.sign(v2) * points[i] ** v2
         return tpoints
 
     def _inverse_transform(self, tpoints):
@@ -403,7 +403,7 @@ class TKDE(_KDE):
         points = list(tpoints) if isinstance(tpoints, (list, tuple)) else np.array(tpoints, dtype=float)
         for i, v2 in enumerate(L2.tolist()):
             points[i] = np.exp(
-                tpoints[i]) if v2 == 0 else tpoints[i] ** (1.0 / v2)
+                tpoints[i]) if v2 == 0 else (np.sign(v2) * tpoints[i]) ** (1.0 / v2)
         return points
 
     def _scale_pdf(self, pdf, points):
-- 
2.43.0


From 063abe398c34e8fdb9122b77f09a302e46dc02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:42 +0000
Subject: [PATCH 020/134] fix: chebder doubled the constant term of the
 derivative and failed for degree 0 and 1

---
 src/wafo/polynomial.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..e7dac7a 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1618,14 +1618,8 @@ def chebder(ck, a=-1, b=1):
     Journal of the ACM (JACM), Vol. 12 ,  Issue 3, pp 295 - 314
     """
 
-    n = len(ck) - 1
-    cder = np.zeros(n, dtype=np.asarray(ck).dtype)
-    cder[0] = 2 * n * ck[0]
-    cder[1] = 2 * (n - 1) * ck[1]
-    for j in range(2, n):
-        cder[j] = cder[j - 2] + 2 * (n - j) * ck[j]
-
-    return cder * 2. / (b - a)  # Normalize to the interval b-a.
+    # the coefficients are ordered from high to low; normalize to the interval b-a.
+    return np.polynomial.chebyshev.chebder(np.asarray(ck)[::-1], scl=2. / (b - a))[::-1]
 
 
 def chebint(ck, a=-1, b=1):
-- 
2.43.0


From 5245ee17be93172158410aafd7a3de40bde523c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:42 +0000
Subject: [PATCH 021/134] fix: chebint mixed up the coefficients of the
 integral

---
 src/wafo/polynomial.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index e7dac7a..206efd0 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1676,24 +1676,8 @@ def chebint(ck, a=-1, b=1):
 # int p(x) dx = sum cn * int(Tn(x)dx) =
 # 0.5*sum cn *{Tn+1(x)/(n+1) - Tn-1(x)/(n-1)} = 0.5 sum (cn-1-cn+1)*Tn/n n>0
 
-    n = len(ck)
-
-    cint = np.zeros(n)
-    con = 0.25 * (b - a)
-
-    dif1 = np.diff(ck[-1::-2])
-    ix1 = np.r_[1:n - 1:2]
-    cint[ix1] = -(con * dif1) / ix1
-    if n > 3:
-        dif2 = np.diff(ck[-2::-2])
-        ix2 = np.r_[2:n - 1:2]
-        cint[ix2] = -(con * dif2) / ix2
-    cint = cint[::-1]
-    # cint(n) is a special case
-    cint[-1] = (con * ck[n - 2]) / (n - 1)
-    # Set integration constant
-    cint[0] = 2 * np.sum((-1) ** np.r_[0:n - 1] * cint[-2::-1])
-    return cint
+    # the coefficients are ordered from high to low; the integral is zero in a.
+    return np.polynomial.chebyshev.chebint(np.asarray(ck)[::-1], lbnd=-1, scl=0.5 * (b - a))[::-1]
 
 
 class Cheb1d(object):
-- 
2.43.0


From a66cf6dd8c2b2df7f1a2aec742f30a1bfdb3aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 022/134] fix: Cheb1d objects could not be created, added,
 differentiated or integrated

---
 src/wafo/polynomial.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 206efd0..49feec7 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1692,7 +1692,9 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.trim_zeros(np.atleast_1d(ck), 'f')
+        if len(cki) == 0:
+            cki = np.zeros(1)
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
         self.__dict__['coeffs'] = cki
@@ -1719,21 +1721,17 @@ class Cheb1d(object):
         return self.order
 
     def __str__(self):
-        pass
+        return repr(self)
 
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return Cheb1d(-self.coeffs, self.a, self.b, self.kind)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return Cheb1d(polyadd(self.coeffs, other.coeffs), self.a, self.b, self.kind)
 
     def __radd__(self, other):
         return self.__add__(other)
@@ -1742,9 +1740,7 @@ class Cheb1d(object):
         return self.__add__(-other)
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return -self.__sub__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
@@ -1796,9 +1792,10 @@ class Cheb1d(object):
         chebint : equivalent function
 
         """
-        integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
-        return integ
+        coeffs = self.coeffs
+        for _i in range(m):
+            coeffs = chebint(coeffs, self.a, self.b)
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
 
     def deriv(self, m=1):
         """
@@ -1811,9 +1808,10 @@ class Cheb1d(object):
         chebder : equivalent function
 
         """
-        der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
-        return der
+        coeffs = self.coeffs
+        for _i in range(m):
+            coeffs = chebder(coeffs, self.a, self.b)
+        return Cheb1d(coeffs, self.a, self.b, self.kind)
 
 
 def padefit(c, m=None):
-- 
2.43.0


From 966f3584449457b2e3f1f4209dcc49f90c91bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 023/134] fix: polyreloc truncated the result for integer
 coefficients

---
 src/wafo/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 49feec7..ab29003 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -526,7 +526,8 @@ def polyreloc(p, x, y=0.0):
         return r
 
     def _relocate_with_horner(p, x, y):
-        r = np.atleast_1d(p).copy()
+        r = np.atleast_1d(p)
+        r = r.astype(np.result_type(r, x, y) if np.any(y) else np.result_type(r, x))
         n = r.shape[0]
         # Relocate polynomial using Horner's algorithm
         for ii in range(n, 1, -1):
-- 
2.43.0


From c806281499292342809e4684366b9bca8d729da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 024/134] fix: chebval truncated the values to integers for an
 integer fill value

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index ab29003..1fe92c2 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1567,7 +1567,7 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
         f = _chebval(y, ck, kind=kind)
     else:
         cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        f = np.where(cond, 0.0, fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
-- 
2.43.0


From 76b54cf560e53c8a655f0a2acd3df0a7a9fa3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 025/134] fix: chebfit_dct ignored args

---
 src/wafo/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 1fe92c2..08a8ed8 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1353,7 +1353,7 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
             Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            return f(*Xi, *args) / np.product(n), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-- 
2.43.0


From 3be56797fb518f67b936c1c5e83e99cbd8bfcbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:06 +0000
Subject: [PATCH 026/134] fix: chebfitnd always raised ValueError

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 08a8ed8..f75188e 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2221,7 +2221,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, newaxis]
             rhs = rhs * w
         scl = _scale(lhs)
         return lhs, scl, rhs
@@ -2234,7 +2234,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
     orders = degrees + 1
     order = np.product(orders)
 
-    lhs, rhs, scl = _init(xi, z, w, degrees, order)
+    lhs, scl, rhs = _init(xi, z, w, degrees, order)
 
     if rcond is None:
         rcond = xi[0].size * np.finfo(xi[0].dtype).eps
-- 
2.43.0


From 72f372151a97c7e238f90c0d652600ac265b6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:13 +0000
Subject: [PATCH 027/134] fix: poly2hstr lost the power of the variable for
 trailing zero coefficients

---
 src/wafo/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index f75188e..e6776b1 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -722,6 +722,8 @@ def poly2hstr(p, variable='x'):
     # Now treat the special case where the polynomial is zero.
     if s == '':
         s = '0'
+    elif ix > 2:  # Power of the common factor due to trailing zeros.
+        s = '{0:s}**{1:d}'.format(s, ix - 1)
     return s
 
 
-- 
2.43.0


From 2fad523b913a4ce6a1e8ffa8c2d52a21ac78ac50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:43 +0000
Subject: [PATCH 028/134] fix: TransferFunction could not be used with an
 integer sensortype

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..5fe4c6a 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -273,7 +273,7 @@ class TransferFunction(object):
                  bet=1, igam=1, thetax=90, thetay=0):
         self.pos = pos
         self.sensortype = sensortype if isinstance(
-            sensortype, str) else sensor_type(sensortype)
+            sensortype, str) else sensor_type(sensortype)[0]
         self.h = h
         self.g = g
         self.rho = rho
-- 
2.43.0


From 9afd8ba6cf5d5280c139a534c7e926dff52102c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:43 +0000
Subject: [PATCH 029/134] fix: TransferFunction.tran changed the shape of the
 caller's arrays and returned them

---
 src/wafo/wave_theory/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 5fe4c6a..dbca912 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -326,14 +326,14 @@ class TransferFunction(object):
             # wave number as function of angular frequency
             kw, unusedkw2 = w2k(w, 0, self.h)
 
-        w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = np.reshape(theta, (-1, 1))
+        kw = np.reshape(kw, (-1,))
+        w = np.reshape(w, (-1,))
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
+        Hw = np.array(Hw)  # never return or change the arguments themselves
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
-- 
2.43.0


From 18dee00eb9447035fac4ab6335f3c07909b74b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:43 +0000
Subject: [PATCH 030/134] fix: TransferFunction.tran raised IndexError when the
 transfer function is negative

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index dbca912..5e0b48e 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -344,7 +344,7 @@ class TransferFunction(object):
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From 6b887255ca082139b97703071cda1538c81b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:43 +0000
Subject: [PATCH 031/134] fix: TransferFunction and wave_pressure ignored the
 acceleration of gravity in the dispersion relation

---
 src/wafo/wave_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 5e0b48e..0c71682 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,7 +324,7 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
         # make sure they have the correct orientation
         theta = np.reshape(theta, (-1, 1))
@@ -561,7 +561,7 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     gam = _MODELS.jonswap_peakfact(Hm0, Tp)
     Tm02 = Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam)
     w = 2 * np.pi / Tm02
-    kw, unused_kw2 = w2k(w, 0, h)
+    kw, unused_kw2 = w2k(w, 0, h, g)
 
     hk = kw * h
     zk1 = kw * z
-- 
2.43.0


From 3db095b31bd7da72b82e584d6e58776aad39dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:59 +0000
Subject: [PATCH 032/134] fix: TransferFunction was zero for pressure and
 kinematics at infinite depth, which is the default

---
 src/wafo/wave_theory/core.py | 48 +++++++++++++-----------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 0c71682..1112d37 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -385,6 +385,12 @@ class TransferFunction(object):
             zk = kw * z  # z measured positive upward from sea floor
         return zk
 
+    def _depth_ratio(self, kw, sa, sb):
+        if np.isinf(self.h) and self.igam in (1, 2):
+            # limit of the ratio of hyperbolic functions for infinite depth
+            return exp(kw * self.pos[2] * (1 if self.igam == 1 else -1))
+        return hyperbolic_ratio(self._get_zk(kw), kw * self.h, sa, sb)
+
     # --- Surface elevation ---
     def _n(self, w, theta, kw):
         '''n = Eta = wave profile
@@ -434,84 +440,64 @@ class TransferFunction(object):
     def _p(self, w, theta, kw):
         ''' pressure fluctuations'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
-        # hyperbolic_ratio =  cosh(zk)/cosh(hk)
-        return self.rho * self.g * hyperbolic_ratio(zk, hk, 1, 1), ee
+        # depth_ratio =  cosh(zk)/cosh(hk)
+        return self.rho * self.g * self._depth_ratio(kw, 1, 1), ee
 
     # --- Water particle velocities ---
     def _u(self, w, theta, kw):
         ''' U = x-velocity'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), cos(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthx * ee
+        return w * self._depth_ratio(kw, 1, -1), cthx * ee
 
     def _v(self, w, theta, kw):
         '''V = y-velocity'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), sin(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthy * ee
+        return w * self._depth_ratio(kw, 1, -1), cthy * ee
 
     def _w(self, w, theta, kw):
         ''' W = z-velocity'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), -?
-        return w * hyperbolic_ratio(zk, hk, -1, -1), -1j * ee
+        return w * self._depth_ratio(kw, -1, -1), -1j * ee
 
     # --- Water particle acceleration ---
     def _u_t(self, w, theta, kw):
         ''' U_t = x-acceleration'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthx * ee
+        return (w ** 2) * self._depth_ratio(kw, 1, -1), -1j * cthx * ee
 
     def _v_t(self, w, theta, kw):
         ''' V_t = y-acceleration'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthy * ee
+        return (w ** 2) * self._depth_ratio(kw, 1, -1), -1j * cthy * ee
 
     def _w_t(self, w, theta, kw):
         ''' W_t = z-acceleration'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, -1, -1), -ee
+        return (w ** 2) * self._depth_ratio(kw, -1, -1), -ee
 
     # --- Water particle displacement ---
     def _x_p(self, w, theta, kw):
         ''' X_p = x-displacement'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthx * ee
+        return self._depth_ratio(kw, 1, -1), 1j * cthx * ee
 
     def _y_p(self, w, theta, kw):
         ''' Y_p = y-displacement'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthy * ee
+        return self._depth_ratio(kw, 1, -1), 1j * cthy * ee
 
     def _z_p(self, w, theta, kw):
         ''' Z_p = z-displacement'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
-        return hyperbolic_ratio(zk, hk, -1, -1), ee  # sinh(zk)./sinh(hk), ee
+        return self._depth_ratio(kw, -1, -1), ee  # sinh(zk)./sinh(hk), ee
 
 
 def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
-- 
2.43.0


From 3ceb28784fbffff94068856e8e7a82197790bfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:59 +0000
Subject: [PATCH 033/134] fix: w2k and k2w returned one array instead of two
 for empty input

---
 src/wafo/wave_theory/dispersion_relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 0690d5e..2ed8002 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -75,7 +75,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     k1i, k2i, hi, gi, u1i, u2i = np.broadcast_arrays(k1, k2, h, g, u1, u2)
 
     if np.size(k1i) == 0:
-        return zeros_like(k1i)
+        return zeros_like(k1i), zeros_like(k1i)
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
@@ -146,7 +146,7 @@ def w2k(w, theta=0.0, h=inf, g=9.81, count_limit=100, rtol=1e-7, atol=1e-14):
     gi = atleast_1d(g)
     wi, th, hi = np.broadcast_arrays(w, theta, h)
     if wi.size == 0:
-        return zeros_like(wi)
+        return zeros_like(wi), zeros_like(wi)
 
     k = 1.0 * sign(wi) * wi ** 2.0 / gi[0]  # deep water
     if (hi > 1e25).all():
-- 
2.43.0


From efe0081140612ba4fa2b19dceb7ebfcafb22a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:35 +0000
Subject: [PATCH 034/134] fix: Spreading with method donelan or banner raised
 AttributeError

---
 src/wafo/spectrum/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..2fdf47c 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1906,7 +1906,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1919,8 +1919,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
@@ -1985,7 +1985,7 @@ class Spreading(object):
         """ R1OFSECH2   Computes R1 = pi./(2*B.*sinh(pi./(2*B)))
         """
         realmax = finfo(float).max
-        tiny = 1. / realmax
+        tiny = 4. / realmax  # pi / tiny must be finite
         x = clip(2. * B, tiny, realmax)
         xk = pi / x
         return where(x < 100., xk / sinh(xk),
-- 
2.43.0


From e307bc346e888a5dc5d5f587ea152836747446c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:35 +0000
Subject: [PATCH 035/134] fix: sech2 spreading was zero instead of uniform for
 zero spreading parameter

---
 src/wafo/spectrum/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 2fdf47c..7734c44 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1706,9 +1706,10 @@ class Spreading(object):
 
         B, TH, phi0 = self.chk_input(theta, w, wc)[:3]
         NB = tanh(pi * B)  # % Normalization factor.
-        NB = where(NB == 0, 1.0, NB)  # Avoid division by zero
+        # B / NB -> 1 / pi (uniform spreading) as B -> 0
+        B_NB = where(NB == 0, 1.0 / pi, B / where(NB == 0, 1.0, NB))
 
-        D = 0.5 * B * sech(B * TH) ** 2. / NB
+        D = 0.5 * B_NB * sech(B * TH) ** 2.
         return D, phi0
 
     def mises(self, theta, w=1, wc=1):
-- 
2.43.0


From 23531ed731ed8206e5bec70ee16ea595d881e4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:35 +0000
Subject: [PATCH 036/134] fix: wrapped normal spreading was evaluated in the
 wrong angles

---
 src/wafo/spectrum/models.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 7734c44..a918f16 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1663,21 +1663,15 @@ class Spreading(object):
             Parameter defining the actual principal direction of D.
         """
 
-        par, TH, phi0, Nt = self.chk_input(theta, w, wc)
+        par, TH, phi0 = self.chk_input(theta, w, wc)[:3]
 
         D1 = par ** 2. / 2.
 
-        ix = arange(1, Nt)
-        ix2 = ix ** 2
-        Nd2 = D1.size
-        Fcof = vstack((ones((1, Nd2)) / 2, exp(-ix2[:, newaxis] * D1))) / pi
-
-        cor = exp(1j * ix[:, newaxis] * TH[0, :])
-        # correction term to get
-        Pcor = vstack((ones((1, TH.shape[1])), cor))
-        # the correct integration limits
-        Fcof = Fcof * Pcor.conj()
-        D = real(fft(Fcof, axis=0))
+        D = 0.5 / pi * ones(np.broadcast(TH, D1).shape)
+        # number of terms until they are negligible
+        n_terms = int(min(np.ceil(sqrt(-log(_EPS) / D1.min())), 10000)) + 1
+        for ix in range(1, n_terms):
+            D = D + exp(-ix ** 2 * D1) * cos(ix * TH) / pi
         D[D < 0] = 0
         return D, phi0
 
-- 
2.43.0


From c1fdd82d208fe5ab20d9a5abc6b7f571848d2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:50 +0000
Subject: [PATCH 037/134] fix: Torsethaugen ignored the cut off frequency wnc

---
 src/wafo/spectrum/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index a918f16..790d8f7 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1049,9 +1049,9 @@ class Torsethaugen(ModelSpectrum):
         # G0s=Ms/((Ns/Ms)**(-(Ns-1)/Ms)*gamma((Ns-1)/Ms )) #normalizing factor
 
         self.wind = Jonswap(Hm0=Hpw, Tp=Tpw, gamma=gammaw, N=Nw, M=Mw,
-                            method=self.method, chk_seastate=False)
+                            method=self.method, wnc=self.wnc, chk_seastate=False)
         self.swell = Jonswap(Hm0=Hps, Tp=Tps, gamma=gammas, N=Ns, M=Ms,
-                             method=self.method, chk_seastate=False)
+                             method=self.method, wnc=self.wnc, chk_seastate=False)
 
 
 class McCormick(Bretschneider):
-- 
2.43.0


From 18ab03990925686faeaf526bc8a53976ebb01e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:39 +0000
Subject: [PATCH 038/134] fix: von Mises spreading raised ValueError for narrow
 spreading

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 790d8f7..0cdcd66 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1843,12 +1843,12 @@ class Spreading(object):
             return sp.ive(1, x) / sp.ive(0, x)
 
         K0 = hstack((linspace(0, 10, 513), linspace(10.00001, 100)))
-        funK = interp1d(fun0(K0), K0)
+        funK = interp1d(fun0(K0), K0, bounds_error=False)
         K0 = funK(r1.ravel())
         k1 = flatnonzero(isnan(K0))
         if (k1.size > 0):
-            K0[k1] = 0.0
-            K0[k1] = K0.max()
+            # asymptotic solution for large K
+            K0[k1] = 0.5 / (1.0 - r1.ravel()[k1])
 
         ix0 = flatnonzero(r1 != 0.0)
         K = zeros_like(r1)
-- 
2.43.0


From 9058cb4b09cb4d3ff4c9a03081553c177ecb4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 039/134] fix: changing freqtype of a spectrum modified the
 arrays of its copies

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..d4d2bb7 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -727,13 +727,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args = self.args * (2 * np.pi)
+            self.data = self.data / (2 * np.pi)
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args = self.args / (2 * np.pi)
+            self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From 0fe9f35062c2855907ded18d0a4b1c1982b8b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 040/134] fix: warnings for small dt in tocov_matrix raised
 TypeError

---
 src/wafo/spectrum/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index d4d2bb7..3644351 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -750,7 +750,7 @@ class SpecData1D(PlotData):
         if self.freqtype in 'f':
             checkdt *= 2 * pi
         if (checkdt < 2. ** -16 / dt):
-            print('Step dt = %g in computation of the density is ' +
+            print('Step dt = %g in computation of the density is '
                   'too small.' % dt)
             print('The computed covariance (by FFT(2^K)) may differ from the')
             print('theoretical. Solution:')
@@ -762,11 +762,11 @@ class SpecData1D(PlotData):
         if nt + 1 >= 5:
             cc2 = acfmat[0, 0] - acfmat[4, 0] * (acfmat[4, 0] / acfmat[0, 0])
             if (cc2 < eps0):
-                warnings.warn('Step dt = %g in computation of the density ' +
+                warnings.warn('Step dt = %g in computation of the density '
                               'is too small.' % dt)
         cc1 = acfmat[0, 0] - acfmat[1, 0] * (acfmat[1, 0] / acfmat[0, 0])
         if (cc1 < eps0):
-            warnings.warn('Step dt = %g is small, and may cause numerical ' +
+            warnings.warn('Step dt = %g is small, and may cause numerical '
                           'inaccuracies.' % dt)
 
     @property
-- 
2.43.0


From 03104bfa93f913fb24a361ce3933007c7a27840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 041/134] fix: normalize did not give m2=1 for spectra in Hz

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 3644351..b93e810 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3584,8 +3584,8 @@ class SpecData1D(PlotData):
         B = SM2 / (SM0 * m0)
 
         if self.freqtype == 'f':
-            self.args = self.args * A / 2 / pi
-            self.data = self.data * B * 2 * pi
+            self.args = self.args * A
+            self.data = self.data * B
         elif self.freqtype == 'w':
             self.args = self.args * A
             self.data = self.data * B
-- 
2.43.0


From c7e33ec7d47b1f37317a82f89556e79695a60c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 042/134] fix: bandwidth failed for its default factor and gave
 Qp for eps4

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index b93e810..72169e2 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3627,9 +3627,9 @@ class SpecData1D(PlotData):
         '''
 
         m = self.moment(nr=4, even=False)[0]
-        if isinstance(factors, str):
+        if isinstance(factors, str) or np.ndim(factors) == 0:
             factors = [factors]
-        fact_dict = dict(alpha=0, eps2=1, eps4=3, qp=3, Qp=3)
+        fact_dict = dict(alpha=0, eps2=1, eps4=2, qp=3, Qp=3)
         fact = array([fact_dict.get(idx, idx)
                       for idx in list(factors)], dtype=int)
 
-- 
2.43.0


From 74af0483d3d1dde3ee04e4cf349ff9cae27749c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 043/134] fix: characteristic was wrong for spectra in Hz

---
 src/wafo/spectrum/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 72169e2..38b21cb 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3778,6 +3778,9 @@ class SpecData1D(PlotData):
         # vari = self.freqtype
         f = self.args.ravel()
         S1 = self.data.ravel()
+        if self.freqtype == 'f':
+            f = 2.0 * pi * f
+            S1 = S1 / (2.0 * pi)
         m, unused_mtxt = self.moment(nr=4, even=False)
 
         # moments corresponding to freq  in Hz
-- 
2.43.0


From e397ad847fdb5e4557fdcbace6c7ae1548bc60a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:47 +0000
Subject: [PATCH 044/134] fix: sim with derivative raised TypeError

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 38b21cb..e1aef45 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2691,7 +2691,7 @@ class SpecData1D(PlotData):
         x[:, 0] = linspace(0, T, ns)  # ' %(0:d_t:(np-1)*d_t).'
 
         if derivative:
-            xder = zeros(ns, cases + 1)
+            xder = zeros((ns, cases + 1))
             w = 2. * pi * hstack((0, f, 0., -f[-1::-1]))
             amp = -1j * amp * w[:, newaxis]
             xder[:, 1:(cases + 1)] = fft(amp, axis=0).real
-- 
2.43.0


From 55e5dceb279967a128436d71af1ae1f0b7a74c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 045/134] fix: tospecdata of a covariance function added the
 nugget to the data of the object

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..fb6cdeb 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -223,7 +223,7 @@ class CovData1D(PlotData):
         dt = self.sampling_period()
         # dt = time-step between data points.
 
-        acf, unused_ti = atleast_1d(self.data, self.args)
+        acf = np.array(self.data, ndmin=1)
 
         if self.lagtype in 't':
             spectype = 'freq'
-- 
2.43.0


From fc12cd36f009b176eb4d78d8a944923887710f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 046/134] fix: sim of a covariance function ending with zero
 had the wrong covariance

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index fb6cdeb..ba18f6b 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -389,7 +389,7 @@ class CovData1D(PlotData):
         else:  # ACF(n)==0
             m2 = 2 * n - 2
             nfft = 2 ** nextpow2(max(m2, 2 * ns))
-            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 1:1:-1, :]]
+            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 2:0:-1, :]]
 
         # m2=2*n-2
         spec = fft(acf, nfft, axis=0).real  # periodogram
-- 
2.43.0


From 3cf6b0776226840fcf3e41ef3185f50038f66972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 047/134] fix: sim of a covariance function with derivative
 raised ValueError

---
 src/wafo/covariance/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index ba18f6b..27b84dd 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -441,11 +441,11 @@ class CovData1D(PlotData):
 
         if derivative:
             sqrt_spec = sqrt_spec * \
-                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0][:, np.newaxis] * 2 * pi / nfft / dt
             ephat = epsi * sqrt_spec  # [:,newaxis]
             y = fft(ephat, nfft, axis=0)
-            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag -
-                                             y[2:ns + 2, 0:cases1].real))
+            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag,
+                                             -y[2:ns + 2, 0:cases1].real))
             xder[:, 0] = x[:, 0]
 
         if self.tr is not None:
-- 
2.43.0


From be942c43471de4a6231a59cc564d0ad81553aaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 048/134] fix: simcond modified its data argument and the
 covariance function

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 27b84dd..e4e7167 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -479,7 +479,7 @@ class CovData1D(PlotData):
 
     def _get_acf(self, smooth=False):
         self._is_valid_acf()
-        acf = atleast_1d(self.data).ravel()
+        acf = np.array(self.data, ndmin=1).ravel()
         n = self._get_lag_where_acf_is_almost_zero()
         if smooth:
             rwin = parzen(2 * n + 1)
@@ -569,7 +569,7 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
+        x = np.array(xo, dtype=float, ndmin=1).ravel()
         acf = self._get_acf()
 
         num_x = len(x)
-- 
2.43.0


From 5d34396e6f06376747667d05a2ed26a9ce4c0151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 049/134] fix: simcond with method approx raised TypeError for
 long data

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index e4e7167..6e80541 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -509,7 +509,7 @@ class CovData1D(PlotData):
         start_max = num_x - num_sig
         if (nw == 0) and (num_restored < len(i_unknown)):
             # move to the next missing data
-            start_ix = min(i_unknown[num_restored + 1] - overlap, start_max)
+            start_ix = min(i_unknown[num_restored] - overlap, start_max)
         else:
             start_ix = min(idx[0] + num_acf, start_max)
 
@@ -671,7 +671,7 @@ class CovData1D(PlotData):
                     # removing indices to data which has been simulated
                     mask_unknown[idx[:-overlap]] = False
                     # data we want to simulate once more
-                    nw = sum(mask_unknown[idx[-overlap:]] is True)
+                    nw = np.sum(mask_unknown[idx[-overlap:]])
                     num_restored += ns - nw  # update # points simulated so far
 
                     idx = self._update_window(idx, i_unknown, num_x, num_acf,
-- 
2.43.0


From 3a0e66e048a749d6ef4aec6bd5c70eadc3993ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 050/134] fix: unbiased covariance estimate raised ValueError

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 985cdc5..a9591ce 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -148,7 +148,7 @@ class CovarianceEstimator(object):
 
         if self.flag.startswith('unbiased'):
             # unbiased result, i.e. divide by n-abs(lag)
-            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 1, -1)
+            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
         if self.norm:
             auto_cov = auto_cov / auto_cov[0]
-- 
2.43.0


From ca191f90d11aee2e6706cfb6c4fc4cde55d9f6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 051/134] fix: covariance estimate subtracted the wrong mean
 when data are missing

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index a9591ce..8454418 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -132,7 +132,7 @@ class CovarianceEstimator(object):
         n = len(x)
         indnan = np.isnan(x)
         if any(indnan):
-            x = x - x[1 - indnan].mean()
+            x = x - x[~indnan].mean()
             Ncens = n - indnan.sum()
             x[indnan] = 0.
         else:
-- 
2.43.0


From 7de83aef63108e023125ea3bfb256a375f827cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:11 +0000
Subject: [PATCH 052/134] fix: covariance estimate wrapped around for large
 lags

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 8454418..f9fda61 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -141,7 +141,7 @@ class CovarianceEstimator(object):
         if hasattr(detrend, '__call__'):
             x = detrend(x)
 
-        nfft = 2 ** nextpow2(n)
+        nfft = 2 ** nextpow2(2 * n - 1)
         raw_periodogram = abs(fft(x, nfft)) ** 2 / Ncens
         # ifft = fft/nfft since raw_periodogram is real!
         auto_cov = np.real(fft(raw_periodogram)) / nfft
-- 
2.43.0


From 26c98406b6f08fdc6ac3c32f69845507dcf99a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:50 +0000
Subject: [PATCH 053/134] fix: second order components of sim_nl were one
 frequency too low, nan for finite depth

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index e1aef45..eef7f56 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2961,13 +2961,13 @@ class SpecData1D(PlotData):
         f_limit_lo = sqrt(g * tanh(kbar * water_depth) *
                           amp_max / water_depth) / (2 * pi * water_depth)
 
-        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 1
-        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 1
+        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 2
+        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 2
 
         # if isempty(nmax),nmax = np/2end
         # if isempty(nmin),nmin = 2end % Must always be greater than 1
-        f_limit_up = df * nmax
-        f_limit_lo = df * nmin
+        f_limit_up = df * (nmax - 1)
+        f_limit_lo = df * (nmin - 1)
         if verbose:
             print('2nd order frequency Limits = %g,%g' %
                   (f_limit_lo, f_limit_up))
-- 
2.43.0


From 2b79aaa78603f8681f4530dd1d62f6df9648b103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:22 +0000
Subject: [PATCH 054/134] fix: sim_nl ignored the acceleration of gravity in
 the frequency limits

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index eef7f56..15e1cf5 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2952,7 +2952,7 @@ class SpecData1D(PlotData):
         # Find the critical wave frequency to ensure convergence.
 
         num_waves = 1000.  # Typical number of waves in 3 hour seastate
-        kbar = w2k(2. * pi / Tm02, 0., water_depth)[0]
+        kbar = w2k(2. * pi / Tm02, 0., water_depth, g)[0]
         # Expected maximum amplitude for 1000 waves seastate
         amp_max = sqrt(2 * log(num_waves)) * Hm0 / 4
 
-- 
2.43.0


From bce36bf572d45a443612be121b88068ef9373040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:31 +0000
Subject: [PATCH 055/134] fix: tospecdata of a time series raised ValueError
 for most windows

---
 src/wafo/objects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 5a9de9e..1b7f817 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1410,10 +1410,12 @@ class TimeSeries(PlotData):
         '''
         if isinstance(wname, tuple):
             wname = wname[0]
-        dof = int(dict(parzen=3.71,
-                       hanning=2.67,
-                       bartlett=3).get(wname, np.nan) * n / L)
-        Be = dict(parzen=1.33, hanning=1,
+        if not isinstance(wname, str):
+            wname = None  # the window is given as a vector
+        dof = dict(parzen=3.71, hanning=2.67, hann=2.67,
+                   bartlett=3).get(wname, np.nan) * n / L
+        dof = dof if np.isnan(dof) else int(dof)
+        Be = dict(parzen=1.33, hanning=1, hann=1,
                   bartlett=1.33).get(wname, np.nan) * 2 * pi / (L * dt)
         if ftype == 'f':
             Be = Be / (2 * pi)  # bandwidth in Hz
-- 
2.43.0


From 683b71303c6bb812d8dfd37b29c2859afe5e2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:44 +0000
Subject: [PATCH 056/134] fix: exact simcond of one missing value in a long
 series raised ValueError

spsolve returns a vector when there is only one right hand side.
---
 src/wafo/covariance/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 6e80541..005deb9 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -604,9 +604,10 @@ class CovData1D(PlotData):
             soo, so1, s11 = self._split_cov(sigma, i_known, i_unknown)
 
             if issparse(sigma):
-                so1 = so1.todense()
-                s11 = s11.todense()
-                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).T
+                so1 = so1.toarray()
+                s11 = s11.toarray()
+                sooinv_so1 = spsolve((soo + soo.T).tocsc(), 2 * so1)
+                s1o_sooinv = sooinv_so1.reshape(so1.shape).T
             else:
                 sooinv_so1, _res, _rank, _s = lstsq(soo + soo.T, 2 * so1,
                                                     cond=1e-4)
-- 
2.43.0


From c3597fc03b8a961465328ef5ae4c97d8ed368713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:30 +0000
Subject: [PATCH 057/134] fix: simcond of a series shorter than the covariance
 function raised ValueError

---
 src/wafo/covariance/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 005deb9..80d5ce9 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -570,9 +570,8 @@ class CovData1D(PlotData):
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
         x = np.array(xo, dtype=float, ndmin=1).ravel()
-        acf = self._get_acf()
-
         num_x = len(x)
+        acf = self._get_acf()[:num_x]
         num_acf = len(acf)
 
         if i_unknown is not None:
-- 
2.43.0


From be367f8d9db3a9de8624e49f2d1d86892e45b614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 058/134] fix: fourth derivative of tranproc used the second
 instead of the third derivative

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 28e89f4..97bc3ac 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2582,7 +2582,7 @@ def tranproc(x, f, x0, *xi):
         """
         return (fxder[3] * xi[0] ** 4. + fxder[0] * xi[3] +
                 6. * fxder[2] * xi[0] ** 2. * xi[1] +
-                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[1]))
+                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[2]))
 
     xo, fo, x0 = np.atleast_1d(x, f, x0)
     xi = np.atleast_1d(*xi)
-- 
2.43.0


From 27b0aad37fa78132b344d73c3a5928be1fd9b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 059/134] fix: trangood extrapolated with values of the
 original grid and order

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 97bc3ac..ecb7cc1 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2475,7 +2475,7 @@ def trangood(x, f, min_n=None, min_x=None, max_x=None, max_n=inf):
 
     if max_x > xo[-1]:
         x1 = dx * np.arange(1, np.ceil((max_x - xo[-1]) / dx) + 1)
-        f2 = f[-1] + x1 * (f[-1] - f[-2]) / (xo[-1] - xo[-2])
+        f2 = fo[-1] + x1 * (fo[-1] - fo[-2]) / (xo[-1] - xo[-2])
         fo = np.hstack((fo, f2))
         xo = np.hstack((xo, x1 + xo[-1]))
 
-- 
2.43.0


From 9e3e9d067051df59f0bb4a9310d1e0eb28624076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 060/134] fix: TrHermite did not check the limits for scaled or
 unsorted data and failed for two limits

---
 src/wafo/transform/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..51d05d0 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -211,12 +211,12 @@ class TrHermite(TrCommon2):
     def _set_x_limit(self, root, polynom):
         """Compute where it is possible to invert the polynomial"""
         if self.kurt <= 3.:
-            self._x_limit = root
+            self._x_limit = self.sigma * root + self.mean
         else:
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % self._x_limit
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -260,12 +260,13 @@ class TrHermite(TrCommon2):
     def check_forward(self, x):
         if self._x_limit is not None:
             x00 = self._x_limit
-            txt2 = 'for the given interval x = [%g, %g]' % (x[0], x[-1])
+            xmin, xmax = np.min(x), np.max(x)
+            txt2 = 'for the given interval x = [%g, %g]' % (xmin, xmax)
 
-            if any(np.logical_and(x[0] <= x00, x00 <= x[-1])):
+            if any(np.logical_and(xmin <= x00, x00 <= xmax)):
                 cdef = 1
             else:
-                cdef = sum(np.logical_xor(x00 <= x[0], x00 <= x[-1]))
+                cdef = sum(np.logical_xor(x00 <= xmin, x00 <= xmax))
 
             if np.mod(cdef, 2):
                 errtxt = 'Unable to invert the polynomial \n %s' % txt2
-- 
2.43.0


From a703531d5111d6b11182362878e2734c3404452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 061/134] fix: TrHermite could not invert cubic polynomials
 with turning points

---
 src/wafo/transform/models.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index 51d05d0..258ac17 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -343,11 +343,11 @@ class TrHermite(TrCommon2):
         # q0 = x0**3-1.5*b1*(x0+xn)
         if self._x_limit is not None:  # % Three real roots
             d = sqrt(-p1)
-            theta1 = arccos(-q0 / d ** 3) / 3
-            th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
-            ix = x1.argmin()  # choose the smallest solution
-            return 2. * d * cos(theta1 + th2[ix]) - x0
+            theta1 = np.emath.arccos(-q0 / d ** 3) / 3
+            # choose the solution on the monotonic part that contains zero
+            th2 = 0 if d < x0 else 2 * pi / 3 if x0 < -d else -2 * pi / 3
+            x1 = 2. * d * cos(theta1 + th2) - x0
+            return where(abs(imag(x1)) < sqrt(_EPS), np.real(x1), np.nan)
         else:                # Only one real root exist
             q1 = sqrt((q0) ** 2 + p1 ** 3)
             # Find the real root of the monic polynomial
-- 
2.43.0


From 664c049d919c1b7f7433a41859ff3c11fa9af4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 062/134] fix: TrHermite was complex for too low kurtosis

---
 src/wafo/transform/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index 258ac17..b30b04f 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -197,7 +197,7 @@ class TrHermite(TrCommon2):
             c4 = 0.0
         else:
             expon = 1. - 0.1 * (excess_kurtosis + 3.) ** 0.8
-            c41 = (1. - 1.43 * skew ** 2. / excess_kurtosis) ** (expon)
+            c41 = np.power(1. - 1.43 * skew ** 2. / excess_kurtosis, expon)
             c4 = 0.1 * ((1. + 1.25 * excess_kurtosis) ** (1. / 3.) - 1.) * c41
         c4 = self._check_c3_c4(c3, c4)
         return c3, c4
-- 
2.43.0


From 6e0cab79b2ba9026eb491d5c6bcc907d56310245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 063/134] fix: Legendre and Hermite rules with one node
 returned the node twice

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..0613f24 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -636,8 +636,8 @@ def _expand_roots(x, w, n, m):
         x[m - 1] = 0.0
     if not (m + m) == n:
         m = m - 1
-    x = np.hstack((x, -x[m - 1::-1]))
-    w = np.hstack((w, w[m - 1::-1]))
+    x = np.hstack((x, -x[:m][::-1]))
+    w = np.hstack((w, w[:m][::-1]))
     return x, w
 
 
-- 
2.43.0


From c1cd49a709d3464471e0a64677c7bd815fe6a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 064/134] fix: romberg raised TypeError for intervals shorter
 than one

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 0613f24..01a70ef 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -170,7 +170,7 @@ def romberg(fun, a, b, releps=1e-3, abseps=1e-3):
     h = b - a
     h_min = 1.0e-9
     # Max size of extrapolation table
-    table_limit = max(min(np.round(np.log2(h / h_min)), 30), 3)
+    table_limit = int(max(min(np.round(np.log2(h / h_min)), 30), 3))
 
     rom = zeros((2, table_limit))
 
-- 
2.43.0


From 6565fa7ef906a1ff86773f6d07f8bf08d3a37680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 065/134] fix: la_roots returned the weights as a matrix

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 01a70ef..d7d83e6 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -493,8 +493,8 @@ def _la_roots_newton(n, alpha, releps=3e-14, max_iter=10):
 
     d_z = zeros(len(z))
     p = zeros((3, len(z)))
-    p_previous = zeros((1, len(z)))
-    p_deriv = zeros((1, len(z)))
+    p_previous = zeros(len(z))
+    p_deriv = zeros(len(z))
     k_0 = 0
     k_p1 = 1
     k = slice(len(z))
-- 
2.43.0


From 49f0dbf604cc33d5fad2698e74dbaf04075b3da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 066/134] fix: gaussq, quadgr and clencurt truncated integrals
 of integer valued functions

---
 src/wafo/integrate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index d7d83e6..fc9fb77 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -92,7 +92,7 @@ def clencurt(fun, a, b, n=5, trace=False):
     x = np.cos(np.pi * s / n_2) * (b - a) / 2. + (b + a) / 2
 
     if hasattr(fun, '__call__'):
-        f = fun(x)
+        f = fun(x) * 1.0
     else:
         x_0 = np.flipud(fun[:, 0])
         n_2 = len(x_0) - 1
@@ -1020,7 +1020,7 @@ class _Gaussq(object):
         # Break out of the iteration loop for three reasons:
         #  1) the last update is very small (compared to int and to releps)
         #  2) There are more than 11 iterations. This should NEVER happen.
-        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args))
+        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args), float)
         n_k = np.prod(a_shape)  # # of integrals we have to compute
         k = np.arange(n_k)
         opt = (n_k, dtype)
@@ -1191,7 +1191,7 @@ class _Quadgr(object):
         return q_val, err
 
     def _integrate(self, fun, a, b, abseps, max_iter):
-        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4))
+        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4), float)
 
         # Initiate vectors
         val0 = zeros(max_iter, dtype=dtype)  # Quadrature
-- 
2.43.0


From 9956d8e80d037ef4fadda2c69add9d9dd9a89635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 067/134] fix: gaussq used the rule of another alpha or beta
 that agrees in the first six digits

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index fc9fb77..2318f3c 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -938,7 +938,7 @@ class _Gaussq(object):
     @staticmethod
     def _nodes_and_weights(num_nodes, wfun, alpha, beta):
         global _NODES_AND_WEIGHTS
-        name = 'wfun{:d}_{:d}_{:g}_{:g}'.format(wfun, num_nodes, alpha, beta)
+        name = 'wfun{:d}_{:d}_{!r}_{!r}'.format(wfun, num_nodes, alpha, beta)
         nodes_and_weights = _NODES_AND_WEIGHTS[name]
         if len(nodes_and_weights) == 0:
             nodes_and_weights.extend(qrule(num_nodes, wfun, alpha, beta))
-- 
2.43.0


From d82142e316d362982880c75a2352a17643f51d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:42 +0000
Subject: [PATCH 068/134] fix: smoothn failed for missing values in data of two
 or more dimensions

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..d13a873 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -368,7 +368,7 @@ class _Filter(object):
         if (1 - I).any():
             notI = ~I
             z, L = distance_transform_edt(notI, return_indices=True)
-            z[notI] = y[L.flat[notI]]
+            z[notI] = y[tuple(Li[notI] for Li in L)]
 
         # coarse fast smoothing using one-tenth of the DCT coefficients
         shape = z.shape
-- 
2.43.0


From dcec68892c6fd6e887244329592cec6b863eb9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:42 +0000
Subject: [PATCH 069/134] fix: HampelFilter failed for integer data

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d13a873..242ab78 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1201,7 +1201,7 @@ class HampelFilter(object):
         self._check(dx)
 
         Y0, S0, ADX = self._filter(Y, X, dx)
-        YY = Y.copy()
+        YY = Y.astype(np.result_type(Y, float))
         T = self.t
         # Prepare Output
         self.UB = Y0 + T * S0
-- 
2.43.0


From 740e486fb43e916799e8d7bdffdfaf11ed1b2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 070/134] fix: SavitzkyGolay.smooth_last gave odd derivatives
 with the wrong sign

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 242ab78..40d9e9d 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -151,7 +151,7 @@ class SavitzkyGolay(object):
                                                     delta=delta)
 
     def smooth_last(self, signal, k=1):
-        coeff = self._coeff
+        coeff = self._coeff[::-1]
         n = (np.size(coeff) - 1) // 2
         y = np.squeeze(signal)
         if n == 0:
-- 
2.43.0


From dfe6e8e87b7b9251227d4475f8028d5a45b4a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 071/134] fix: SavitzkyGolay was unusable after smooth_last of
 a matrix

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 40d9e9d..54c8836 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -157,7 +157,7 @@ class SavitzkyGolay(object):
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape(-1, 1)
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From 705ed09cc3cd19cd8f131a1ecfb8683630371c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:43 +0000
Subject: [PATCH 072/134] fix: SavitzkyGolay.smooth_last failed for k=0

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 54c8836..a72b16b 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -161,7 +161,7 @@ class SavitzkyGolay(object):
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-        return (y[-2 * n - 1 - k:-k] * coeff).sum(axis=0)
+        return (y[-2 * n - 1 - k:len(y) - k] * coeff).sum(axis=0)
 
     def __call__(self, signal):
         return self.smooth(signal)
-- 
2.43.0


From 1cbc676e3cedc8a72a0421d4aba94daeff0db426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:44 +0000
Subject: [PATCH 073/134] fix: dctn and related transforms ignored negative
 axes

---
 src/wafo/dctpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/dctpack.py b/src/wafo/dctpack.py
index 2f5e0c2..3edac14 100644
--- a/src/wafo/dctpack.py
+++ b/src/wafo/dctpack.py
@@ -176,7 +176,7 @@ def _get_axes(y, shape, axes):
     if len(axes) != len(shape):
         raise ValueError("when given, axes and shape arguments "
                          "have to be of the same length")
-    return list(axes)
+    return [axis + y.ndim if axis < 0 else axis for axis in axes]
 
 
 def _raw_dctn(y, type, shape, axes, norm, fun):  # @ReservedAssignment
-- 
2.43.0


From a071a8847a88aec6e0fb5c2be506c58ca6a98d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 074/134] fix: SavitzkyGolay failed for lists

---
 src/wafo/sg_filter/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index a72b16b..53c7203 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -167,8 +167,8 @@ class SavitzkyGolay(object):
         return self.smooth(signal)
 
     def smooth(self, signal):
-        dtype = np.result_type(signal, float)
-        x = np.asarray(signal, dtype=dtype)
+        x = np.asarray(signal)
+        x = x.astype(np.result_type(x, float))
 
         coeffs = self._coeff
         mode, axis = self.mode, self.axis
-- 
2.43.0


From 7b1feb252044de47a31671712fa03f0a69249b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 075/134] fix: Kalman with an input matrix gave a state of
 wrong shape without input

---
 src/wafo/sg_filter/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 53c7203..5a2d2d5 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1011,7 +1011,10 @@ class Kalman(object):
         return self._filter_main(z, u)
 
     def _predict_state(self, x, u):
-        return np.dot(self.A, x) + np.dot(self.B, u)
+        x = np.dot(self.A, x)
+        if np.any(u):
+            x = x + np.dot(self.B, u)
+        return x
 
     def _predict_covariance(self, P):
         A = self.A
-- 
2.43.0


From a0215c1c52ce335c00f744dd03d635d20423e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:49 +0000
Subject: [PATCH 076/134] fix: adaptive HampelFilter ran out of windows for
 short data

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 5a2d2d5..af0a90d 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1154,7 +1154,7 @@ class HampelFilter(object):
         for i in range(len(Y)):
             j = 0
             S0Rel = np.inf
-            while S0Rel > self.adaptive:
+            while S0Rel > self.adaptive and j < len(DXTmp):
                 Y0Tmp[j], S0Tmp[j] = localwindow(X, Y, DXTmp[j], i)
                 if j > 0:
                     S0Rel = np.abs((S0Tmp[j - 1] - S0Tmp[j]) /
-- 
2.43.0


From 55d0437e9c18de9ca564e9f37e717ed987b3f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 077/134] fix: Steffen slopes at the ends had the wrong sign
 for decreasing data

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..a3616e7 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -841,8 +841,8 @@ def _steffen_slope(x, y, dx, dydx, *args):
         p1 = dydx[-1] * (1 + w1) - dydx[-2] * w1
         s0 = np.sign(p0) + np.sign(dydx[0])
         s1 = np.sign(p1) + np.sign(dydx[-1])
-        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * p0)
-        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * p1)
+        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * np.abs(p0))
+        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * np.abs(p1))
     else:
         yp[0] = 2.0 * dydx[0] - yp[1]
         yp[-1] = 2.0 * dydx[-1] - yp[-2]
-- 
2.43.0


From d832bf389cd4a442abe106fd685a5fffe382af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 078/134] fix: PPform truncated its values in integer points

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index a3616e7..535a344 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape, np.result_type(xnew, self.coeffs, float))
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-- 
2.43.0


From d7b2c4dfb0cc600debbbb682c9f7f570c14104bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 079/134] fix: PPform used the left polynomial in the breaks

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 535a344..bc13e71 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -352,7 +352,7 @@ class PPform(object):
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-        indxs = np.searchsorted(self.breaks[:-1], xx) - 1
+        indxs = np.searchsorted(self.breaks[:-1], xx, side='right') - 1
         indxs = indxs.clip(0, len(self.breaks))
         pp = self.coeffs
         dx = xx - self.breaks.take(indxs)
-- 
2.43.0


From af2c0cd275bf84b100047dfdad9ccb1d31e302cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 080/134] fix: derivative and integral of PPform lost the
 domain of extrapolated functions

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index bc13e71..87c8115 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From a2b7384e67a9f9dfaf9b0816e3161b03302082c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 081/134] fix: PPform.linear_extrapolate did nothing for linear
 functions

---
 src/wafo/interpolate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 87c8115..a33d40b 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -375,9 +375,10 @@ class PPform(object):
 
         if self.order <= max_order:
             if output:
-                return self
-            else:
-                return
+                return PPform(self.coeffs, self.breaks, a=-inf, b=inf)
+            self.a = -inf
+            self.b = inf
+            return
         breaks = self.breaks.copy()
         coefs = self.coeffs.copy()
         # pieces = len(breaks) - 1
-- 
2.43.0


From 677844623b9d0cba39d3e26b839b260686be2f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 082/134] fix: SmoothSpline failed for two points

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index a33d40b..987a776 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -638,7 +638,7 @@ class SmoothSpline(PPform):
         dydx = np.diff(y) / dx
 
         if (n == 2):  # straight line
-            coefs = np.vstack([dydx.ravel(), y[0, :]])
+            coefs = np.vstack([dydx.ravel(), y[..., 0].ravel()])
             return coefs, x
         D = sparse.spdiags(var * ones(n), 0, n, n)  # The variance
         coefs = self._poly_coefs(y, dx, dydx, n, nd, p, D)
-- 
2.43.0


From 2c82d4c48e7a4289b0c860e1e24fedd44c021015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 083/134] fix: SmoothSpline did not sort the variances with
 unsorted data

---
 src/wafo/interpolate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 987a776..a8ad8bb 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -579,7 +579,9 @@ class SmoothSpline(PPform):
             x = x[ind]
             y = y[..., ind]
             dx = np.diff(x)
-        return x, y, dx
+            if var.size > 1:
+                var = var.ravel()[ind]
+        return x, y, dx, var
 
     def _init_poly_coefs(self, dx, dydx, n, p, D):
         dx1 = 1. / dx
@@ -625,7 +627,7 @@ class SmoothSpline(PPform):
         return coefs
 
     def _compute_coefs(self, xx, yy, p=None, var=1):
-        x, y, dx = self._spacing(xx, yy, var)
+        x, y, dx, var = self._spacing(xx, yy, var)
         n = len(x)
 
         szy = y.shape
-- 
2.43.0


From 7dee86104a0e030e53d67839d3a22037e2ff1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 084/134] fix: slopes with monotone=True did not preserve
 monotonicity

---
 src/wafo/interpolate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index a8ad8bb..bb0e891 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -974,6 +974,9 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
         ii, = (dydx == 0.0).nonzero()
         yp[ii] = 0.0
         yp[ii + 1] = 0.0
+        # Slopes of the opposite sign would give overshoot
+        yp[:-1][yp[:-1] * dydx < 0] = 0.0
+        yp[1:][yp[1:] * dydx < 0] = 0.0
 
         with np.errstate(divide='ignore', invalid='ignore'):
             # ignore division by zero and NaN
@@ -990,9 +993,10 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
 
         # Find the indices that need adjustment
         indices_to_fix, = (dist > 9.0).nonzero()
+        scaling = ones(len(yp))
         for ii in indices_to_fix:
-            yp[ii] = tau[ii] * alpha[ii] * dydx[ii]
-            yp[ii + 1] = tau[ii] * beta[ii] * dydx[ii]
+            scaling[ii:ii + 2] = np.minimum(scaling[ii:ii + 2], tau[ii])
+        yp *= scaling
     if scale:
         return yp * sy/sx
     return yp
-- 
2.43.0


From 946c5d8f7f119f51cfbe7b2b358b831a98415a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:03 +0000
Subject: [PATCH 085/134] fix: savitzky_golay returned derivatives with wrong
 sign and scale

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index bb0e891..de132c8 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -97,13 +97,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     # precompute coefficients
     b = np.mat([[k ** i for i in order_range]
                 for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * np.prod(np.arange(1., deriv + 1))
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def _get_turnpoint(xvals):
-- 
2.43.0


From b3e97ddb1398f89ba785fa1754fc05f372f41636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:50 +0000
Subject: [PATCH 086/134] fix: slopes of two points were not the slope of the
 line or failed

---
 src/wafo/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index de132c8..7a517ff 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -956,6 +956,8 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
     dydx = (y[1:] - y[:-1]) / dx
 
     method = method.lower()
+    if len(x) == 2 and not method.startswith('car'):
+        method = 'secant'
     slope_fun = dict(par=_parabola_slope,
                      sec=_secant_slope,
                      car=_cardinal_slope,
-- 
2.43.0


From c10531b3a00a2bb3ee7d841c45536a33d2fab0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:28 +0000
Subject: [PATCH 087/134] fix: PPform.derivative of a piecewise constant could
 not be evaluated

---
 src/wafo/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 7a517ff..0783142 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -428,6 +428,8 @@ class PPform(object):
         """
 
         cof = pl.polyder(self.coeffs)
+        if len(cof) == 0:  # derivative of a piecewise constant
+            cof = np.zeros_like(self.coeffs)
         brks = self.breaks.copy()
         return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
-- 
2.43.0


From f905217baaba2ebf2a84b8ed62e09b48bdf3683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:30 +0000
Subject: [PATCH 088/134] fix: padua_fit failed for degree 0

---
 src/wafo/padua.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/padua.py b/src/wafo/padua.py
index 6cb6390..2f35e19 100644
--- a/src/wafo/padua.py
+++ b/src/wafo/padua.py
@@ -392,6 +392,8 @@ def padua_fit(Pad, fun, *args):
     # recover the degree n from N = (n+1)(n+2)/2
     n = int(round(-3 + np.sqrt(1 + 8 * N)) / 2)
     C0f = fun(Pad[0], Pad[1], *args)
+    if n == 0:
+        C0f = np.reshape(C0f, (1, 1))
     if (n > 0):
         ix = _find_m(n)
         GfT = np.zeros((n + 2) * (n + 1))
-- 
2.43.0


From 0602843ea17fbe67a1be1d2c08240cae3111e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 089/134] fix: profile link of the Burr distribution did not
 invert its survival function

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..f19e271 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -71,11 +71,11 @@ def _burr_link(x, logsf, phat, i):
     if i == 1:
         return -log_cdf / log1p(x_norm**(-par_c))
     if i == 0:
-        return log1p(-np.exp(-log_cdf / par_d)) / log(x_norm)
+        return -log(expm1(-log_cdf / par_d)) / log(x_norm)
     if i == 2:
-        return x - scale * np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return x - scale * expm1(-log_cdf / par_d) ** (-1.0 / par_c)
     if i == 3:
-        return (x - loc) / np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return (x - loc) * expm1(-log_cdf / par_d) ** (1.0 / par_c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From c0b60cd55e6ddf5a8423c8d0ed61fd65379ee7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 090/134] fix: profile link of the exponentiated Weibull
 distribution did not invert its survival function

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index f19e271..7114fe7 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -119,11 +119,11 @@ def _exponweib_link(x, logsf, phat, i):
     if i == 0:
         return - log_cdf / log(-expm1(-x_norm**c))
     if i == 1:
-        return log(-log1p(- log_cdf ** (1.0 / a))) / log(x_norm)
+        return log(-log1p(-np.exp(-log_cdf / a))) / log(x_norm)
     if i == 2:
-        return x - (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c) * scale
+        return x - (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c) * scale
     if i == 3:
-        return (x - loc) / (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c)
+        return (x - loc) / (-log1p(-np.exp(-log_cdf / a))) ** (1.0 / c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 705fb94d81770540184f6a9d3556b99803cfba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 091/134] fix: profile link for the location of generalized
 Pareto and extreme value distributions was wrong

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 7114fe7..542e33c 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -146,7 +146,7 @@ def _genpareto_link(x, logsf, phat, i):
         #   link = -(x-loc)*c/expm1(-c*logsf)
         return (x - loc) * c / expm1(-c * logsf)
     if i == 1:
-        return x + scale * expm1(c * logsf) / c
+        return x - scale * expm1(-c * logsf) / c
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 8795c5e9f2fcf43f95942853ec336cb2c046092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 092/134] fix: profile link for the location of the Gumbel
 distribution raised IndexError

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 542e33c..19b75d9 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -155,7 +155,7 @@ def _gumbel_r_link(x, logsf, phat, i):
     loglog_cdf = log(-log(-expm1(logsf)))
     if i == 1:
         return -(x - loc) / loglog_cdf
-    if i == 1:
+    if i == 0:
         return x + scale * loglog_cdf
     raise IndexError('Index to the fixed parameter is out of bounds')
 
-- 
2.43.0


From 0499e23087863a075e52c7df3b802197ab7f1c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 093/134] fix: profile link of the generalized exponential
 distribution did not invert its survival function

---
 src/wafo/stats/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 19b75d9..81adecc 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -177,9 +177,9 @@ def _genexpon_link(x, logsf, phat, i):
     x_norm = (x - loc) / scale
     fact1 = (x_norm + expm1(-c * x_norm) / c)
     if i == 0:
-        return b * fact1 + logsf  # a
+        return -(b * fact1 + logsf) / x_norm  # a
     if i == 1:
-        return (a - logsf) / fact1  # b
+        return -(a * x_norm + logsf) / fact1  # b
     if i in [2, 3, 4]:
         raise NotImplementedError('Only implemented for index in [0,1]!')
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From 8603879ad59d1f33127f5de9e8557da826919b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 094/134] fix: profile link for the scale of the Rayleigh
 distribution was wrong

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 81adecc..d1e0835 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -187,7 +187,7 @@ def _genexpon_link(x, logsf, phat, i):
 
 def _rayleigh_link(x, logsf, phat, i):
     if i == 1:
-        return x - phat[0] / np.sqrt(-2.0 * logsf)
+        return (x - phat[0]) / np.sqrt(-2.0 * logsf)
     if i == 0:
         return x - phat[1] * np.sqrt(-2.0 * logsf)
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From fe4306ba3a7e8a3b4c2fb5b15e1b326c56ac3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:37 +0000
Subject: [PATCH 095/134] fix: profile link of the truncated Rayleigh
 distribution was wrong and never found

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index d1e0835..20de82a 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -197,9 +197,9 @@ def _trunclayleigh_link(x, logsf, phat, i):
     c, loc, scale = phat
     if i == 0:
         x_norm = (x - loc) / scale
-        return - 2 * logsf / x_norm - x_norm / 2.0
+        return - logsf / x_norm - x_norm / 2.0
     if i == 2:
-        return x - loc / (np.sqrt(c * c - 2 * logsf) - c)
+        return (x - loc) / (np.sqrt(c * c - 2 * logsf) - c)
     if i == 1:
         return x - scale * (np.sqrt(c * c - 2 * logsf) - c)
     raise IndexError('Index to the fixed parameter is out of bounds')
@@ -212,7 +212,7 @@ LINKS = dict(expon=_expon_link,
              genexpon=_genexpon_link,
              gumbel_r=_gumbel_r_link,
              rayleigh=_rayleigh_link,
-             trunclayleigh=_trunclayleigh_link,
+             truncrayleigh=_trunclayleigh_link,
              genextreme=_genextreme_link,
              exponweib=_exponweib_link,
              burr=_burr_link)
-- 
2.43.0


From 756cc089d308c79ef234a6e76e98c9954b7ab8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 096/134] fix: the optimizer of fit2 could not be given by name
 (NameError)

---
 src/wafo/stats/_distn_infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index b15bbe4..3837e20 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -275,7 +275,7 @@ def _reduce_func2(self, args, kwds):
 def _get_optimizer(kwds):
     optimizer = kwds.pop('optimizer', optimize.fmin)
     # convert string to function in scipy.optimize
-    if not callable(optimizer) and isinstance(optimizer, string_types):
+    if not callable(optimizer) and isinstance(optimizer, str):
         if not optimizer.startswith('fmin_'):
                 optimizer = '_'.join(("fmin", optimizer))
         try:
-- 
2.43.0


From e41c299802f17740415a011b5f64a28f7031f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 097/134] fix: mean, variance, skewness and kurtosis of
 truncrayleigh were those of c=0

---
 src/wafo/stats/distributions.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..3a513ab 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -188,7 +188,8 @@ class truncrayleigh_gen(rv_continuous):
             n = len(data)
             args = (np.sqrt(np.sum(data**2)/n/2),) # Initial guess (MLE with c=0)
 
-        return args + self.fit_loc_scale(data, *args)
+        # start from the location and scale of the Rayleigh distribution (c=0)
+        return args + self.fit_loc_scale(data, 0.0)
 
     def _pdf(self, r, c):
         rc = r + c
@@ -213,13 +214,15 @@ class truncrayleigh_gen(rv_continuous):
         return np.sqrt(c * c - 2 * sc.log1p(-q)) - c  #pylint: disable=no-member
 
     def _stats(self, c):
-        # TODO: correct this it is wrong!
-        pi = np.pi
-        val = 4 - pi
-        return (np.sqrt(pi / 2),
-                val / 2,
-                2 * (pi - 3) * np.sqrt(pi) / val ** 1.5,
-                6 * pi / val - 16 / val ** 2)
+        mean = np.sqrt(np.pi / 2) * sc.erfcx(c / np.sqrt(2))
+        # raw moments
+        mom2 = 2 * (1 - c * mean)
+        mom3 = 3 * (mean * (1 + c ** 2) - c)
+        mom4 = 4 * (2 + c ** 2 - mean * c * (3 + c ** 2))
+        var = mom2 - mean ** 2
+        skew = (mom3 - 3 * mean * mom2 + 2 * mean ** 3) / var ** 1.5
+        kurt = (mom4 - 4 * mean * mom3 + 6 * mean ** 2 * mom2 - 3 * mean ** 4) / var ** 2 - 3
+        return mean, var, skew, kurt
 
     def _entropy(self, c):
         # TODO: correct this it is wrong!
-- 
2.43.0


From c14f9bdf80a8b2336c1a74299b2520810c252513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 098/134] fix: entropy of truncrayleigh was that of c=0

---
 src/wafo/stats/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 3a513ab..e3702fe 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -225,8 +225,10 @@ class truncrayleigh_gen(rv_continuous):
         return mean, var, skew, kurt
 
     def _entropy(self, c):
-        # TODO: correct this it is wrong!
-        return _EULER / 2.0 + 1 - 0.5 * np.log(2)
+        a = c ** 2 / 2.0
+        with np.errstate(divide='ignore', invalid='ignore'):
+            log_rc = np.log(c) + 0.5 * sc.hyperu(1, 1, a)  # mean of log(r + c)
+        return np.where(c > 0, 1 - log_rc, _EULER / 2.0 + 1 - 0.5 * np.log(2))
 
 
 truncrayleigh = truncrayleigh_gen(a=0.0, name="truncrayleigh", shapes='c')
-- 
2.43.0


From 4a2bd196b2f10349423d8159387d83370d0d3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 099/134] fix: pbinom.rvs raised TypeError

---
 src/wafo/stats/distributions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index e3702fe..b04803a 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -277,9 +277,8 @@ class pbinom(rv_discrete):
         pass
 
 
-    def _rvs(self):
-        n = self._size
-        return sum((self._random_state.binomial(1, p) for p in self.probabilities))
+    def _rvs(self, size=None, random_state=None):
+        return sum((random_state.binomial(1, p, size=size) for p in self.probabilities))
 
     def _pmf(self, x):
         return self._pmf_values[x]
-- 
2.43.0


From d6d098661d4007456b2f71bcf00346a1c5a84b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:11 +0000
Subject: [PATCH 100/134] fix: pmf, cdf and sf of pbinom raised IndexError for
 real arguments

---
 src/wafo/stats/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index b04803a..f21cae5 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -281,14 +281,14 @@ class pbinom(rv_discrete):
         return sum((random_state.binomial(1, p, size=size) for p in self.probabilities))
 
     def _pmf(self, x):
-        return self._pmf_values[x]
+        return self._pmf_values[np.asarray(x, dtype=int)]
 
     def _sf(self, x):
         # val = super(pbinom, self)._sf(x)
-        return self._sf_values[x+1]
+        return self._sf_values[np.asarray(np.floor(x), dtype=int) + 1]
 
     def _cdf(self, x):
-        return self._cdf_values[x]
+        return self._cdf_values[np.asarray(np.floor(x), dtype=int)]
         # x = int(np.floor(x))
         # return sum((self._pmf(i) for i in range(0, x+1)))
 
-- 
2.43.0


From 40605c55b08adbb21d59914d19248d0a77cbf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:11 +0000
Subject: [PATCH 101/134] fix: maximum product of spacings fit of unsorted data
 was wrong

---
 src/wafo/stats/_distn_infrastructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index 3837e20..6817370 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -415,6 +415,8 @@ def fit(self, data, *args, **kwargs):
 
 
 def _fit(self, data, *args, **kwargs):
+    if kwargs.get('method', 'ml').lower().startswith('mps'):
+        data = np.sort(data, axis=None)  # spacings are between neighbours
     args, kwds = _fitstart(self, data, args, kwargs.copy())
     x0, func, restore, args, fixedn = self._reduce_func2(args, kwds)
     if kwds.pop('search', True):
-- 
2.43.0


From 55f0cb9a40eebdc363cdbbcf7ea38363392524d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:28 +0000
Subject: [PATCH 102/134] fix: profile stopped short of the maximum when a
 parameter was near zero

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 20de82a..9720677 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -345,7 +345,7 @@ class _CommonProfile:
         with np.errstate(divide='ignore', invalid='ignore'):
             phatfree = optimize.minimize(self._profile_fun, phatfree0, args=(p_opt,),
                                          method='Nelder-Mead',
-                                         options=dict(disp=0))
+                                         options=dict(disp=0, fatol=1e-8))
         profile_max = -self._profile_fun(phatfree.x, p_opt)
         self._correct_profile_max(profile_max, phatfree.x, p_opt)
         return profile_max, phatfree.x
-- 
2.43.0


From 95cb03d075cc4d64b41437f88c585739e7e3f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:42 +0000
Subject: [PATCH 103/134] fix: cdfnorm2d of arrays with weak and strong
 correlations was wrong

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 08bc1ef..5c4bf15 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -901,7 +901,7 @@ def cdfnorm2d(b1, b2, r):
                                        (1 + c[k6] * xs[k6] *
                                         (1 + d[k6] * xs[k6]))))
 
-            bvn[k3] = -bvn[k3] / twopi
+            bvn[k13] = -bvn[k13] / twopi
 
         k7, = nonzero(r[k1] > 0)
         if len(k7):
-- 
2.43.0


From b79d7508b0b850cb4d3ac498887b13a7daece19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:42 +0000
Subject: [PATCH 104/134] fix: cdfnorm2d used the rule for weak correlation
 with strong negative correlation

---
 src/wafo/gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 5c4bf15..4f1cc74 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -823,7 +823,8 @@ def cdfnorm2d(b1, b2, r):
     if len(k0) > 0:
         hs = (h[k0] ** 2 + k[k0] ** 2) / two
         asr = arcsin(r[k0])
-        k1, = nonzero(r[k0] >= 0.75)
+        absr = abs(r[k0])
+        k1, = nonzero(absr >= 0.75)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(10):
@@ -832,7 +833,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W20[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero((0.3 <= r[k0]) & (r[k0] < 0.75))
+        k1, = nonzero((0.3 <= absr) & (absr < 0.75))
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(6):
@@ -841,7 +842,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W12[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero(r[k0] < 0.3)
+        k1, = nonzero(absr < 0.3)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(3):
-- 
2.43.0


From 29b9d79d104f837c8b633a62a6f5f4c45529eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:42 +0000
Subject: [PATCH 105/134] fix: prbnorm2d returned one when only one variable
 was unbounded

---
 src/wafo/gaussian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 4f1cc74..a3111fb 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -964,6 +964,11 @@ def prbnorm2d(a, b, r):
     correl = r
     infin = np.repeat(2, 2) - (upper > infinity) - 2 * (lower < -infinity)
 
+    if infin[0] < 0:
+        return fi(upper[1]) - fi(lower[1])
+    if infin[1] < 0:
+        return fi(upper[0]) - fi(lower[0])
+
     if np.all(infin == 2):
         return (bvd(lower[0], lower[1], correl) -
                 bvd(upper[0], lower[1], correl) -
-- 
2.43.0


From 5bef8df3b70d7e23a3a523d8c92cd509d6d1f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 106/134] fix: prbnormnd ignored allow_singular

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index a3111fb..b79a731 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -719,7 +719,7 @@ def prbnormnd(correl, a, b, abseps=1e-4, releps=1e-3, maxpts=None, allow_singula
         raise ValueError('This is not a correlation matrix')
 
     return mvn.cdf(b, cov=correl,
-                   allow_singular=False,
+                   allow_singular=allow_singular,
                    maxpts=maxpts,
                    abseps=abseps,
                    releps=releps,
-- 
2.43.0


From 9ea9e4b862bd2019d7e43ab71e0563ae2b935803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 107/134] fix: prbnormtndpc wrote outside its arrays when a
 variable was unbounded

---
 source/mvnprd/mvnprd_interface.f | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/mvnprd/mvnprd_interface.f b/source/mvnprd/mvnprd_interface.f
index d97a1a1..0168112 100644
--- a/source/mvnprd/mvnprd_interface.f
+++ b/source/mvnprd/mvnprd_interface.f
@@ -47,13 +47,20 @@ CCf2py intent(in) A,B,rho
            else if (B(K)-D(K).GE.INFINITY) THEN
               INFIN(Ndim) = 0
            endif
-           if (ndim<k) then
+           if (0<ndim .and. ndim<k .and. (-INFINITY<A(K)-D(K)
+     &         .or. B(K)-D(K)<INFINITY)) then
               RHO(Ndim) = RHO(k)
               A(Ndim) = A(K)
               B(Ndim) = B(K)
 C              D(Ndim) = D(K)
            endif
       ENDDO
+      if (Ndim.EQ.0) then
+         PRB = 1.0d0
+         BOUND = 0.0d0
+         IFAULT = 0
+         return
+      endif
       CALL MVSTUD(NDF,B,A,RHO,ABSEPS,Ndim,INFIN,D,IERC,HNC,
      & PRB,BOUND,IFAULT)
 
-- 
2.43.0


From 5a9cf94e57d330b2d815f65b097d8159cfc44b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 108/134] fix: prbnormtndpc overwrote the correlations it was
 given

---
 src/wafo/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index b79a731..3a6a6db 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -537,7 +537,8 @@ def prbnormtndpc(rho, a, b, d=None, df=0, abseps=1e-4, ierc=0, hnc=0.24):
     aa = np.clip(a - d, -100, 100)
     bb = np.clip(b - d, -100, 100)
 
-    return mvnprdmod.prbnormtndpc(rho, aa, bb, df, abseps, ierc, hnc)
+    # The integrator overwrites rho if some variables are unbounded
+    return mvnprdmod.prbnormtndpc(np.array(rho, dtype=float), aa, bb, df, abseps, ierc, hnc)
 
 
 def prbnormndpc(rho, a, b, abserr=1e-4, relerr=1e-4, usesimpson=True,
-- 
2.43.0


From 78b6299ef0af64b9f7b3cb2c42b09a357ef4e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:26 +0000
Subject: [PATCH 109/134] fix: prbnormtndpc stopped where the integrand
 happened to cross zero

---
 source/mvnprd/mvnprd.f | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index a74a4c9..104e433 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -374,7 +374,10 @@ C
       IF ((FUNC0 .GT. ZERO .AND. FUNC2 .LE. FUNC0) .OR.
      *    (FUNC0 .LT. ZERO .AND. FUNC2 .GE. FUNC0)) THEN
          ZZ = -SQRT2 * Z5
-         PART3 = ABS(FUNC2) * ALNORM(ZZ, .FALSE.) + BOUND / ERFAC
+C        WITH ADDN < 0 THE FUNCTION MAY CHANGE SIGN FURTHER OUT, AND
+C        A SMALL VALUE HERE DOES NOT MEAN THAT THE REST IS SMALL.
+         PART3 = MAX(ABS(FUNC2), -ADDN) * ALNORM(ZZ, .FALSE.)
+     *         + BOUND / ERFAC
          IF (PART3 .LE. EPS .OR. NTM .GE. NMAX .OR. Z5 .GE. ZU) GOTO 100
       END IF
       Z = Z5
-- 
2.43.0


From 36069f9754828618c57b9ad20b2dd886db79d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 110/134] fix: rind dropped bounded variables as if they were
 redundant

---
 source/rind2007/rindmod.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/rind2007/rindmod.f b/source/rind2007/rindmod.f
index bc5c1c3..7d2bc6c 100644
--- a/source/rind2007/rindmod.f
+++ b/source/rind2007/rindmod.f
@@ -1747,7 +1747,8 @@
             isXd = (INDEX1(JMIN)>Nt)
             IF (isXd) THEN
                Ndleft = Ndleft - 1
-            ELSEIF (BCVSRT.EQV..FALSE..AND.(PRBMIN+LTOL>=gONE)) THEN
+            ELSEIF ((BCVSRT.EQV..FALSE.)
+     &              .AND.(PRBMIN+LTOL>=gONE)) THEN
 !BCVSRT.EQ.
                J = 1
                AJ = R(J,JMIN)*xCut
-- 
2.43.0


From 750429096891c162b0ed3212a92786a83b6526c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 111/134] fix: rind returned an undefined error where nothing
 was left to integrate

---
 source/rind2007/rindmod.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/rind2007/rindmod.f b/source/rind2007/rindmod.f
index 7d2bc6c..ae8e03c 100644
--- a/source/rind2007/rindmod.f
+++ b/source/rind2007/rindmod.f
@@ -907,6 +907,7 @@
      &        fxc,value,abserr,NDIM,inform)
 
 
+         ABSERR2 = mSmall
          IF (INFORM.GT.0) GO TO 100
 
          MAXPTS  = mMAXPTS
-- 
2.43.0


From 219558c40172bc4fb079dffbc13a97ed60648d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 112/134] fix: prbnormtndpc of Student's t missed its tolerance
 by far

---
 source/mvnprd/mvnprd.f | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index 104e433..49121b6 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -946,8 +946,9 @@ C
 C
 C        STOP BISECTING WHEN ACCURACY SUFFICIENT, OR IF
 C        INTERVAL TOO NARROW OR BISECTED TOO OFTEN.
+C        (ESTIMATES FROM A FEW POINTS MAY AGREE BY ACCIDENT.)
 C
-      IF (DLG .LE. EPS1) GO TO 50
+      IF (DLG .LE. EPS1 .AND. LVL .GE. 4) GO TO 50
       IF (ABS(DX) .LE. DXMIN .OR. LVL .GE. 30) GO TO 40
 C
 C        RAISE LEVEL.  STORE INFORMATION FOR RIGHT HALF
-- 
2.43.0


From 3df0b26bf28d3013f1597104cc1e0dc3952d4918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:19 +0000
Subject: [PATCH 113/134] fix: findpeaks failed on rows without turning points

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index ecb7cc1..19fb321 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1195,7 +1195,7 @@ def findpeaks(data, n=2, min_h=None, min_p=0.0):
     ind = []
     for iy in range(nrows):  # find all peaks
         tp = findtp(data1[iy], min_h)
-        if len(tp):
+        if tp is not None and len(tp):
             ind = tp[1::2]  # extract indices to maxima only
         else:  # did not find any , try maximum
             ind = np.atleast_1d(data1[iy].argmax())
-- 
2.43.0


From fd96c442bdb031fc3e39d03afb99564fded95d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 114/134] fix: moving_average truncated integer data, and
 failed for lists

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 19fb321..f5170a4 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -853,13 +853,13 @@ def moving_average(x, L, axis=0):
     _assert(L == np.round(L), 'L must be an integer')
 
     x1 = np.atleast_1d(x)
-    axes = np.arange(x.ndim)
+    axes = np.arange(x1.ndim)
 
     axes[0] = axis
     axes[axis] = 0
 
     x1 = np.transpose(x1, axes)
-    y = np.empty_like(x1)
+    y = np.empty_like(x1, dtype=np.result_type(x1, float))
 
     n = x1.shape[0]
     if n < 2 * L + 1:  # only able to remove the mean
-- 
2.43.0


From 1169f9fd265eb7e7accbee2619dc67e75745ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 115/134] fix: findoutliers was misled by a missing first value

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index f5170a4..7e08548 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1717,7 +1717,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     _assert(2 < xn.size, 'The vector must have more than 2 elements!')
 
     i_missing = _find_nans(xn)
-    if np.any(i_missing):
+    if i_missing.size > 0:
         xn[i_missing] = 0.  # set NaN's to zero
     if dcrit is None:
         dcrit = 1.5 * xn.std()
-- 
2.43.0


From 5f9f8498bd1cf359d76f28f14ec4a23b6469f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 116/134] fix: findoutliers called a single spurious point good
 as well

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 7e08548..a538538 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1737,7 +1737,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                      _find_consecutive_equal_values(dxn, zcrit)))
 
     indg = ones(xn.size, dtype=bool)
-    if ind.size > 1:
+    if ind.size > 0:
         ind = np.unique(ind)
         indg[ind] = 0
     indg, = np.nonzero(indg)
-- 
2.43.0


From 7f9d92abe94b80a88045eb9e8b9ec7c792b52afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 117/134] fix: findoutliers kept the first of the equal points
 a record starts with

---
 src/wafo/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index a538538..5e8df23 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1709,7 +1709,10 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
             # indices to consecutive equal points
             # removing the point before + all equal points + the point after
 
-            return np.hstack((i_step - 1, i_small, i_step, i_step + 1))
+            # (a record that starts with equal points has none before them)
+            i_first = np.arange(int(mask_small[0]))
+
+            return np.hstack((i_first, i_step - 1, i_small, i_step, i_step + 1))
         return i_small
 
     xn = np.asarray(x).flatten()
-- 
2.43.0


From b7c00f9974b886fb3f824de6ad3f8721fb205bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 118/134] fix: fourier changed the shape of the caller's time
 vector

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 5e8df23..7afbcc9 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2896,7 +2896,7 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-    t.shape = (1, -1)
+    t = t.reshape((1, -1))
     a = zeros((m, p))
     b = zeros((m, p))
     a[0] = intfun(x, t, axis=-1)
-- 
2.43.0


From b0462aa9a139885653279ac5f67f0c0886644127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 119/134] fix: fourier scaled every coefficient as if the
 period was 2*pi

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 7afbcc9..79af697 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2907,8 +2907,8 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
         a[i] = intfun(x * cos(i * tmp), t, axis=-1)
         b[i] = intfun(x * sin(i * tmp), t, axis=-1)
 
-    a = a / pi
-    b = b / pi
+    a = a * 2 / period
+    b = b * 2 / period
 
     # Alternative:  faster for large M, but gives different results than above.
 #    nper = np.diff(t([1 end]))/period; # Number of periods given
-- 
2.43.0


From 160837b47d1e8aab081b3a7b4aa4366d6bd173d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 120/134] fix: getshipchar gave a spread to the deadweight it
 was given

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 79af697..b8fa54a 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1913,7 +1913,7 @@ def _get_max_deadweight(**ship_property):
     name = names[0]
     value = np.array(ship_property[name])
     valid_props = dict(le='length', be='beam', dr='draught',
-                       ma='max_deadweigth',
+                       ma='max_deadweight',
                        se='service_speed', pr='propeller_diameter')
     prop = valid_props[name[:2]]
     prop2max_dw = dict(length=lambda x: (x / 3.45) ** (2.5),
-- 
2.43.0


From 9dda8c9a047dc5b653a773f0ca711d5d90030132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:26 +0000
Subject: [PATCH 121/134] fix: PlotData.eval_points failed for data on a grid

---
 src/wafo/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 3371809..ff69af5 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -150,7 +150,7 @@ class PlotData(object):
                 Unless you fix this, the interpolation will not work!'''
                 warnings.warn(msg)
             else:
-                xi = np.meshgrid(*self.args)
+                xi = tuple(x.ravel() for x in np.meshgrid(*self.args))
                 return interpolate.griddata(xi, self.data.ravel(), points,
                                             **options)
         # One dimensional data
-- 
2.43.0


From c223e573e8726e8a26407aa76ea1a842215c8fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:49 +0000
Subject: [PATCH 122/134] fix: plotflag2transform_id named the wrong transforms

---
 src/wafo/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index ff69af5..cf8e122 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -506,9 +506,9 @@ def plotflag2transform_id(plotflag):
     transform_id = np.mod(plotflag // 10, 10)
     return ['f', '1-f',
             'cumtrapz(f)', '1-cumtrapz(f)',
-            'log(f)', 'log(1-f)'
-            'log(cumtrapz(f))', 'log(cumtrapz(f))',
-            'log10(f)'][transform_id]
+            'log(f)', 'log(1-f)',
+            'log(cumtrapz(f))', 'log(1-cumtrapz(f))',
+            '10log10(f)'][transform_id]
 
 
 def transform_id2plotflag2(transform_id):
-- 
2.43.0


From 6abce5b7c3893d3c98ae789c05013b8fc4e615c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 123/134] fix: plots of integrated data failed

---
 src/wafo/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index cf8e122..31c7c5e 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -373,7 +373,8 @@ class Plotter_1d(object):
         dataCI = getattr(wdata, 'dataCI', ())
         if dataCI:
             dataCI = transformdata_1d(x, dataCI, plotflag)
-        h1 = plot1d(axis, x, data, dataCI, plotflag, *args, **kwds)
+        # the integral is given from the second point on
+        h1 = plot1d(axis, x[-len(data):], data, dataCI, plotflag, *args, **kwds)
         return h1
     __call__ = plot
 
-- 
2.43.0


From 8812b35a3b150dac9f47a9b0fe17ff7af6aea1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:52 +0000
Subject: [PATCH 124/134] fix: RegLogit accepted integer columns of responses
 only

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index f2db49e..a514875 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -885,7 +885,7 @@ class RegLogit(object):
         self.date = now()
 
     def check_xy(self, y, X):
-        y = np.round(np.atleast_2d(y))
+        y = np.round(np.reshape(y, (-1, 1))).astype(int)
         my = y.shape[0]
         if X is None:
             X = np.zeros((my, 0))
-- 
2.43.0


From 4499253104b38cc367e9cf745189b1c381f3e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 125/134] fix: RegLogit kept colinear covariates, and warned
 when there were none

---
 src/wafo/stats/core.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index a514875..6b0f4bb 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -892,11 +892,12 @@ class RegLogit(object):
         elif self.deletecolinear:
             X = np.atleast_2d(X)
             # Make sure X is full rank
-            s = np.linalg.svd(X)[1]
-            tol = max(X.shape) * np.finfo(s.max()).eps
-            ix = np.flatnonzero(s > tol)
-            iy = np.flatnonzero(s <= tol)
-            if len(ix):
+            ix = []  # independent columns
+            for k in range(X.shape[1]):
+                if np.linalg.matrix_rank(X[:, ix + [k]]) > len(ix):
+                    ix.append(k)
+            iy = np.setdiff1d(np.arange(X.shape[1]), ix)
+            if len(iy):
                 X = X[:, ix]
                 txt = [' %d,' % i for i in iy]
                 #txt[-1] = ' %d' % iy[-1]
-- 
2.43.0


From 7d2fd77f4c926a5c2d83d82695f4fdb897c4fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 126/134] fix: RegLogit failed when starting values were given

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 6b0f4bb..40423a2 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -967,7 +967,7 @@ class RegLogit(object):
 
         epsilon = np.std(d2l) / 1000
         if np.any(beta0) or np.any(theta00 != theta0):
-            tb0 = np.vstack((theta00, beta00))
+            tb0 = np.hstack((theta00, beta00))
             nulldev = self.loglike(tb0, y, X, z, z1)[0]
         else:
             nulldev = dev
-- 
2.43.0


From a4f7cd8653bff97b6202a552610d0fcb59983e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:39 +0000
Subject: [PATCH 127/134] fix: RegLogit failed where a Newton step was too long

---
 src/wafo/stats/core.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 40423a2..97575a3 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -976,21 +976,22 @@ class RegLogit(object):
         for i in range(self.maxiter + 1):
 
             tbold = tb
-            devold = dev
+            devold, dlold, d2lold = dev, dl, d2l
             tb = tbold - np.linalg.lstsq(d2l, dl)[0]
             [dev, dl, d2l] = self.loglike(tb, y, X, z, z1)
-            if ((dev - devold) / np.dot(dl, tb - tbold) < 0):
+            if dev <= devold + tol:
                 epsilon = epsilon / decr
-            else:
-                while ((dev - devold) / np.dot(dl, tb - tbold) > 0):
-                    epsilon = epsilon * incr
-                    if (epsilon > 1e+15):
+            else:  # nan is no improvement either
+                while not dev <= devold + tol:
+                    epsilon = max(epsilon, tol) * incr
+                    if not epsilon <= 1e+15:
                         raise ValueError('epsilon too large')
 
-                    tb = tbold - \
-                        np.linalg.lstsq(d2l - epsilon * np.eye(d2l.shape), dl)
+                    tb = tbold - np.linalg.lstsq(
+                        d2lold - epsilon * np.eye(len(dlold)), dlold)[0]
                     [dev, dl, d2l] = self.loglike(tb, y, X, z, z1)
-                    print('epsilon %g' % epsilon)
+                    if self.verbose > 1:
+                        print('epsilon %g' % epsilon)
                     # end %while
                     # end else
             #[dl, d2l] = logistic_regression_derivatives (X, z, z1, g, g1, p);
-- 
2.43.0


From 62d5441048c8bb0adf48f6e0a9645a17e7af7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 128/134] fix: RegLogit mixed up the fitted probabilities of
 several covariates

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 97575a3..0847602 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1018,7 +1018,7 @@ class RegLogit(object):
         se = sqrt(np.diag(pcov))
 
         if (nx > 0):
-            eta = ((X * beta) * ones((1, nz))) + ((y * 0 + 1) * theta)
+            eta = np.dot(X, beta).reshape(-1, 1) + theta
         else:
             eta = (y * 0 + 1) * theta
             # end
-- 
2.43.0


From 41d6761fa9a4c6b4e368feca5db8d415cd561352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 129/134] fix: RegLogit took the expected response from the
 ranks of the categories

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 0847602..f9dd12e 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1024,8 +1024,7 @@ class RegLogit(object):
             # end
         gammai = np.diff(
             np.hstack(((y * 0), _logitinv(eta), (y * 0 + 1))), n=1, axis=1)
-        k0 = min(y)
-        mu = (k0 - 1) + np.dot(gammai, np.arange(1, nz + 2)).reshape(-1, 1)
+        mu = np.dot(gammai, np.unique(y)).reshape(-1, 1)
         r = np.corrcoef(np.hstack((y, mu)).T)
         R2 = r[0, 1] ** 2
         # coefficient of determination
-- 
2.43.0


From 6d7b855a74d18359e2dc86cef33668ab13fdccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 130/134] fix: RegLogit.compare refused every pair of models

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index f9dd12e..f2e9e7a 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1122,7 +1122,7 @@ class RegLogit(object):
                 As = self.X
             # end
 
-            if (((As - np.dot(Al, np.linalg.lstsq(Al, As))) > 500 * _EPS).any() or
+            if (((As - np.dot(Al, np.linalg.lstsq(Al, As)[0])) > 500 * _EPS).any() or
                     object2.family != self.family or object2.link != self.link):
                 warnings.warn('Small model not included in large model,' +
                     ' result is rubbish!')
-- 
2.43.0


From ec59ec220a72820c6ffaa1bc42505c2ed77db14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 131/134] fix: RegLogit.anode counted thresholds as covariates

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index f2e9e7a..0238b3d 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1163,7 +1163,7 @@ class RegLogit(object):
         else:
             localstat = abs(
                 self.deviance_null - self.deviance) / self.dispersionfit
-            localpvalue = 1 - _cdfchi2(localstat, self.numvar - 1)
+            localpvalue = 1 - _cdfchi2(localstat, self.df_null - self.df)
             print('Model    DF      Residual deviance      Chi2-stat' +
                   '        Pr(>Chi2)')
         # end
-- 
2.43.0


From d7c7dedcf914b29e29a09cf9743ac805ece4e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 132/134] fix: RegLogit.summary failed without covariates, and
 called one a threshold

---
 src/wafo/stats/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 0238b3d..e057673 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1201,15 +1201,16 @@ class RegLogit(object):
         # end
         e, s, z, p = (self.params, self.params_std, self.params_tstat,
                       self.params_pvalue)
-        for i in range(self.numk):
+        nz = self.numk - 1
+        for i in range(nz):
             print(
                 'theta_%d         %2.4f        %2.4f        %2.4f        %2.4f' %
                 (i, e[i], s[i], z[i], p[i]))
 
-        for i in range(self.numk, self.numvar):
+        for i in range(nz, self.numvar):
             print(
                 ' beta_%d         %2.4f        %2.4f        %2.4f        %2.4f\n' %
-                (i - self.numk, e[i], s[i], z[i], p[i]))
+                (i - nz, e[i], s[i], z[i], p[i]))
 
         print(' ')
         print('(Dispersion parameter for %s family taken to be %2.2f)' %
-- 
2.43.0


From c316a04eb4c0eb7a487c23a27e22c0b5966e985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:40 +0000
Subject: [PATCH 133/134] fix: RegLogit.predict used a wrong variance for more
 than two categories

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index e057673..fc6f7a6 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1281,7 +1281,7 @@ class RegLogit(object):
                 for i in range(nz):
                     ib[0] = i
                     vareta[:, i] = np.maximum(
-                        ((np.dot(u, R[ib][:, ib])) ** 2).sum(axis=1), eps)
+                        ((np.dot(u, R[ib])) ** 2).sum(axis=1), eps)
                     # end
             else:
                 vareta = np.diag(pcov)
-- 
2.43.0


From 6f3b4f58f8af9a055834444e0aed13a43f617225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:00 +0000
Subject: [PATCH 134/134] fix: RegLogit gave a matrix of deviance residuals

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index fc6f7a6..c113958 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -1069,7 +1069,7 @@ class RegLogit(object):
         self.beta = beta
         self.gamma = gammai
         self.residual = res.T
-        self.residualD = np.sign(self.residual) * sqrt(-2 * np.log(p))
+        self.residualD = np.sign(self.residual) * sqrt(-2 * np.log(p.T))
         self.deviance = dev
         self.deviance_null = nulldev
         self.d2L = d2l
-- 
2.43.0

