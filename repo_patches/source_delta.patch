From 7cd2603bb79004733a6957f02ed0d1e701ae8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 001/161] fix: findrfc reads past the end of turning point
 sequences of even or tiny length

---
 source/c_library/c_functions.c | 15 ++++++++++-----
 src/wafo/_misc_numba.py        |  5 +++--
 src/wafo/misc.py               |  6 ++++--
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 352c0ad..6d83e93 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -17,10 +17,14 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    double xminus, xplus, Tpl, Tmi, *y, Tstart;
    int i, j, ix=0, NC, iy;
    info[0] = 0;
+   if (n<2){
+      return; /* No RFC cycles*/
+   }
    if (*(y1+0)> *(y1+1)){
    /* if first is a max , ignore the first max*/
       y=&(*(y1+1));
-      NC=floor((n-1)/2);
+      n=n-1;
+      NC=floor(n/2);
       Tstart=1;
    }
    else {
@@ -34,11 +38,11 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
    }
 
 
-   if (( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
+   if ((n>2) && ( *(y+0) > *(y+1)) && ( *(y+1) > *(y+2)) ){
       info[0] = -1;
       return; /*This is not a sequence of turningpoints, exit */
    }
-   if ((*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
+   if ((n>2) && (*(y+0) < *(y+1)) && (*(y+1)< *(y+2))){
       info[0]=-1;
       return; /*This is not a sequence of turningpoints, exit */
    }
@@ -49,7 +53,8 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       Tmi=Tstart+2*i;
       Tpl=Tstart+2*i+2;
       xminus=*(y+2*i);
-      xplus=*(y+2*i+2);
+      /* an even sequence ends with a maximum, which has no minimum after it */
+      xplus=(2*i+2<n) ? *(y+2*i+2) : xminus;
 
       if(i!=0){
      j=i-1;
@@ -74,7 +79,7 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
       j=i+1;
       while((j<NC) ) {
      if (*(y+2*j+1) >= *(y+2*i+1)) goto L170;
-     if( (*(y+2*j+2) <= xplus) ){
+     if( (2*j+2<n) && (*(y+2*j+2) <= xplus) ){
         xplus=*(y+2*j+2);
         Tpl=(Tstart+2*j+2);
      }/*if*/
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 9b3f85c..f8cc6db 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -172,7 +172,8 @@ def _findrfc(ind, y, h):
         Tmi = t_start + 2 * i
         Tpl = t_start + 2 * i + 2
         xminus = y[2 * i]
-        xplus = y[2 * i + 2]
+        # an even sequence ends with a maximum, which has no minimum after it
+        xplus = y[2 * i + 2] if 2 * i + 2 < n else xminus
 
         if(i != 0):
             j = i - 1
@@ -193,7 +194,7 @@ def _findrfc(ind, y, h):
             while (j < nc):
                 if (y[2 * j + 1] >= y[2 * i + 1]):
                     break  # goto L170
-                if((y[2 * j + 2] <= xplus)):
+                if 2 * j + 2 < n and y[2 * j + 2] <= xplus:
                     xplus = y[2 * j + 2]
                     Tpl = (t_start + 2 * j + 2)
                 j += 1
diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 296f95f..fe8f4ae 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1318,6 +1318,8 @@ def findrfc(tp, h=0.0, method='clib'):
     findtp.
     '''
     y = np.atleast_1d(tp).ravel()
+    if len(y) < 2:
+        return zeros(0, dtype=int)  # No RFC cycles*/
 
     t_start = int(y[0] > y[1])  # first is a max, ignore it
     y = y[t_start::]
@@ -1327,8 +1329,8 @@ def findrfc(tp, h=0.0, method='clib'):
     if nc < 1:
         return zeros(0, dtype=int)  # No RFC cycles*/
 
-    if (y[0] > y[1] and y[1] > y[2] or
-            y[0] < y[1] and y[1] < y[2]):
+    if n > 2 and (y[0] > y[1] and y[1] > y[2] or
+                  y[0] < y[1] and y[1] < y[2]):
         warnings.warn('This is not a sequence of turningpoints, exit')
         return zeros(0, dtype=int)
 
-- 
2.43.0


From 6eaabe1284e3cae466efb52f3efe924b0773cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 002/161] fix: findcross reads the first element of an empty
 sequence

---
 source/c_library/c_functions.c | 4 ++++
 src/wafo/_misc_numba.py        | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 6d83e93..1de23be 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -134,6 +134,10 @@ void findrfc(double *y1,double hmin, int *ind, int n,int *info) {
 void findcross(double *y, double v, int *ind, int n, int *info)
 { int i,start, ix=0,dcross=0;
     start=0;
+    if (n<1) {
+        info[0] = 0;
+        return;
+    }
     if  ( y[0]< v){
         dcross=-1; /* first is a up-crossing*/
     }
diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index f8cc6db..1e8c7b7 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -41,6 +41,8 @@ def _findcross(ind, y):
     """
     ix, dcross, start, v = 0, 0, 0, 0
     n = len(y)
+    if n < 1:
+        return 0
     if y[0] < v:
         dcross = -1  # first is a up-crossing
     elif y[0] > v:
-- 
2.43.0


From e0f49861266107ada355000271475ea53ab23a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 003/161] fix: rainflow filter and ASTM counting reject integer
 loads

---
 src/wafo/_misc_numba.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 1e8c7b7..20cbdae 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -244,6 +244,7 @@ def findrfc(y, h, method=0):
     Method 0 and 1 is the same implementation as found in rfcfilter.m in matlab.
     Method 2 is the same implementation as found in findrfc function found in c_functions.c.
     """
+    y = np.asarray(y, dtype=float)
     n = len(y)
     t = np.zeros(n, dtype=np.int64)
     findrfc_ = [_findrfc_le, _findrfc_lt, _findrfc][method]
@@ -606,14 +607,14 @@ def findrfc_astm(tp, t=None):
         sig_rfc[:,4] cycle_period_time (only if t is given)
     """
 
-    y1 = np.atleast_1d(tp).ravel()
+    y1 = np.atleast_1d(tp).ravel().astype(float)
     n = len(y1)
     a = np.zeros(n)
     if t is None:
         sig_rfc = np.zeros((n, 3))
         cnr = _findrfc3_astm(y1, a, sig_rfc)
     else:
-        t1 = np.atleast_1d(t).ravel()
+        t1 = np.atleast_1d(t).ravel().astype(float)
         sig_rfc = np.zeros((n, 5))
         t2 = np.zeros(n)
         cnr = _findrfc5_astm(y1, t1, a, t2, sig_rfc)
-- 
2.43.0


From 98550a1e0fbbc2bfad28f7307de833743362e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:14 +0000
Subject: [PATCH 004/161] fix: findtp raises IndexError when the rainflow
 filter removes every cycle of a wave

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index fe8f4ae..8add37a 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1491,7 +1491,7 @@ def findtp(x, h=0.0, kind=None, method='clib'):
         ind1 = findrfc(x[ind], h, method)
         ind = ind[ind1]
 
-    if kind in ('mw', 'Mw'):
+    if kind in ('mw', 'Mw') and ind.size > 1:
         # make sure that the first is a Max if wdef == 'Mw'
         # or make sure that the first is a min if wdef == 'mw'
         first_is_max = (x[ind[0]] > x[ind[1]])
-- 
2.43.0


From 9406512aee1573f6389a8944667c432f507b3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:28 +0000
Subject: [PATCH 005/161] fix: TimeSeries and TurningPoints cannot be made
 without a time axis

---
 src/wafo/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 9a494eb..4dbcb5a 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1114,7 +1114,7 @@ class TurningPoints(PlotData):
         options.update(**kwds)
         super(TurningPoints, self).__init__(*args, **options)
 
-        if not any(self.args):
+        if self.args is None or not any(self.args):
             n = len(self.data)
             self.args = range(0, n)
         else:
@@ -1327,7 +1327,7 @@ class TimeSeries(PlotData):
 
         super(TimeSeries, self).__init__(*args, **kwds)
 
-        if not any(self.args):
+        if self.args is None or not any(self.args):
             n = len(self.data)
             self.args = range(0, n)
 
-- 
2.43.0


From fec9e1a814b5369382110df5c3a634d3c9d27b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:56 +0000
Subject: [PATCH 006/161] fix: findpeaks raises TypeError for data without
 turning points

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 8add37a..5cda64f 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1195,7 +1195,7 @@ def findpeaks(data, n=2, min_h=None, min_p=0.0):
     ind = []
     for iy in range(nrows):  # find all peaks
         tp = findtp(data1[iy], min_h)
-        if len(tp):
+        if tp is not None and len(tp):
             ind = tp[1::2]  # extract indices to maxima only
         else:  # did not find any , try maximum
             ind = np.atleast_1d(data1[iy].argmax())
-- 
2.43.0


From d21a0e96e3627d03805002fb6deab7da05643828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:11 +0000
Subject: [PATCH 007/161] fix: cycle matrices are shifted by one level, and a
 lone reversed first pair is not swapped

---
 src/wafo/objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 4dbcb5a..515bc64 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1053,15 +1053,15 @@ class CyclePairs(PlotData):
 
         # Make so that minima is in first column
         ix = np.flatnonzero(cp1 > cp2)
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
 
         # Make discretization
         a, b, n = param
 
         delta = (b - a) / (n - 1)  # Discretization step
-        cp1 = (cp1 - a) / delta + 1
-        cp2 = (cp2 - a) / delta + 1
+        cp1 = (cp1 - a) / delta
+        cp2 = (cp2 - a) / delta
 
         if ddef == 0:
             cp1 = np.clip(np.round(cp1), 0, n - 1)
@@ -1075,7 +1075,7 @@ class CyclePairs(PlotData):
         else:
             raise ValueError('Undefined discretization definition, ddef = {}'.format(ddef))
 
-        if np.any(ix):
+        if ix.size > 0:
             cp1[ix], cp2[ix] = cp2[ix], cp1[ix]
         return np.asarray(cp1, dtype=int), np.asarray(cp2, dtype=int)
 
-- 
2.43.0


From 7068559384e5280743b139f5b8012dcbb5cf9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:33 +0000
Subject: [PATCH 008/161] fix: level crossing spectrum of an all-negative load
 gets a spurious level 0

---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 515bc64..7fdc0f2 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -797,7 +797,7 @@ class CyclePairs(PlotData):
                 ii += 1
                 extr[:, ii] = extremes[:, i]
 
-        nx = extr[0].argmax() + 1
+        nx = ii + 1
         levels = extr[0, 0:nx]
 
         def _upcrossings_and_maxima(extr, nx):
-- 
2.43.0


From 1a8675a0804fbd92ee2f52d92ab4a272dc1bd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 009/161] fix: wrapped normal spreading treats the closed angle
 grid as periodic and does not integrate to one

---
 src/wafo/spectrum/models.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 1b54893..c0e8bbe 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1667,17 +1667,9 @@ class Spreading(object):
 
         D1 = par ** 2. / 2.
 
-        ix = arange(1, Nt)
-        ix2 = ix ** 2
-        Nd2 = D1.size
-        Fcof = vstack((ones((1, Nd2)) / 2, exp(-ix2[:, newaxis] * D1))) / pi
-
-        cor = exp(1j * ix[:, newaxis] * TH[0, :])
-        # correction term to get
-        Pcor = vstack((ones((1, TH.shape[1])), cor))
-        # the correct integration limits
-        Fcof = Fcof * Pcor.conj()
-        D = real(fft(Fcof, axis=0))
+        D = ones(np.broadcast(D1, TH).shape) / (2 * pi)
+        for ix in arange(1, Nt):
+            D += exp(-ix ** 2 * D1) * cos(ix * TH) / pi
         D[D < 0] = 0
         return D, phi0
 
-- 
2.43.0


From 8912d59cb14c2f7773130f84b236681098ee2844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:40 +0000
Subject: [PATCH 010/161] fix: donelan and banner spreading call methods that
 do not exist

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index c0e8bbe..97cdd64 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1898,7 +1898,7 @@ class Spreading(object):
         k = flatnonzero(wn_up < wn)
         s[k] = spb * (wn_up) ** mb
         # Convert to S-paramater in COS-2S distribution
-        r1 = self.r1ofsech2(s)
+        r1 = self._r1ofsech2(s)
         s = r1 / (1. - r1)
         return s
 
@@ -1911,8 +1911,8 @@ class Spreading(object):
         s3p = self._donelan(wn_up)
         #  Scale so that parametrization will be continous
         scale = s3m / s3p
-        s[k] = scale * self.donelan(wn[k])
-        r1 = self.r1ofsech2(s)
+        s[k] = scale * self._donelan(wn[k])
+        r1 = self._r1ofsech2(s)
         # Convert to S-paramater in COS-2S distribution
         s = r1 / (1. - r1)
 
-- 
2.43.0


From c2c19d78ab0ea24942a4c2135504c8faad5706af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:15 +0000
Subject: [PATCH 011/161] fix: donelan and banner spreading give NaN where the
 spreading parameter is zero

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 97cdd64..125cdad 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1979,7 +1979,7 @@ class Spreading(object):
         realmax = finfo(float).max
         tiny = 1. / realmax
         x = clip(2. * B, tiny, realmax)
-        xk = pi / x
+        xk = minimum(pi / x, realmax)  # avoid inf / inf when B is zero
         return where(x < 100., xk / sinh(xk),
                      -2. * xk / (exp(xk) * expm1(-2. * xk)))
 
-- 
2.43.0


From cbc0ce21e52b6c5991790dbfacf27b4862683cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:15 +0000
Subject: [PATCH 012/161] fix: sech2 spreading is zero instead of uniform where
 the spreading parameter is zero

---
 src/wafo/spectrum/models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 125cdad..8c39cf5 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1697,10 +1697,10 @@ class Spreading(object):
         """
 
         B, TH, phi0 = self.chk_input(theta, w, wc)[:3]
-        NB = tanh(pi * B)  # % Normalization factor.
-        NB = where(NB == 0, 1.0, NB)  # Avoid division by zero
+        # Normalization factor B / tanh(pi * B) with limit 1 / pi as B -> 0
+        NB = where(B == 0, 1. / pi, B / where(B == 0, 1.0, tanh(pi * B)))
 
-        D = 0.5 * B * sech(B * TH) ** 2. / NB
+        D = 0.5 * NB * sech(B * TH) ** 2.
         return D, phi0
 
     def mises(self, theta, w=1, wc=1):
-- 
2.43.0


From e31a424dc2e8d5624cc7bc13b2c7cb6be6d5d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:58 +0000
Subject: [PATCH 013/161] fix: von Mises and sech2 spreading refuse narrow
 spreading instead of extrapolating the starting value

---
 src/wafo/spectrum/models.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 8c39cf5..71a2cdb 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1840,12 +1840,11 @@ class Spreading(object):
             return sp.ive(1, x) / sp.ive(0, x)
 
         K0 = hstack((linspace(0, 10, 513), linspace(10.00001, 100)))
-        funK = interp1d(fun0(K0), K0)
+        funK = interp1d(fun0(K0), K0, bounds_error=False)
         K0 = funK(r1.ravel())
         k1 = flatnonzero(isnan(K0))
         if (k1.size > 0):
-            K0[k1] = 0.0
-            K0[k1] = K0.max()
+            K0[k1] = 0.5 / (1.0 - r1.ravel()[k1])
 
         ix0 = flatnonzero(r1 != 0.0)
         K = zeros_like(r1)
@@ -1857,13 +1856,12 @@ class Spreading(object):
         """ Returns the solution of R1 = pi/(2*B*sinh(pi/(2*B)).
         """
         B0 = hstack((linspace(_EPS, 5, 513), linspace(5.0001, 100)))
-        funB = interp1d(self._r1ofsech2(B0), B0)
+        funB = interp1d(self._r1ofsech2(B0), B0, bounds_error=False)
 
         B0 = funB(r1.ravel())
         k1 = flatnonzero(isnan(B0))
         if (k1.size > 0):
-            B0[k1] = 0.0
-            B0[k1] = max(B0)
+            B0[k1] = 0.5 * pi / sqrt(6 * (1.0 - r1.ravel()[k1]))
 
         ix0 = flatnonzero(r1 != 0.0)
         B = zeros_like(r1)
-- 
2.43.0


From 657570dd0908c5f5000b9bbe25b5509dbdb4b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:04 +0000
Subject: [PATCH 014/161] fix: McCormick raises TypeError for a zero
 significant wave height

---
 src/wafo/spectrum/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/models.py b/src/wafo/spectrum/models.py
index 71a2cdb..7fa606c 100644
--- a/src/wafo/spectrum/models.py
+++ b/src/wafo/spectrum/models.py
@@ -1110,7 +1110,7 @@ class McCormick(Bretschneider):
             Tz = 0.8143 * Tp
         self.Tz = Tz
 
-        if M is None and Hm0 > 0:
+        if M is None:
             self._TpdTz = Tp / Tz
             M = 1.0 / optimize.fminbound(self._localoptfun, 0.01, 5)
         N = M + 1.0
-- 
2.43.0


From 34daa833e01bcd7da1f0d746108e1807aa4eb81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 015/161] fix: changing the frequency type of a spectrum
 changes the arrays it shares with its copies

---
 src/wafo/spectrum/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index a17248f..d4d2bb7 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -727,13 +727,13 @@ class SpecData1D(PlotData):
         if self._freqtype == freqtype:
             return  # do nothind
         if freqtype == 'w' and self._freqtype == 'f':
-            self.args *= 2 * np.pi
-            self.data /= 2 * np.pi
+            self.args = self.args * (2 * np.pi)
+            self.data = self.data / (2 * np.pi)
             self._freqtype = 'w'
             self.setlabels()
         elif freqtype == 'f' and self._freqtype == 'w':
-            self.args /= 2 * np.pi
-            self.data *= 2 * np.pi
+            self.args = self.args / (2 * np.pi)
+            self.data = self.data * (2 * np.pi)
             self._freqtype = 'f'
             self.setlabels()
 
-- 
2.43.0


From cbd444ca389234bd96045c71b7459e5c57ff0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 016/161] fix: bandwidth('eps4') returns Qp, and a single
 factor is not accepted

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index d4d2bb7..9823bbf 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3627,9 +3627,9 @@ class SpecData1D(PlotData):
         '''
 
         m = self.moment(nr=4, even=False)[0]
-        if isinstance(factors, str):
+        if isinstance(factors, str) or np.ndim(factors) == 0:
             factors = [factors]
-        fact_dict = dict(alpha=0, eps2=1, eps4=3, qp=3, Qp=3)
+        fact_dict = dict(alpha=0, eps2=1, eps4=2, qp=3, Qp=3)
         fact = array([fact_dict.get(idx, idx)
                       for idx in list(factors)], dtype=int)
 
-- 
2.43.0


From 5177c4ccc6666425d4de3be099e46b7950a111e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 017/161] fix: warnings about a small step raise TypeError in
 tocov_matrix

---
 src/wafo/spectrum/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 9823bbf..580c88d 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -750,7 +750,7 @@ class SpecData1D(PlotData):
         if self.freqtype in 'f':
             checkdt *= 2 * pi
         if (checkdt < 2. ** -16 / dt):
-            print('Step dt = %g in computation of the density is ' +
+            print('Step dt = %g in computation of the density is '
                   'too small.' % dt)
             print('The computed covariance (by FFT(2^K)) may differ from the')
             print('theoretical. Solution:')
@@ -762,11 +762,11 @@ class SpecData1D(PlotData):
         if nt + 1 >= 5:
             cc2 = acfmat[0, 0] - acfmat[4, 0] * (acfmat[4, 0] / acfmat[0, 0])
             if (cc2 < eps0):
-                warnings.warn('Step dt = %g in computation of the density ' +
+                warnings.warn('Step dt = %g in computation of the density '
                               'is too small.' % dt)
         cc1 = acfmat[0, 0] - acfmat[1, 0] * (acfmat[1, 0] / acfmat[0, 0])
         if (cc1 < eps0):
-            warnings.warn('Step dt = %g is small, and may cause numerical ' +
+            warnings.warn('Step dt = %g is small, and may cause numerical '
                           'inaccuracies.' % dt)
 
     @property
-- 
2.43.0


From c7fa6196be13a9baafb354d3092c10e4e2b6d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 018/161] fix: spectra in Hertz or wave number are not
 normalized to unit moments

---
 src/wafo/spectrum/core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 580c88d..7c9635c 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3583,12 +3583,9 @@ class SpecData1D(PlotData):
         A = SM0 / SM2
         B = SM2 / (SM0 * m0)
 
-        if self.freqtype == 'f':
-            self.args = self.args * A / 2 / pi
-            self.data = self.data * B * 2 * pi
-        elif self.freqtype == 'w':
-            self.args = self.args * A
-            self.data = self.data * B
+        self.args = self.args * A
+        self.data = self.data * B
+        if self.freqtype == 'w':
             m02 = m4 / gravity ** 2
             m20 = m02
             self.g = gravity * sqrt(m0 * m20) / m2
-- 
2.43.0


From 989858aa2a9f5321783a2fd8c12071414eb6d39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 019/161] fix: spectral characteristics of spectra in Hertz mix
 Hertz and radians

---
 src/wafo/spectrum/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 7c9635c..47a783b 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3775,6 +3775,8 @@ class SpecData1D(PlotData):
         # vari = self.freqtype
         f = self.args.ravel()
         S1 = self.data.ravel()
+        if self.freqtype == 'f':
+            f, S1 = f * 2 * pi, S1 / (2 * pi)
         m, unused_mtxt = self.moment(nr=4, even=False)
 
         # moments corresponding to freq  in Hz
-- 
2.43.0


From 8519b54018d4f782007695071070b3037e1ae59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:33 +0000
Subject: [PATCH 020/161] fix: tospecdata adds the nugget to the covariance
 function itself

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index b460e1e..d3e7054 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -239,7 +239,7 @@ class CovData1D(PlotData):
 
         # add a nugget effect to ensure that round off errors
         # do not result in negative spectral estimates
-        acf[0] = acf[0] + nugget
+        acf = r_[acf[0] + nugget, acf[1:]]
         n = acf.size
         # embedding a circulant vector and Fourier transform
 
-- 
2.43.0


From c93c26777fa5bc5476aa539568e8bfb8a51479c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 021/161] fix: CovData1D.sim embeds a covariance function
 ending in zero with lags shifted by one

---
 src/wafo/covariance/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index d3e7054..72d6fa6 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -389,7 +389,7 @@ class CovData1D(PlotData):
         else:  # ACF(n)==0
             m2 = 2 * n - 2
             nfft = 2 ** nextpow2(max(m2, 2 * ns))
-            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 1:1:-1, :]]
+            acf = r_[acf, zeros((nfft - m2, 1)), acf[n - 2:0:-1, :]]
 
         # m2=2*n-2
         spec = fft(acf, nfft, axis=0).real  # periodogram
-- 
2.43.0


From f9d8469de26f12e4ac6e31fc2f693210eb03aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 022/161] fix: CovData1D.sim fails for the default length and
 when the derivative is asked for

---
 src/wafo/covariance/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 72d6fa6..2b65e6d 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -365,6 +365,8 @@ class CovData1D(PlotData):
         acf = self.data.ravel()
         n = acf.size
         acf.shape = (n, 1)
+        if ns is None:
+            ns = n - 1
 
         dt = self.sampling_period()
 
@@ -441,11 +443,11 @@ class CovData1D(PlotData):
 
         if derivative:
             sqrt_spec = sqrt_spec * \
-                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0] * 2 * pi / nfft / dt
+                r_[0:(nfft / 2 + 1), -(nfft / 2 - 1):0][:, np.newaxis] * 2 * pi / nfft / dt
             ephat = epsi * sqrt_spec  # [:,newaxis]
             y = fft(ephat, nfft, axis=0)
-            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag -
-                                             y[2:ns + 2, 0:cases1].real))
+            xder[:, 1:(cases + 1)] = hstack((y[2:ns + 2, 0:cases2].imag,
+                                             -y[2:ns + 2, 0:cases1].real))
             xder[:, 0] = x[:, 0]
 
         if self.tr is not None:
-- 
2.43.0


From 3a93b3a749f751081e794a8c0c81d47977f5f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 023/161] fix: simcond overwrites the data and the covariance
 function it is given

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 2b65e6d..f2cd63d 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -571,8 +571,8 @@ class CovData1D(PlotData):
         reconstructed data"
         in Proceedings of 9th ISOPE Conference, Vol III, pp 66-73
         """
-        x = atleast_1d(xo).ravel()
-        acf = self._get_acf()
+        x = np.array(xo, dtype=float).ravel()
+        acf = self._get_acf().copy()
 
         num_x = len(x)
         num_acf = len(acf)
-- 
2.43.0


From ad4478b999b21de45219173258b7b07594961d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 024/161] fix: simcond raises TypeError or IndexError unless
 one window covers all missing data

---
 src/wafo/covariance/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index f2cd63d..7fa1305 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -511,7 +511,7 @@ class CovData1D(PlotData):
         start_max = num_x - num_sig
         if (nw == 0) and (num_restored < len(i_unknown)):
             # move to the next missing data
-            start_ix = min(i_unknown[num_restored + 1] - overlap, start_max)
+            start_ix = min(i_unknown[num_restored] - overlap, start_max)
         else:
             start_ix = min(idx[0] + num_acf, start_max)
 
@@ -673,7 +673,7 @@ class CovData1D(PlotData):
                     # removing indices to data which has been simulated
                     mask_unknown[idx[:-overlap]] = False
                     # data we want to simulate once more
-                    nw = sum(mask_unknown[idx[-overlap:]] is True)
+                    nw = np.sum(mask_unknown[idx[-overlap:]])
                     num_restored += ns - nw  # update # points simulated so far
 
                     idx = self._update_window(idx, i_unknown, num_x, num_acf,
-- 
2.43.0


From 68f85817c579309dd7c1b5116b15c92d8edd1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 025/161] fix: covariance estimate of data with missing values
 subtracts the wrong mean

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 985cdc5..6850eb1 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -132,7 +132,7 @@ class CovarianceEstimator(object):
         n = len(x)
         indnan = np.isnan(x)
         if any(indnan):
-            x = x - x[1 - indnan].mean()
+            x = x - x[~indnan].mean()
             Ncens = n - indnan.sum()
             x[indnan] = 0.
         else:
-- 
2.43.0


From 078e649b305cd6d8cf3f5bac63bb1c78f0f48a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 026/161] fix: unbiased covariance estimate raises ValueError

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 6850eb1..8454418 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -148,7 +148,7 @@ class CovarianceEstimator(object):
 
         if self.flag.startswith('unbiased'):
             # unbiased result, i.e. divide by n-abs(lag)
-            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 1, -1)
+            auto_cov = auto_cov[:Ncens] * Ncens / np.arange(Ncens, 0, -1)
 
         if self.norm:
             auto_cov = auto_cov / auto_cov[0]
-- 
2.43.0


From 555d0fe4194af8f05679874720d88cffd67fb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 027/161] fix: rotating a directional spectrum takes the
 frequencies for the angles

---
 src/wafo/spectrum/core.py | 42 +++++++++------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 47a783b..166a39a 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -4063,45 +4063,21 @@ class SpecData2D(PlotData):
         if stype == 'dir':
             # any of the directinal types
             # Make sure theta is from -pi to pi
-            theta = self.args[0]
+            freq, theta = self.args
             phi0 = theta[0] + pi
-            self.args[0] = theta - phi0
+            theta = theta - phi0
 
             # make sure -pi<phi<pi
-            self.phi = mod(self.phi + phi0 + pi, 2 * pi) - pi
+            self.phi = mod(self.phi - phi0 + pi, 2 * pi) - pi
             if (rotateGrid and (self.phi != 0)):
                 # Do a physical rotation of spectrum
-                # theta = Snew.args[0]
-                ntOld = len(theta)
-                if (mod(theta[0] - theta[-1], 2 * pi) == 0):
-                    nt = ntOld - 1
-                else:
-                    nt = ntOld
-
-                theta[0:nt] = mod(theta[0:nt] - self.phi + pi, 2 * pi) - pi
+                # repeat the spectrum at the ends in order to make it periodic
+                nt = int(np.sum(theta < theta[0] + 2 * pi * (1 - _EPS)))
+                thetai = hstack([theta[:nt] - 2 * pi, theta[:nt], theta[:nt] + 2 * pi])
+                datai = vstack([self.data[:nt]] * 3)
+                self.data = interp1d(thetai, datai, kind=method, axis=0)(theta + self.phi)
                 self.phi = 0
-                ind = theta.argsort()
-                self.data = self.data[ind, :]
-                self.args[0] = theta[ind]
-                if (nt < ntOld):
-                    if (self.args[0][0] == -pi):
-                        self.data[ntOld, :] = self.data[0, :]
-                    else:
-                        # ftype = self.freqtype
-                        freq = self.args[1]
-                        theta = linspace(-pi, pi, ntOld)
-                        # [F, T] = meshgrid(freq, theta)
-
-                        dtheta = self.theta[1] - self.theta[0]
-                        self.theta[nt] = self.theta[nt - 1] + dtheta
-                        self.data[nt, :] = self.data[0, :]
-                        self.data = interp2d(freq,
-                                             np.vstack([self.theta[0] - dtheta,
-                                                        self.theta]),
-                                             np.vstack([self.data[nt, :],
-                                                        self.data]),
-                                             kind=method)(freq, theta)
-                        self.args[0] = theta
+            self.args = [freq, theta]
 
         elif stype == 'k2d':
             # any of the 2D wave number types
-- 
2.43.0


From 6fd4b1f4fc5ed42036637889b331d6c64485e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:04 +0000
Subject: [PATCH 028/161] fix: spectrum estimation refuses every window but
 parzen, hanning and bartlett

---
 src/wafo/objects.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 7fdc0f2..7a4d4e5 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -1410,9 +1410,13 @@ class TimeSeries(PlotData):
         '''
         if isinstance(wname, tuple):
             wname = wname[0]
-        dof = int(dict(parzen=3.71,
-                       hanning=2.67,
-                       bartlett=3).get(wname, np.nan) * n / L)
+        if not isinstance(wname, str):
+            wname = 'unknown'
+        dof = dict(parzen=3.71,
+                   hanning=2.67,
+                   bartlett=3).get(wname, np.nan) * n / L
+        if np.isfinite(dof):
+            dof = int(dof)
         Be = dict(parzen=1.33, hanning=1,
                   bartlett=1.33).get(wname, np.nan) * 2 * pi / (L * dt)
         if ftype == 'f':
-- 
2.43.0


From dc24310accda9bb0a7538d292ad358a3b5825136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:55 +0000
Subject: [PATCH 029/161] fix: covariance estimates wrap around at long lags

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index 8454418..fe4c1e2 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -141,7 +141,7 @@ class CovarianceEstimator(object):
         if hasattr(detrend, '__call__'):
             x = detrend(x)
 
-        nfft = 2 ** nextpow2(n)
+        nfft = 2 ** nextpow2(2 * n)  # zero padding avoids wrap around of the lags
         raw_periodogram = abs(fft(x, nfft)) ** 2 / Ncens
         # ifft = fft/nfft since raw_periodogram is real!
         auto_cov = np.real(fft(raw_periodogram)) / nfft
-- 
2.43.0


From 5642ffe31c978482273f67178257abded22216bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:49 +0000
Subject: [PATCH 030/161] fix: unbiased covariance estimate with missing values
 runs out of lags

---
 src/wafo/covariance/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/covariance/estimation.py b/src/wafo/covariance/estimation.py
index fe4c1e2..eb77118 100644
--- a/src/wafo/covariance/estimation.py
+++ b/src/wafo/covariance/estimation.py
@@ -155,7 +155,7 @@ class CovarianceEstimator(object):
 
         if lag is None:
             lag = self._estimate_lag(auto_cov, Ncens)
-        lag = min(lag, n - 2)
+        lag = min(lag, n - 2, len(auto_cov) - 1)
         if isinstance(window, str) or type(window) is tuple:
             win = get_window(window, 2 * lag - 1)
         else:
-- 
2.43.0


From d9f58b943ba4f2923061e2431abe14f31a1278f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:32 +0000
Subject: [PATCH 031/161] fix: resampling a spectrum at its own step can blow
 up from rounding

---
 src/wafo/spectrum/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 166a39a..12ebb7b 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -3475,6 +3475,8 @@ class SpecData1D(PlotData):
 
         wnNew = Cnf2dt / dt  # % New Nyquist frequency
         dWn = wnNew - wnOld
+        if abs(dWn) < 1e-10 * wnOld:  # the same frequency up to rounding
+            wnNew, dWn = wnOld, 0
         doInterpolate = dWn > 0 or w[1] > 0 or (
             nfft != n) or dt != dTold or np.any(abs(diff(w, axis=0)) > 1.0e-8)
 
-- 
2.43.0


From f97e602866d75fa401a912d3a919a49eb3a4653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:10 +0000
Subject: [PATCH 032/161] fix: SpecData1D.sim raises TypeError when the
 derivative is asked for

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 12ebb7b..df54dcf 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2691,7 +2691,7 @@ class SpecData1D(PlotData):
         x[:, 0] = linspace(0, T, ns)  # ' %(0:d_t:(np-1)*d_t).'
 
         if derivative:
-            xder = zeros(ns, cases + 1)
+            xder = zeros((ns, cases + 1))
             w = 2. * pi * hstack((0, f, 0., -f[-1::-1]))
             amp = -1j * amp * w[:, newaxis]
             xder[:, 1:(cases + 1)] = fft(amp, axis=0).real
-- 
2.43.0


From 46125b3a18a03617a5b8963fb351e608b2afd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:10 +0000
Subject: [PATCH 033/161] fix: qtf: the Langley method multiplies with 2 g
 instead of g squared

---
 src/wafo/spectrum/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index df54dcf..754e887 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -193,7 +193,7 @@ def qtf(w, h=inf, g=9.81, method='winterstein', rtol=1e-7, atol=0):
     if method.startswith('langley'):
         p_1 = (-2 * w1p2 * (k12 * g ** 2. - w12 ** 2.) +
                w_1 * (w_2 ** 4. - g ** 2 * k_2 ** 2) +
-               w_2 * (w_1 ** 4 - g * 2. * k_1 ** 2)) / (4. * w12 + _TINY)
+               w_2 * (w_1 ** 4 - g ** 2 * k_1 ** 2)) / (4. * w12 + _TINY)
 
         p_2 = w1p2 ** 2. * cosh((k1p2) * h) - g * (k1p2) * sinh((k1p2) * h)
         p_2 += _TINY * np.int_(p_2 == 0)
-- 
2.43.0


From a36aef84f1f2ac1c8f4b31e8910dc2bfc529d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:10 +0000
Subject: [PATCH 034/161] fix: sim_nl leaves the highest frequency out of the
 second order interactions

---
 src/wafo/spectrum/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 754e887..c586446 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -2961,13 +2961,14 @@ class SpecData1D(PlotData):
         f_limit_lo = sqrt(g * tanh(kbar * water_depth) *
                           amp_max / water_depth) / (2 * pi * water_depth)
 
-        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 1
-        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 1
+        # one-based indices into w, which has the zero frequency in front of f
+        nmax = min(flatnonzero(f <= f_limit_up).max(), nmax) + 2
+        nmin = max(flatnonzero(f_limit_lo <= f).min(), nmin) + 2
 
         # if isempty(nmax),nmax = np/2end
         # if isempty(nmin),nmin = 2end % Must always be greater than 1
-        f_limit_up = df * nmax
-        f_limit_lo = df * nmin
+        f_limit_up = df * (nmax - 1)
+        f_limit_lo = df * (nmin - 1)
         if verbose:
             print('2nd order frequency Limits = %g,%g' %
                   (f_limit_lo, f_limit_up))
-- 
2.43.0


From 945cbd9a2fe723d6f0a5a43ede343340c7038903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:48 +0000
Subject: [PATCH 035/161] fix: exact conditional simulation of a long series
 raises ValueError

---
 src/wafo/covariance/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 7fa1305..489e5b2 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -606,9 +606,9 @@ class CovData1D(PlotData):
             soo, so1, s11 = self._split_cov(sigma, i_known, i_unknown)
 
             if issparse(sigma):
-                so1 = so1.todense()
-                s11 = s11.todense()
-                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).T
+                so1 = so1.toarray()
+                s11 = s11.toarray()
+                s1o_sooinv = spsolve(soo + soo.T, 2 * so1).reshape(so1.shape).T
             else:
                 sooinv_so1, _res, _rank, _s = lstsq(soo + soo.T, 2 * so1,
                                                     cond=1e-4)
-- 
2.43.0


From 672a65cc743d8cb204be09c295445b1666eae5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:59 +0000
Subject: [PATCH 036/161] fix: conditional simulation fails for data shorter
 than the covariance function

---
 src/wafo/covariance/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/covariance/core.py b/src/wafo/covariance/core.py
index 489e5b2..3ce2c9e 100644
--- a/src/wafo/covariance/core.py
+++ b/src/wafo/covariance/core.py
@@ -575,6 +575,7 @@ class CovData1D(PlotData):
         acf = self._get_acf().copy()
 
         num_x = len(x)
+        acf = acf[:num_x]
         num_acf = len(acf)
 
         if i_unknown is not None:
-- 
2.43.0


From 0bd9d50b860842698d6286f1ea28d62c138ab207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 037/161] fix: trangood extends a resampled transformation
 upwards with the slope of the original table

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 5cda64f..a610398 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2477,7 +2477,7 @@ def trangood(x, f, min_n=None, min_x=None, max_x=None, max_n=inf):
 
     if max_x > xo[-1]:
         x1 = dx * np.arange(1, np.ceil((max_x - xo[-1]) / dx) + 1)
-        f2 = f[-1] + x1 * (f[-1] - f[-2]) / (xo[-1] - xo[-2])
+        f2 = fo[-1] + x1 * (fo[-1] - fo[-2]) / (xo[-1] - xo[-2])
         fo = np.hstack((fo, f2))
         xo = np.hstack((xo, x1 + xo[-1]))
 
-- 
2.43.0


From 9547a22cbccffbd7f987a000c6468dbdca3409e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 038/161] fix: tranproc: the fourth derivative uses x'' instead
 of x'''

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index a610398..fcb9f67 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2584,7 +2584,7 @@ def tranproc(x, f, x0, *xi):
         """
         return (fxder[3] * xi[0] ** 4. + fxder[0] * xi[3] +
                 6. * fxder[2] * xi[0] ** 2. * xi[1] +
-                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[1]))
+                fxder[1] * (3. * xi[1] ** 2. + 4. * xi[0] * xi[2]))
 
     xo, fo, x0 = np.atleast_1d(x, f, x0)
     xi = np.atleast_1d(*xi)
-- 
2.43.0


From 91af8d1a997595e239a7f5ac8a867c40fc164c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 039/161] fix: TrHermite silently becomes complex when the
 kurtosis is too low for the skewness

---
 src/wafo/transform/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index b470827..21b361b 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -197,7 +197,7 @@ class TrHermite(TrCommon2):
             c4 = 0.0
         else:
             expon = 1. - 0.1 * (excess_kurtosis + 3.) ** 0.8
-            c41 = (1. - 1.43 * skew ** 2. / excess_kurtosis) ** (expon)
+            c41 = np.power(1. - 1.43 * skew ** 2. / excess_kurtosis, expon)
             c4 = 0.1 * ((1. + 1.25 * excess_kurtosis) ** (1. / 3.) - 1.) * c41
         c4 = self._check_c3_c4(c3, c4)
         return c3, c4
-- 
2.43.0


From 37db85e51e0ca6c7d5474b8ad81f7d7d33d63c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 040/161] fix: TrHermite raises TypeError when the polynomial
 is not monotone everywhere, and mixes up the scales of its limit

---
 src/wafo/transform/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/transform/models.py b/src/wafo/transform/models.py
index 21b361b..a63bdac 100644
--- a/src/wafo/transform/models.py
+++ b/src/wafo/transform/models.py
@@ -7,7 +7,7 @@ TrLinear
 '''
 # !/usr/bin/env python
 from scipy.optimize import brentq  # @UnresolvedImport
-from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos, ceil,
+from numpy import (sqrt, atleast_1d, abs, imag, sign, where, cos, arccos,
                    expm1, log1p, pi)
 import numpy as np
 import warnings
@@ -211,12 +211,12 @@ class TrHermite(TrCommon2):
     def _set_x_limit(self, root, polynom):
         """Compute where it is possible to invert the polynomial"""
         if self.kurt <= 3.:
-            self._x_limit = root
+            self._x_limit = self.sigma * root + self.mean
         else:
             self._x_limit = self.sigma * polynom(root) + self.mean
         txt1 = '''
     The polynomial is not a strictly increasing function.
-    The derivative of g(x) is infinite at x = %g''' % self._x_limit
+    The derivative of g(x) is infinite at x = %s''' % self._x_limit
         warnings.warn(txt1)
 
     def _check_monotonicity(self, p):
@@ -344,7 +344,7 @@ class TrHermite(TrCommon2):
             d = sqrt(-p1)
             theta1 = arccos(-q0 / d ** 3) / 3
             th2 = np.r_[0, -2 * pi / 3, 2 * pi / 3]
-            x1 = abs(2 * d * cos(theta1[ceil(len(xn) / 2)] + th2) - x0)
+            x1 = abs(2 * d * cos(theta1[len(xn) // 2] + th2) - x0)
             ix = x1.argmin()  # choose the smallest solution
             return 2. * d * cos(theta1 + th2[ix]) - x0
         else:                # Only one real root exist
-- 
2.43.0


From 9a7c2b87de346b5e5bd5d2e4d7ed9168c5586f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 041/161] fix: edf sorts the data of its caller

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7972265..b0d0e4b 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -82,8 +82,7 @@ def edf(x, method=2):
 
      See also edf, pdfplot, cumtrapz
     """
-    z = atleast_1d(x)
-    z.sort()
+    z = np.sort(atleast_1d(x))
 
     n = len(z)
     if method == 1:
-- 
2.43.0


From 0997012e03237540e796fdff3273b693375b8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 042/161] fix: transformation estimated from crossings is
 re-smoothed on standardised levels but evaluated on data levels

---
 src/wafo/transform/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/transform/estimation.py b/src/wafo/transform/estimation.py
index 5cab43c..2395486 100644
--- a/src/wafo/transform/estimation.py
+++ b/src/wafo/transform/estimation.py
@@ -289,7 +289,7 @@ class TransformEstimator(object):
         g = TrData(slc22.copy(), g1.copy(), mean=mean, sigma=sigma)
 
         if self.chkder:
-            tr_raw = TrData(lc22[inds], lc11[inds], mean=mean, sigma=sigma)
+            tr_raw = TrData(lc22[inds], lc1[inds], mean=mean, sigma=sigma)
             g = self._check_tr(g, tr_raw)
 
         if self.plotflag > 0:
-- 
2.43.0


From 296b4852184f2dbdd7f093bd237391c54795aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 043/161] fix: k2w and w2k return one array instead of a pair
 for empty input

---
 src/wafo/wave_theory/dispersion_relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/dispersion_relation.py b/src/wafo/wave_theory/dispersion_relation.py
index 0690d5e..2ed8002 100644
--- a/src/wafo/wave_theory/dispersion_relation.py
+++ b/src/wafo/wave_theory/dispersion_relation.py
@@ -75,7 +75,7 @@ def k2w(k1, k2=0e0, h=inf, g=9.81, u1=0e0, u2=0e0):
     k1i, k2i, hi, gi, u1i, u2i = np.broadcast_arrays(k1, k2, h, g, u1, u2)
 
     if np.size(k1i) == 0:
-        return zeros_like(k1i)
+        return zeros_like(k1i), zeros_like(k1i)
     ku1 = k1i * u1i
     ku2 = k2i * u2i
 
@@ -146,7 +146,7 @@ def w2k(w, theta=0.0, h=inf, g=9.81, count_limit=100, rtol=1e-7, atol=1e-14):
     gi = atleast_1d(g)
     wi, th, hi = np.broadcast_arrays(w, theta, h)
     if wi.size == 0:
-        return zeros_like(wi)
+        return zeros_like(wi), zeros_like(wi)
 
     k = 1.0 * sign(wi) * wi ** 2.0 / gi[0]  # deep water
     if (hi > 1e25).all():
-- 
2.43.0


From b412daf89672cd648f029d2cc13f8f837b171f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 044/161] fix: hyperbolic_ratio raises IndexError for tables

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index c0ebefc..4a4bd6a 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -70,7 +70,7 @@ def hyperbolic_ratio(a, b, sa, sb):
     den = np.where(sbk < 0, expm1(-2 * bk), 1 + exp(-2 * bk))
     iden = np.ones(den.shape) * inf
     ind = np.flatnonzero(den != 0)
-    iden.flat[ind] = 1.0 / den[ind]
+    iden.flat[ind] = 1.0 / den.flat[ind]
     val = np.where(num == den, 1, num * iden)
     # ((sak+exp(-2*ak))/(sbk+exp(-2*bk)))
     return signRatio * exp(ak - bk) * val
-- 
2.43.0


From 91d2c7abdacde27068e9c484c8776cd8b44fe465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 045/161] fix: TransferFunction.tran reshapes and overwrites
 its arguments and fails for negative transfer functions

---
 src/wafo/wave_theory/core.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index 4a4bd6a..f6bb76d 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -328,12 +328,13 @@ class TransferFunction(object):
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
-        theta.shape = (-1, 1)
-        kw.shape = (-1,)
-        w.shape = (-1,)
+        theta = theta.reshape((-1, 1))
+        kw = kw.reshape((-1,))
+        w = w.reshape((-1,))
 
         tran_fun = self._tran_dict[self.sensortype]
         Hw, Gwt = tran_fun(w, theta, kw)
+        Hw = np.array(Hw, dtype=float)
 
         # New call to avoid singularities. pab 07.11.2000
         # Set Hw to 0 for expressions w*hyperbolic_ratio(z*k,h*k,1,-1)= 0*inf
@@ -344,7 +345,7 @@ class TransferFunction(object):
         k0 = np.flatnonzero(sgn < 0)
         if len(k0):  # make sure Hw>=0 ie. transfer negative signs to Gwt
             Gwt[:, k0] = -Gwt[:, k0]
-            Hw[:, k0] = -Hw[:, k0]
+            Hw[k0] = -Hw[k0]
 
         if self.igam == 2:
             # pab 09 Oct.2002: bug fix
-- 
2.43.0


From 4e8cc2b30b6e32fac4e913a1da876730998d6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 046/161] fix: TransferFunction and wave_pressure ignore the
 acceleration of gravity in the dispersion relation

---
 src/wafo/wave_theory/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index f6bb76d..bdc8e4d 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -324,7 +324,7 @@ class TransferFunction(object):
         '''
         if kw is None:
             # wave number as function of angular frequency
-            kw, unusedkw2 = w2k(w, 0, self.h)
+            kw, unusedkw2 = w2k(w, 0, self.h, self.g)
 
         w, theta, kw = np.atleast_1d(w, theta, kw)
         # make sure they have the correct orientation
@@ -562,7 +562,7 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     gam = _MODELS.jonswap_peakfact(Hm0, Tp)
     Tm02 = Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam)
     w = 2 * np.pi / Tm02
-    kw, unused_kw2 = w2k(w, 0, h)
+    kw, unused_kw2 = w2k(w, 0, h, g)
 
     hk = kw * h
     zk1 = kw * z
-- 
2.43.0


From f8961468be06385e600e90b42223068aa5b5f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 047/161] fix: TransferFunction given a sensor id raises
 KeyError

---
 src/wafo/wave_theory/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index bdc8e4d..e0b5565 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -273,7 +273,7 @@ class TransferFunction(object):
                  bet=1, igam=1, thetax=90, thetay=0):
         self.pos = pos
         self.sensortype = sensortype if isinstance(
-            sensortype, str) else sensor_type(sensortype)
+            sensortype, str) else sensor_type(sensortype)[0]
         self.h = h
         self.g = g
         self.rho = rho
-- 
2.43.0


From 3ea097bfb40a7cebe895b8186e5fb9e680651e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 048/161] fix: transfer functions and pressure vanish (or are
 nan) at infinite water depth

---
 src/wafo/wave_theory/core.py | 51 ++++++++++++++----------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/wafo/wave_theory/core.py b/src/wafo/wave_theory/core.py
index e0b5565..3535614 100644
--- a/src/wafo/wave_theory/core.py
+++ b/src/wafo/wave_theory/core.py
@@ -386,6 +386,12 @@ class TransferFunction(object):
             zk = kw * z  # z measured positive upward from sea floor
         return zk
 
+    def _hyperbolic_ratio(self, kw, sa, sb):
+        if np.isinf(self.h):  # the ratios approach exp(k * z) in deep water
+            z = -self.pos[2] if self.igam == 2 else self.pos[2]
+            return exp(np.abs(kw) * z)
+        return hyperbolic_ratio(self._get_zk(kw), kw * self.h, sa, sb)
+
     # --- Surface elevation ---
     def _n(self, w, theta, kw):
         '''n = Eta = wave profile
@@ -435,84 +441,64 @@ class TransferFunction(object):
     def _p(self, w, theta, kw):
         ''' pressure fluctuations'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # hyperbolic_ratio =  cosh(zk)/cosh(hk)
-        return self.rho * self.g * hyperbolic_ratio(zk, hk, 1, 1), ee
+        return self.rho * self.g * self._hyperbolic_ratio(kw, 1, 1), ee
 
     # --- Water particle velocities ---
     def _u(self, w, theta, kw):
         ''' U = x-velocity'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), cos(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthx * ee
+        return w * self._hyperbolic_ratio(kw, 1, -1), cthx * ee
 
     def _v(self, w, theta, kw):
         '''V = y-velocity'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*cosh(zk)/sinh(hk), sin(theta)*ee
-        return w * hyperbolic_ratio(zk, hk, 1, -1), cthy * ee
+        return w * self._hyperbolic_ratio(kw, 1, -1), cthy * ee
 
     def _w(self, w, theta, kw):
         ''' W = z-velocity'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), -?
-        return w * hyperbolic_ratio(zk, hk, -1, -1), -1j * ee
+        return w * self._hyperbolic_ratio(kw, -1, -1), -1j * ee
 
     # --- Water particle acceleration ---
     def _u_t(self, w, theta, kw):
         ''' U_t = x-acceleration'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthx * ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, 1, -1), -1j * cthx * ee
 
     def _v_t(self, w, theta, kw):
         ''' V_t = y-acceleration'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w^2*cosh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, 1, -1), -1j * cthy * ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, 1, -1), -1j * cthy * ee
 
     def _w_t(self, w, theta, kw):
         ''' W_t = z-acceleration'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # w*sinh(zk)/sinh(hk), ?
-        return (w ** 2) * hyperbolic_ratio(zk, hk, -1, -1), -ee
+        return (w ** 2) * self._hyperbolic_ratio(kw, -1, -1), -ee
 
     # --- Water particle displacement ---
     def _x_p(self, w, theta, kw):
         ''' X_p = x-displacement'''
         ee, cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthx * ee
+        return self._hyperbolic_ratio(kw, 1, -1), 1j * cthx * ee
 
     def _y_p(self, w, theta, kw):
         ''' Y_p = y-displacement'''
         ee, unused_cthx, cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
         # cosh(zk)./sinh(hk), ?
-        return hyperbolic_ratio(zk, hk, 1, -1), 1j * cthy * ee
+        return self._hyperbolic_ratio(kw, 1, -1), 1j * cthy * ee
 
     def _z_p(self, w, theta, kw):
         ''' Z_p = z-displacement'''
         ee, unused_cthx, unused_cthy = self._get_ee_cthxy(theta, kw)
-        hk = kw * self.h
-        zk = self._get_zk(kw)
-        return hyperbolic_ratio(zk, hk, -1, -1), ee  # sinh(zk)./sinh(hk), ee
+        return self._hyperbolic_ratio(kw, -1, -1), ee  # sinh(zk)./sinh(hk), ee
 
 
 def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
@@ -574,7 +560,10 @@ def wave_pressure(z, Hm0, h=10000, g=9.81, rho=1028):
     #  cosh(zk)/cosh(hk) approx exp(zk) for large h
     #  hyperbolic_ratio(zk,hk,1,1) = cosh(zk)/cosh(hk)
     # pr = np.where(np.pi < hk, np.exp(zk1), hyperbolic_ratio(zk, hk, 1, 1))
-    pr = hyperbolic_ratio(zk, hk, 1, 1)
+    if np.isinf(h):
+        pr = exp(zk1)
+    else:
+        pr = hyperbolic_ratio(zk, hk, 1, 1)
     pressure = (rho * g * Hm0 / 2) * pr
 
     #    pos = [np.zeros_like(z),np.zeros_like(z),z]
-- 
2.43.0


From 4d10285b7863ccc7eef899247b362276892768e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 049/161] fix: gridcount fails for data at the upper end of the
 grid

---
 src/wafo/kdetools/gridding.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index f1bf7f7..c6db368 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -353,6 +353,7 @@ def gridcount(data, X, y=1):
 
     dx = np.diff(x[:, :2], axis=1)
     binx = np.asarray(np.floor((dataset - xlo[:, np.newaxis]) / dx), dtype=int)
+    binx = binx.clip(max=inc - 2)  # data at the upper end of the grid
     w = dx.prod()
     if d == 1:
         return _gridcount_1d(acfun, dataset, x, y, w, binx, inc)
-- 
2.43.0


From b7a6423c766140f15ebfeeb7776c00c0d5ad3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 050/161] fix: gridcount changes the shape of the grid of its
 caller

---
 src/wafo/kdetools/gridding.py | 2 +-
 src/wafo/kdetools/kdetools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index c6db368..2fb3584 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -260,7 +260,7 @@ def _gridcount_nd(acfun, data, x, y, w, binx):
 
 
 def _gridcount_1d(acfun, data, x, y, w, binx, inc):
-    x.shape = -1,
+    x = x.ravel()
     c = (acfun(binx, (x[binx + 1] - data) * y, shape=(inc, )) +
          acfun(binx + 1, (data - x[binx]) * y, shape=(inc, ))).ravel()
     return c / w
diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 4ba360a..7066092 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -1008,7 +1008,7 @@ class BKRegression(object):
         xmin, xmax = x.min(), x.max()
         ni = max(2 * int((xmax - xmin) / hs_e) + 3, 5)
         sml = hs_e  # *0.1
-        xi = np.linspace(xmin - sml, xmax + sml, ni).T
+        xi = np.linspace(xmin - sml, xmax + sml, ni).ravel()
         return xi
 
     def _wilson_score(self, n, p, alpha):
-- 
2.43.0


From 3b01ed15cd04c255486f1c499c75d70813629728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 051/161] fix: accumsum_sparse raises TypeError for
 one-dimensional output

---
 src/wafo/kdetools/gridding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/gridding.py b/src/wafo/kdetools/gridding.py
index 2fb3584..cbc1985 100644
--- a/src/wafo/kdetools/gridding.py
+++ b/src/wafo/kdetools/gridding.py
@@ -65,7 +65,7 @@ def accumsum_sparse(accmap, a, shape=None, dtype=None):
         binx = accmap.ravel()
         zero = np.zeros(len(binx))
         out = sparse.coo_matrix(
-            (a.ravel(), (binx, zero)), shape=(shape, 1), dtype=dtype).tocsr().T
+            (a.ravel(), (binx, zero)), shape=(shape[0], 1), dtype=dtype).tocsr().T
     return out
 
 
-- 
2.43.0


From 899f740dc7e2ef086af72f6ef380b5caf1481cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 052/161] fix: logistic kernel is nan far from its centre

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 64845cb..bdb5f36 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -450,7 +450,7 @@ mkernel_laplace = _KernelLaplace(r=7.0, stats=_stats_lapl)
 class _KernelLogistic(_Kernel):
 
     def _kernel(self, x):
-        s = exp(x)
+        s = exp(-np.abs(x))
         return np.prod(s / (s + 1) ** 2, axis=0)
 
 
-- 
2.43.0


From 8f5e302d63e3ff6c0c77bdcebf68ae7443220c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 053/161] fix: hstt raises TypeError for the triangular and
 logistic kernels

---
 src/wafo/kdetools/kernels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index bdb5f36..efbfe6e 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -275,7 +275,8 @@ class _Kernel(object):
 
     def norm_factor(self, d=1, n=None):
         _assert(0 < d, "D")
-        _assert(0 < n, "Number of samples too few (n={})".format(n))
+        _assert(n is None or 0 < n,
+                "Number of samples too few (n={})".format(n))
         return 1.0
 
     @abstractmethod
-- 
2.43.0


From 3c85b858bd660abf5cc033ec333c8da15fdd1c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 054/161] fix: hste and hstt overwrite the start values of
 their caller

---
 src/wafo/kdetools/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index efbfe6e..962cfa2 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -806,7 +806,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = h0 * np.ones(d)
 
         ax1, bx1 = self._get_grid_limits(A)
 
@@ -1006,7 +1006,7 @@ class Kernel(object):
         if h0 is None:
             h0 = sigmaA * amise_constant
 
-        h = np.asarray(h0, dtype=float)
+        h = h0 * np.ones(d)
 
         ax1, bx1 = self._get_grid_limits(A)
 
-- 
2.43.0


From f1cf1b97157d8f8aaed63e18ed650e2f6396a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 055/161] fix: hscv returns score and bandwidths in the wrong
 order

---
 src/wafo/kdetools/kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kernels.py b/src/wafo/kdetools/kernels.py
index 962cfa2..00f4a00 100644
--- a/src/wafo/kdetools/kernels.py
+++ b/src/wafo/kdetools/kernels.py
@@ -1182,7 +1182,7 @@ class Kernel(object):
 
         hvec = hvec * (ste_constant / ste_constant2) ** (1 / 5)
         if fulloutput:
-            return h * sigmaA, score, hvec
+            return h * sigmaA, hvec, score
         return h * sigmaA
 
     def _get_grid_limits(self, data):
-- 
2.43.0


From 0986c5b820fe8fd18f517925827afc2776957cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 056/161] fix: binned kernel sums of negative responses are set
 to zero

---
 src/wafo/kdetools/kdetools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 7066092..2a5d740 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -431,7 +431,7 @@ class TKDE(_KDE):
                                   method='linear', fill_value=0.0)
         self.args = args
         r = kwds.get('r', 0)
-        if r == 0:
+        if r == 0 and np.all(np.asarray(kwds.get('y', 1.0)) >= 0):
             return fi * (fi > 0)
         return fi
 
@@ -733,7 +733,7 @@ class KDE(_KDE):
         z = np.real(ifftn(fftn(c, s=kw.shape) * fftn(kw)))
 
         ix = (slice(0, inc),) * d
-        if r == 0:
+        if r == 0 and np.all(np.asarray(y) >= 0):
             return z[ix] * (z[ix] > 0.0)
         return z[ix]
 
-- 
2.43.0


From 4d98c325cbebba25bfe2b9c0c576acb88b8b7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 057/161] fix: TKDE ignores the response and the moment order

---
 src/wafo/kdetools/kdetools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 2a5d740..99898f6 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -450,7 +450,7 @@ class TKDE(_KDE):
             self.args = self.tkde.args
             return f
         targs = self._get_targs(args)
-        tf = self.tkde.eval_grid_fast(*targs)
+        tf = self.tkde.eval_grid_fast(*targs, **kwds)
 
         self.args = self._inverse_transform(list(self.tkde.args))
         points = meshgrid(*self.args)
@@ -489,10 +489,10 @@ class TKDE(_KDE):
 
         """
         if self.L2 is None:
-            return self.tkde.eval_points(points)
+            return self.tkde.eval_points(points, **kwds)
 
         tpoints = self._transform(points)
-        tf = self.tkde.eval_points(tpoints)
+        tf = self.tkde.eval_points(tpoints, **kwds)
         f = self._scale_pdf(tf, points)
         return f
 
-- 
2.43.0


From a13c12f208945a8888873ca3eacfaf344ec64919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 058/161] fix: TKDE fails when evaluated at a single point

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 99898f6..de03daa 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -416,7 +416,7 @@ class TKDE(_KDE):
             factor = v2 * np.sign(v2) if v2 else 1
             pdf *= np.where(v2 == 1, 1, points[i] ** (v2 - 1) * factor)
 
-        _assert_warn((np.abs(np.diff(pdf)).max() < 10).all(), '''
+        _assert_warn((np.abs(np.diff(pdf)) < 10).all(), '''
         Numerical problems may have occured due to the power transformation.
         Check the KDE for spurious spikes''')
         return pdf
-- 
2.43.0


From 173632fd33d201d89f915d4e3bea9b7c411c5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 059/161] fix: TKDE truncates the transformation of integer
 data

---
 src/wafo/kdetools/kdetools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index de03daa..37bfb05 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -391,6 +391,8 @@ class TKDE(_KDE):
         L2 = np.atleast_1d(self.L2) * np.ones(self.d)
 
         tpoints = copy.copy(points)
+        if isinstance(points, np.ndarray):
+            tpoints = points.astype(float)
         for i, v2 in enumerate(L2.tolist()):
             tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
         return tpoints
-- 
2.43.0


From c089275dd30409000ab25d18a1796a88b0b9e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 060/161] fix: TKDE on a grid fails for negative powers: the
 transformed range is reversed

---
 src/wafo/kdetools/kdetools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 37bfb05..b173f3e 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -394,7 +394,8 @@ class TKDE(_KDE):
         if isinstance(points, np.ndarray):
             tpoints = points.astype(float)
         for i, v2 in enumerate(L2.tolist()):
-            tpoints[i] = np.log(points[i]) if v2 == 0 else points[i] ** v2
+            tpoints[i] = (np.log(points[i]) if v2 == 0 else
+                          np.sign(v2) * points[i] ** v2)
         return tpoints
 
     def _inverse_transform(self, tpoints):
@@ -405,8 +406,8 @@ class TKDE(_KDE):
 
         points = copy.copy(tpoints)
         for i, v2 in enumerate(L2.tolist()):
-            points[i] = np.exp(
-                tpoints[i]) if v2 == 0 else tpoints[i] ** (1.0 / v2)
+            points[i] = (np.exp(tpoints[i]) if v2 == 0 else
+                         (np.sign(v2) * tpoints[i]) ** (1.0 / v2))
         return points
 
     def _scale_pdf(self, pdf, points):
-- 
2.43.0


From 291e392d328de98ff117c5f063a288f8c7a3deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 061/161] fix: KDE overwrites the bandwidths of its caller

---
 src/wafo/kdetools/kdetools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index b173f3e..3b94a93 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -622,7 +622,7 @@ class KDE(_KDE):
 
     def _check_hs(self, h):
         """make sure it has the correct dimension and replace negative vals"""
-        h = np.atleast_1d(h)
+        h = np.array(h, dtype=float, ndmin=1)
         if (len(h.shape) == 1) or (self.d == 1):
             h = h * np.ones(self.d) if max(h.shape) == 1 else h.reshape(self.d)
             self._replace_negatives_with_default_hs(h)
-- 
2.43.0


From 484d91a9ca5216e88da049a6390ed1514bce2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:03 +0000
Subject: [PATCH 062/161] fix: automatic grid size is infinite for a bandwidth
 matrix

---
 src/wafo/kdetools/kdetools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index 3b94a93..b5e9d5a 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -663,7 +663,8 @@ class KDE(_KDE):
             _tau, tau = self.kernel.effective_support()
             xyzrange = 8 * self.sigma
             L1 = 10
-            inc = max(48, (L1 * xyzrange / (tau * self.hs)).max())
+            hs = self.hs if np.ndim(self.hs) == 1 else np.diag(self.hs)
+            inc = max(48, (L1 * xyzrange / (tau * hs)).max())
             inc = 2 ** nextpow2(inc)
         # pylint: disable=attribute-defined-outside-init
         self._inc = inc
-- 
2.43.0


From 60867226ad93e2bc34f4db351250a05ad5bcb73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:38 +0000
Subject: [PATCH 063/161] fix: TKDE on a grid can fail from rounding when the
 range of the grid is the range of the data

---
 src/wafo/kdetools/kdetools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wafo/kdetools/kdetools.py b/src/wafo/kdetools/kdetools.py
index b5e9d5a..4cadc20 100644
--- a/src/wafo/kdetools/kdetools.py
+++ b/src/wafo/kdetools/kdetools.py
@@ -359,6 +359,11 @@ class TKDE(_KDE):
         tdataset = self._transform(self.dataset)
         txmin = np.ravel(self._transform(np.reshape(self.xmin, (-1, 1))))
         txmax = np.ravel(self._transform(np.reshape(self.xmax, (-1, 1))))
+        # rounding in the transformation must not leave data outside the grid
+        tol = 1e-12 * np.ptp(tdataset, axis=-1)
+        tmin, tmax = tdataset.min(axis=-1), tdataset.max(axis=-1)
+        txmin = np.where(np.abs(txmin - tmin) <= tol, np.minimum(txmin, tmin), txmin)
+        txmax = np.where(np.abs(txmax - tmax) <= tol, np.maximum(txmax, tmax), txmax)
         self.tkde = KDE(tdataset, hs, self.kernel, alpha, txmin, txmax, inc)
 
     def _check_xmin(self, xmin):
-- 
2.43.0


From 0509fed44a159b0303eccb7ca50753b3c2ee4143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:23 +0000
Subject: [PATCH 064/161] fix: moments and entropy of truncrayleigh ignore the
 truncation

---
 src/wafo/stats/distributions.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 7593dc4..2ff70a2 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -213,17 +213,24 @@ class truncrayleigh_gen(rv_continuous):
         return np.sqrt(c * c - 2 * sc.log1p(-q)) - c  #pylint: disable=no-member
 
     def _stats(self, c):
-        # TODO: correct this it is wrong!
-        pi = np.pi
-        val = 4 - pi
-        return (np.sqrt(pi / 2),
-                val / 2,
-                2 * (pi - 3) * np.sqrt(pi) / val ** 1.5,
-                6 * pi / val - 16 / val ** 2)
+        # i_n = integral of x**n * sf(x) from 0 to infinity, E(x**(n+1)) = (n + 1) * i_n
+        i_0 = np.sqrt(np.pi / 2) * sc.erfcx(c / np.sqrt(2))  #pylint: disable=no-member
+        i_1 = 1 - c * i_0
+        i_2 = i_0 - c * i_1
+        i_3 = 2 * i_1 - c * i_2
+        var = 2 * i_1 - i_0 ** 2
+        return (i_0,
+                var,
+                (3 * i_2 - 6 * i_0 * i_1 + 2 * i_0 ** 3) / var ** 1.5,
+                (4 * i_3 - 12 * i_0 * i_2 + 12 * i_0 ** 2 * i_1 - 3 * i_0 ** 4) / var ** 2 - 3)
 
     def _entropy(self, c):
-        # TODO: correct this it is wrong!
-        return _EULER / 2.0 + 1 - 0.5 * np.log(2)
+        # 1 - E(log(x + c))
+        tiny = np.finfo(float).tiny
+        half_c2 = np.maximum(c * c / 2.0, tiny)
+        entropy_0 = _EULER / 2.0 + 1 - 0.5 * np.log(2)
+        entropy_c = 1 - 0.5 * (np.log(2 * half_c2) + sc.hyperu(1, 1, half_c2))  #pylint: disable=no-member
+        return np.where(half_c2 > 1e-300, entropy_c, entropy_0)
 
 
 truncrayleigh = truncrayleigh_gen(a=0.0, name="truncrayleigh", shapes='c')
-- 
2.43.0


From 1c5538175e0455b6afc2c1f7f2ccdfcd57b49f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:23 +0000
Subject: [PATCH 065/161] fix: probabilities and samples of pbinom can not be
 computed

---
 src/wafo/stats/distributions.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 2ff70a2..bce50c7 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -275,23 +275,22 @@ class pbinom(rv_discrete):
         # self._pmf_values = self._local_pmf(np.arange(n+1))
         self._pmf_values = self._fft_pmf(n)
         self._cdf_values = self._pmf_values.cumsum()
-        self._sf_values = self._pmf_values[::-1].cumsum()[::-1]
+        self._sf_values = np.hstack((self._pmf_values[::-1].cumsum()[::-1], 0))
         pass
 
 
-    def _rvs(self):
-        n = self._size
-        return sum((self._random_state.binomial(1, p) for p in self.probabilities))
+    def _rvs(self, size=None, random_state=None):
+        return sum((random_state.binomial(1, p, size) for p in self.probabilities))
 
     def _pmf(self, x):
-        return self._pmf_values[x]
+        return self._pmf_values[np.asarray(x, dtype=int)]
 
     def _sf(self, x):
         # val = super(pbinom, self)._sf(x)
-        return self._sf_values[x+1]
+        return self._sf_values[np.asarray(x, dtype=int) + 1]
 
     def _cdf(self, x):
-        return self._cdf_values[x]
+        return self._cdf_values[np.asarray(x, dtype=int)]
         # x = int(np.floor(x))
         # return sum((self._pmf(i) for i in range(0, x+1)))
 
-- 
2.43.0


From d184548eb8efae885920fd506de8ceab934f3a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:23 +0000
Subject: [PATCH 066/161] fix: fitting a genextreme distribution sorts the data
 of its caller

---
 src/wafo/stats/distributions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index bce50c7..5b32b42 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -87,11 +87,10 @@ def _genpareto_fitstart(self, data, fitstart):  # pab
 
 
 def _genextreme_fitstart(self, data, fitstart): # pab
-    d = np.asarray(data)
+    d = np.sort(data)
     # Probability weighted moments
     log = np.log
     n = len(d)
-    d.sort()
     koeff1 = np.r_[0:n] / (n - 1)
     koeff2 = koeff1 * (np.r_[0:n] - 1) / (n - 2)
     b2 = np.dot(koeff2, d) / n
-- 
2.43.0


From ffd003133f9f76a0ceb870ed7d1032ce9688ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:45 +0000
Subject: [PATCH 067/161] fix: moments of truncrayleigh: keep the starting
 values of its fit

---
 src/wafo/stats/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/distributions.py b/src/wafo/stats/distributions.py
index 5b32b42..aa3aed0 100644
--- a/src/wafo/stats/distributions.py
+++ b/src/wafo/stats/distributions.py
@@ -187,7 +187,8 @@ class truncrayleigh_gen(rv_continuous):
             n = len(data)
             args = (np.sqrt(np.sum(data**2)/n/2),) # Initial guess (MLE with c=0)
 
-        return args + self.fit_loc_scale(data, *args)
+        # location and scale: moments with c=0
+        return args + self.fit_loc_scale(data, *((0.0,) * len(args)))
 
     def _pdf(self, r, c):
         rc = r + c
-- 
2.43.0


From 584b3aacda447ee716372e0ea6de4c40a9550dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 068/161] fix: links of the burr distribution are not the
 inverse of its survival function

---
 src/wafo/stats/estimation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index e5c7194..8782b02 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -71,11 +71,11 @@ def _burr_link(x, logsf, phat, i):
     if i == 1:
         return -log_cdf / log1p(x_norm**(-par_c))
     if i == 0:
-        return log1p(-np.exp(-log_cdf / par_d)) / log(x_norm)
+        return -log(expm1(-log_cdf / par_d)) / log(x_norm)
     if i == 2:
-        return x - scale * np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return x - scale * np.exp(-log(expm1(-log_cdf / par_d)) / par_c)
     if i == 3:
-        return (x - loc) / np.exp(log1p(-np.exp(-log_cdf / par_d)) / par_c)
+        return (x - loc) / np.exp(-log(expm1(-log_cdf / par_d)) / par_c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From bc6dffa5e7145a87f33ea9572e804bc5a65eab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 069/161] fix: links of the exponweib distribution are not the
 inverse of its survival function

---
 src/wafo/stats/estimation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 8782b02..ae4992a 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -114,16 +114,16 @@ def _weibull_min_link(x, logsf, phat, i):
 
 def _exponweib_link(x, logsf, phat, i):
     a, c, loc, scale = phat
-    log_cdf = -log(-expm1(logsf))
+    log_cdf = log(-expm1(logsf))
     x_norm = (x - loc) / scale
     if i == 0:
-        return - log_cdf / log(-expm1(-x_norm**c))
+        return log_cdf / log(-expm1(-x_norm**c))
     if i == 1:
-        return log(-log1p(- log_cdf ** (1.0 / a))) / log(x_norm)
+        return log(-log1p(-np.exp(log_cdf / a))) / log(x_norm)
     if i == 2:
-        return x - (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c) * scale
+        return x - (-log1p(-np.exp(log_cdf / a))) ** (1.0 / c) * scale
     if i == 3:
-        return (x - loc) / (-log1p(- log_cdf ** (1.0 / a))) ** (1.0 / c)
+        return (x - loc) / (-log1p(-np.exp(log_cdf / a))) ** (1.0 / c)
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From f0ee9c46cae2b4066ac9351d0a0af70ca14d5a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 070/161] fix: location links of genpareto and genextreme are
 not the inverse of the survival function

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index ae4992a..04d98b5 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -146,7 +146,7 @@ def _genpareto_link(x, logsf, phat, i):
         #   link = -(x-loc)*c/expm1(-c*logsf)
         return (x - loc) * c / expm1(-c * logsf)
     if i == 1:
-        return x + scale * expm1(c * logsf) / c
+        return x - scale * expm1(-c * logsf) / c
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-- 
2.43.0


From 0cb129fb461e13602dfbaed85f7e30e1050745a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 071/161] fix: location link of gumbel_r is unreachable

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 04d98b5..6340eaf 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -155,7 +155,7 @@ def _gumbel_r_link(x, logsf, phat, i):
     loglog_cdf = log(-log(-expm1(logsf)))
     if i == 1:
         return -(x - loc) / loglog_cdf
-    if i == 1:
+    if i == 0:
         return x + scale * loglog_cdf
     raise IndexError('Index to the fixed parameter is out of bounds')
 
-- 
2.43.0


From cd6e62f1c6fdc2b58e673d1963c6e74c86d9d299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 072/161] fix: links of the genexpon distribution are not the
 inverse of its survival function

---
 src/wafo/stats/estimation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 6340eaf..7ebed86 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -177,9 +177,9 @@ def _genexpon_link(x, logsf, phat, i):
     x_norm = (x - loc) / scale
     fact1 = (x_norm + expm1(-c * x_norm) / c)
     if i == 0:
-        return b * fact1 + logsf  # a
+        return -(logsf + b * fact1) / x_norm  # a
     if i == 1:
-        return (a - logsf) / fact1  # b
+        return -(logsf + a * x_norm) / fact1  # b
     if i in [2, 3, 4]:
         raise NotImplementedError('Only implemented for index in [0,1]!')
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From ea229beccfe7aadf72d41721ce2c90812e4e77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 073/161] fix: scale link of the rayleigh distribution is not
 the inverse of its survival function

---
 src/wafo/stats/estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index 7ebed86..d429b17 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -187,7 +187,7 @@ def _genexpon_link(x, logsf, phat, i):
 
 def _rayleigh_link(x, logsf, phat, i):
     if i == 1:
-        return x - phat[0] / np.sqrt(-2.0 * logsf)
+        return (x - phat[0]) / np.sqrt(-2.0 * logsf)
     if i == 0:
         return x - phat[1] * np.sqrt(-2.0 * logsf)
     raise IndexError('Index to the fixed parameter is out of bounds')
-- 
2.43.0


From 69fcb76992638a1dcc9b58f5d5388dd2153dea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 074/161] fix: truncrayleigh has no link, and the function
 meant for it is not the inverse of its survival function

---
 src/wafo/stats/estimation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wafo/stats/estimation.py b/src/wafo/stats/estimation.py
index d429b17..2f9b990 100644
--- a/src/wafo/stats/estimation.py
+++ b/src/wafo/stats/estimation.py
@@ -193,13 +193,13 @@ def _rayleigh_link(x, logsf, phat, i):
     raise IndexError('Index to the fixed parameter is out of bounds')
 
 
-def _trunclayleigh_link(x, logsf, phat, i):
+def _truncrayleigh_link(x, logsf, phat, i):
     c, loc, scale = phat
     if i == 0:
         x_norm = (x - loc) / scale
-        return - 2 * logsf / x_norm - x_norm / 2.0
+        return - logsf / x_norm - x_norm / 2.0
     if i == 2:
-        return x - loc / (np.sqrt(c * c - 2 * logsf) - c)
+        return (x - loc) / (np.sqrt(c * c - 2 * logsf) - c)
     if i == 1:
         return x - scale * (np.sqrt(c * c - 2 * logsf) - c)
     raise IndexError('Index to the fixed parameter is out of bounds')
@@ -212,7 +212,7 @@ LINKS = dict(expon=_expon_link,
              genexpon=_genexpon_link,
              gumbel_r=_gumbel_r_link,
              rayleigh=_rayleigh_link,
-             trunclayleigh=_trunclayleigh_link,
+             truncrayleigh=_truncrayleigh_link,
              genextreme=_genextreme_link,
              exponweib=_exponweib_link,
              burr=_burr_link)
-- 
2.43.0


From 1430f44626fcfadb9a4634cbfeac4c97c108f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 075/161] fix: an optimizer can not be given by its name

---
 src/wafo/stats/_distn_infrastructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index b15bbe4..3837e20 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -275,7 +275,7 @@ def _reduce_func2(self, args, kwds):
 def _get_optimizer(kwds):
     optimizer = kwds.pop('optimizer', optimize.fmin)
     # convert string to function in scipy.optimize
-    if not callable(optimizer) and isinstance(optimizer, string_types):
+    if not callable(optimizer) and isinstance(optimizer, str):
         if not optimizer.startswith('fmin_'):
                 optimizer = '_'.join(("fmin", optimizer))
         try:
-- 
2.43.0


From f400175d3b1ebf00e5ddab44d6c0caca52711a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 076/161] fix: fit1 by maximum product of spacings fails for
 data that is not sorted

---
 src/wafo/stats/_distn_infrastructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/_distn_infrastructure.py b/src/wafo/stats/_distn_infrastructure.py
index 3837e20..c0f87ea 100644
--- a/src/wafo/stats/_distn_infrastructure.py
+++ b/src/wafo/stats/_distn_infrastructure.py
@@ -415,6 +415,7 @@ def fit(self, data, *args, **kwargs):
 
 
 def _fit(self, data, *args, **kwargs):
+    data = np.sort(np.ravel(data))  # maximum product of spacings require sorted data
     args, kwds = _fitstart(self, data, args, kwargs.copy())
     x0, func, restore, args, fixedn = self._reduce_func2(args, kwds)
     if kwds.pop('search', True):
-- 
2.43.0


From 2fd3eed5250f016fce2709f82f04fdb2f22e99a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 077/161] fix: prbnorm2d: probability of the other variable
 when one is unrestricted

---
 src/wafo/gaussian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 08bc1ef..1c57976 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -988,7 +988,9 @@ def prbnorm2d(a, b, r):
         return bvd(lower[0], lower[1], correl)
     elif (infin[0] == 0 and infin[1] == 0):
         return bvd(-upper[0], -upper[1], correl)
-    return 1
+    # only one of the variables is restricted
+    i = 0 if infin[1] < 0 else 1
+    return fi(upper[i]) - fi(lower[i])
 
 
 def bvd(lo, up, r):
-- 
2.43.0


From 64244b7f0560beb143a628ee392c060f665d319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 078/161] fix: prbnormnd: honour allow_singular

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 1c57976..c1df550 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -719,7 +719,7 @@ def prbnormnd(correl, a, b, abseps=1e-4, releps=1e-3, maxpts=None, allow_singula
         raise ValueError('This is not a correlation matrix')
 
     return mvn.cdf(b, cov=correl,
-                   allow_singular=False,
+                   allow_singular=allow_singular,
                    maxpts=maxpts,
                    abseps=abseps,
                    releps=releps,
-- 
2.43.0


From 9a00362bfca258de6fd322a2a685a0e74a0f89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 079/161] fix: cdfnorm2d: scale the elements that hold the
 strong correlations

---
 src/wafo/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index c1df550..ec1a5b7 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -901,7 +901,7 @@ def cdfnorm2d(b1, b2, r):
                                        (1 + c[k6] * xs[k6] *
                                         (1 + d[k6] * xs[k6]))))
 
-            bvn[k3] = -bvn[k3] / twopi
+            bvn[k13] = -bvn[k13] / twopi
 
         k7, = nonzero(r[k1] > 0)
         if len(k7):
-- 
2.43.0


From 31509e552c12fb1d5357feb8dabe9df5481a66cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 080/161] fix: cdfnorm2d: choose the rule from the size of the
 correlation

---
 src/wafo/gaussian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index ec1a5b7..88e0898 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -823,7 +823,7 @@ def cdfnorm2d(b1, b2, r):
     if len(k0) > 0:
         hs = (h[k0] ** 2 + k[k0] ** 2) / two
         asr = arcsin(r[k0])
-        k1, = nonzero(r[k0] >= 0.75)
+        k1, = nonzero(abs(r[k0]) >= 0.75)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(10):
@@ -832,7 +832,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W20[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero((0.3 <= r[k0]) & (r[k0] < 0.75))
+        k1, = nonzero((0.3 <= abs(r[k0])) & (abs(r[k0]) < 0.75))
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(6):
@@ -841,7 +841,7 @@ def cdfnorm2d(b1, b2, r):
                     bvn[k01] = bvn[k01] + _W12[i] * \
                         exp((sn * hk[k01] - hs[k1]) / (1 - sn * sn))
 
-        k1, = nonzero(r[k0] < 0.3)
+        k1, = nonzero(abs(r[k0]) < 0.3)
         if len(k1) > 0:
             k01 = k0[k1]
             for i in range(3):
-- 
2.43.0


From 145a96ec391da0479c7a61dfd0de4e2de7dfeb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 081/161] fix: findpot: search every group of peaks that are
 too close

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index b0d0e4b..4a88b13 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -445,7 +445,7 @@ def _remove_index_to_data_too_close_to_each_other(ix_e, is_too_small, di_e, ti_e
                               is_too_small[-1]))
     # Find opening (no) and closing (nc) index for data beeing to close:
     iy = findextrema(np.hstack([0, 0, is_too_small, 0]))
-    no = iy[:2] - 1
+    no = iy[::2] - 1
     nc = iy[1::2]
     for start, stop in zip(no, nc):
         iz = slice(start, stop)
-- 
2.43.0


From 2a9799a6fc50ad4d2e487c822f927b4c89374372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 082/161] fix: returnperiod2sf and sf2returnperiod of scalars
 and integers

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 4a88b13..af0cb18 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -494,8 +494,7 @@ def returnperiod2sf(period, numevents_per_unit=1):
     t, npu = np.broadcast_arrays(period, numevents_per_unit)
     invprb = t*npu
     nan_mask = (npu <= 0) | (invprb < 1)
-    invprb[nan_mask] = np.nan
-    return 1./invprb
+    return 1./np.where(nan_mask, np.nan, invprb)
 
 
 def sf2returnperiod(q, numevents_per_unit=1):
-- 
2.43.0


From a4788595e5934b48f3c20893acd37b690d64471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 083/161] fix: reslife: thresholds given as a list

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index af0cb18..c8a2258 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -223,7 +223,7 @@ def reslife(data, u=None, umin=None, umax=None, nu=None, nmin=3, alpha=0.05,
         return data1.mean(), data1.std(), data1.size
 
     dat = asarray(data)
-    tmp = asarray([mean_and_std(dat[dat > tresh] - tresh) for tresh in u.tolist()])
+    tmp = asarray([mean_and_std(dat[dat > tresh] - tresh) for tresh in asarray(u).tolist()])
 
     mrl, srl, num = tmp.T
     p = 1 - alpha
-- 
2.43.0


From 397f1367fc62cbafab8e3483d53e7d8b6768d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 084/161] fix: cov2mmpdfreg: interpolate at the last point of a
 table without reading past it

---
 source/mreg/intfcmod.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/mreg/intfcmod.f b/source/mreg/intfcmod.f
index 6529630..d98d5a7 100644
--- a/source/mreg/intfcmod.f
+++ b/source/mreg/intfcmod.f
@@ -98,7 +98,7 @@ C      INTEGER, PARAMETER :: RDIM = 10201
       DO I=2,N
       IF (T.LT.TIMEV(I)) GO TO 10
       ENDDO
- 10   I=I-1
+ 10   I=MIN(I-1,N-1)
       T1=T-TIMEV(I)
       DER=(A(I+1)-A(I))/(TIMEV(i+1)-TIMEV(I))
       VALUE=A(I)+T1*DER
@@ -126,7 +126,7 @@ C
       DO I=2,N
       IF (T.LT.TIMEV(I)) GO TO 10
       ENDDO
- 10   I=I-1
+ 10   I=MIN(I-1,N-1)
       T1=T-TIMEV(I)
       SPLE=A(I)+T1*(A(I+1)-A(I))/(TIMEV(i+1)-TIMEV(I))
       RETURN
-- 
2.43.0


From f9107cd2cbe201d7647d830e3ffffbede2d58935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 085/161] fix: rind: no subscript past the last column in a
 condition, whose parts may be evaluated in any order

---
 source/rind2007/rindmod.f | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/source/rind2007/rindmod.f b/source/rind2007/rindmod.f
index bc5c1c3..0236277 100644
--- a/source/rind2007/rindmod.f
+++ b/source/rind2007/rindmod.f
@@ -448,6 +448,7 @@
       use FIMOD
       integer, intent(in) :: I0,N,FINY
       double precision, intent(in) :: Y
+      logical :: isLast
       double precision :: bound1
 ! locals
       integer :: I,IK,FINA, FINB
@@ -482,7 +483,9 @@
             END IF
          endif
 
-         IF (I.EQ.N.OR.mBIG(IK+1,I+1)>gZERO) THEN
+         isLast = (I.EQ.N)
+         IF (.NOT.isLast) isLast = (mBIG(IK+1,I+1)>gZERO)
+         IF (isLast) THEN
             CALL MVNLMS( AI, BI,2*FINA+FINB-1, D1, E1 )
             IF (D1<E1) bound1 = E1-D1
             return
@@ -503,7 +506,7 @@
       INTEGER :: I, J,  FINA, FINB
       DOUBLE PRECISION :: AI, BI, D0,E0,R12, R13, R23
       DOUBLE PRECISION :: xCut , upError,loError,maxTruncError
-      LOGICAL :: useC1C2,isXd
+      LOGICAL :: useC1C2,isXd,isLast
 
 !
 !     Integrand subroutine
@@ -620,7 +623,9 @@
             mNdleftN0        = mNdleftN0-1
          END IF
 
-         IF (I.EQ.N+1.OR.mBIG(2,I+1)>gZERO) THEN
+         isLast = (I.EQ.N+1)
+         IF (.NOT.isLast) isLast = (mBIG(2,I+1)>gZERO)
+         IF (isLast) THEN
             IF (useC1C2.AND.I<N) THEN
                mY(:) = gZERO
 
@@ -744,7 +749,7 @@
       INTEGER ::  N,I, J, FINA, FINB
       INTEGER ::  NdleftN, NdleftO ,IK
       DOUBLE PRECISION :: TMP, AI, BI, DI, EI
-      LOGICAL :: useC1C2, isXd
+      LOGICAL :: useC1C2, isXd, isLast
 !MVNFUN Multivariate Normal integrand function
 ! where the integrand is transformed from an integral
 ! having integration limits A and B to an
@@ -829,7 +834,9 @@
             mCDIXd(NdleftN) = mCDI(I)
             NdleftN        = NdleftN - 1
          END IF
-         IF (I == N+1 .OR. mBIG(IK+1,I+1) > gZERO ) THEN
+         isLast = (I == N+1)
+         IF (.NOT.isLast) isLast = (mBIG(IK+1,I+1) > gZERO)
+         IF (isLast) THEN
             IF (useC1C2) THEN
 !     Note: for J =I+1:N+1:  Y(J) = conditional expectation, E(Yj|Y1,...Yk)
                CALL C1C2(I+1,N+1,IK,mA,mB,mINFI,mY,mBIG,AI,BI,FINA,FINB)
@@ -1360,7 +1367,8 @@
       DOUBLE PRECISION :: D,AK,BK,CVDIAG
       INTEGER :: KK,K00, KKold, I, J, Ntdc, INFK
       K00 = K0
-      DO WHILE( (0 < K00).AND. (ABS(R(K00,K)).LE.LTOL) )
+      DO WHILE( 0 < K00 )
+         IF (ABS(R(K00,K)) > LTOL) EXIT
          R(K00,K) = gZERO
          K00      = K00 - 1
       ENDDO
-- 
2.43.0


From 573bc2d3054eefbbacc51b527b52ee1b16afc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 086/161] fix: cov2mmpdfreg: remember between the calls whether
 any point can be conditioned on

---
 source/mreg/mregmodule.f | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/mreg/mregmodule.f b/source/mreg/mregmodule.f
index ea63063..38867c9 100644
--- a/source/mreg/mregmodule.f
+++ b/source/mreg/mregmodule.f
@@ -438,8 +438,8 @@ C
       REAL*8, DIMENSION(NMAX), intent(inout) :: BU,DB, SQ
       INTEGER, intent(in) :: NIT,N,INFR
       REAL*8 SDER
-      INTEGER, save :: NNIT
-      INTEGER I,III
+      INTEGER, save :: NNIT,III
+      INTEGER I
 C     DIMENSION R(1),BU(1),SQ(1),DB(1)
 C     DIMENSION INF(10),INFO(10),HH(101)
 C     COMMON /TBR/ HH
-- 
2.43.0


From a4385cc3f3c5c8cee7619891e163e91737e2cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 087/161] fix: rind: sampling error of values that need no
 sampling

---
 source/rind2007/rindmod.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/rind2007/rindmod.f b/source/rind2007/rindmod.f
index 0236277..229dbc5 100644
--- a/source/rind2007/rindmod.f
+++ b/source/rind2007/rindmod.f
@@ -910,6 +910,7 @@
 !     is started. The density f_{Xc}(xc(:,ix))
 !     will be computed and denoted by  fxc.
       DO  ix = 1, mNx
+         ABSERR2 = mSmall
          call initIntegrand(ix,Xc,Ex,indI,Blo,Bup,infin,
      &        fxc,value,abserr,NDIM,inform)
 
-- 
2.43.0


From a37aee0a35f505718528d6e169edd91dfcfbee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:13 +0000
Subject: [PATCH 088/161] fix: prbnormtndpc: leave out unrestricted variables
 without overwriting the others

---
 source/mvnprd/mvnprd_interface.f | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/mvnprd/mvnprd_interface.f b/source/mvnprd/mvnprd_interface.f
index d97a1a1..9d84c5e 100644
--- a/source/mvnprd/mvnprd_interface.f
+++ b/source/mvnprd/mvnprd_interface.f
@@ -2,6 +2,7 @@
       subroutine prbnormtndpc(rho,a,b,NDF,N,abseps,IERC,HNC,PRB,BOUND,
      *  IFAULT)
       double precision A(N),B(N),rho(N),D(N)
+      double precision A1(N),B1(N),rho1(N)
       integer INFIN(N)
       integer NDF,N,IERC
       integer IFAULT
@@ -33,28 +34,27 @@ CCf2py intent(in) A,B,rho
 *            if INFIN(I) = 1, Ith limits are (-infinity, UPPER(I)];
 *            if INFIN(I) = 2, Ith limits are [LOWER(I), UPPER(I)].
       Ndim = 0
+      D = 0.0D0
       DO K = 1,N
+           if (A(K).LE.-INFINITY .AND. B(K).GE.INFINITY) cycle
            Ndim = Ndim + 1
            INFIN(Ndim) = 2
-           D(k) = 0.0
-           if (A(K)-D(K).LE.-INFINITY) THEN
-              if (B(K)-D(K) .GE. INFINITY) THEN
-                 Ndim = Ndim - 1
-                 !INFIN(K) = -1
-              else
-                 INFIN(Ndim) = 1
-              endif
-           else if (B(K)-D(K).GE.INFINITY) THEN
+           if (A(K).LE.-INFINITY) THEN
+              INFIN(Ndim) = 1
+           else if (B(K).GE.INFINITY) THEN
               INFIN(Ndim) = 0
            endif
-           if (ndim<k) then
-              RHO(Ndim) = RHO(k)
-              A(Ndim) = A(K)
-              B(Ndim) = B(K)
-C              D(Ndim) = D(K)
-           endif
+           RHO1(Ndim) = RHO(K)
+           A1(Ndim) = A(K)
+           B1(Ndim) = B(K)
       ENDDO
-      CALL MVSTUD(NDF,B,A,RHO,ABSEPS,Ndim,INFIN,D,IERC,HNC,
+      if (N.GT.0 .AND. Ndim.EQ.0) then
+         PRB = 1.0D0
+         BOUND = 0.0D0
+         IFAULT = 0
+         return
+      endif
+      CALL MVSTUD(NDF,B1,A1,RHO1,ABSEPS,Ndim,INFIN,D,IERC,HNC,
      & PRB,BOUND,IFAULT)
 
 C CALL MVNPRD(A, B, BPD, EPS, N, INF, IERC, HINC, PROB, BOUND,
-- 
2.43.0


From a8d8cb6b4f7f042da03bf9c9b3e09d5ddb994345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:14 +0000
Subject: [PATCH 089/161] fix: prbnormtndpc: refuse more variables than there
 is room for before storing them

---
 source/mvnprd/mvnprd.f | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/mvnprd/mvnprd.f b/source/mvnprd/mvnprd.f
index a74a4c9..bec6db6 100644
--- a/source/mvnprd/mvnprd.f
+++ b/source/mvnprd/mvnprd.f
@@ -847,6 +847,10 @@ C
       !DIMENSION A(*),B(*),BPD(*),INF(*),D(*),F(3),AA(NN),BB(NN)
       DATA ZERO,HALF,TWO,THREE,FOUR / 0.0, 0.5, 2.0, 3.0, 4.0 /
       !external float
+      PROB = ZERO
+      BND  = ZERO
+      IFLT = 1
+      IF (N .LT. 1 .OR. N .GT. NN) RETURN
       DO 10 I = 1, N
          AA(I) = A(I) - D(I)
          BB(I) = B(I) - D(I)
-- 
2.43.0


From 6f4c5e127c1e776aae864677740f1b975c910812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 090/161] fix: findrfc3_astm and findrfc5_astm: room for any
 number of open turning points

---
 source/c_library/c_functions.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/c_library/c_functions.c b/source/c_library/c_functions.c
index 1de23be..7168344 100644
--- a/source/c_library/c_functions.c
+++ b/source/c_library/c_functions.c
@@ -1,4 +1,5 @@
 #include "math.h"
+#include <stdlib.h>
 /*
 *  Install gfortran and run the following to build the module on windows:
  *   f2py c_library.pyf c_functions.c -c --fcompiler=gnu95 --compiler=mingw32 -lmsvcr71
@@ -630,9 +631,12 @@ void disufq2(double *rsvec, double *isvec,
 //http://www.mathworks.com/matlabcentral/fileexchange/3026
 void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
 
-    double *pr, *po, a[16384], ampl, mean;
+    double *pr, *po, *a, ampl, mean;
     int tot_num, index, j, cNr1, cNr2;
 
+    nout[0] = nout[1] = 0;
+    a = (double *) malloc((n + 1)*sizeof(double));
+    if (a == NULL) return;
     tot_num = n;
 
     // pointers to the first element of the arrays
@@ -687,6 +691,7 @@ void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
             cNr2++;
         }
     }
+    free(a);
     // array of ints nout is outputted
     nout[0] = cNr1;
     nout[1] = cNr2;
@@ -701,9 +706,13 @@ void findrfc3_astm(double *array_ext, double *array_out, int n, int *nout) {
 //http://www.mathworks.com/matlabcentral/fileexchange/3026
 void
 findrfc5_astm(double *array_ext, double *array_t, double *array_out, int n, int *nout) {
-    double *pr, *pt, *po, a[16384], t[16384], ampl, mean, period, atime;
+    double *pr, *pt, *po, *a, *t, ampl, mean, period, atime;
     int tot_num, index, j, cNr1, cNr2;
 
+    nout[0] = nout[1] = 0;
+    a = (double *) malloc(2*(n + 1)*sizeof(double));
+    if (a == NULL) return;
+    t = a + n + 1;
 
 //    tot_num = mxGetM(array_ext) * mxGetN(array_ext);
     tot_num = n;
@@ -782,6 +791,7 @@ findrfc5_astm(double *array_ext, double *array_t, double *array_out, int n, int
     }
 //  /* free the memeory !!!*/
 //    mxSetN(array_out, tot_num - cNr);
+    free(a);
     nout[0] = cNr1;
     nout[1] = cNr2;
 }
-- 
2.43.0


From 93d9c252a05fc4f9a5d10113bc13d1e1dbfe75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 091/161] fix: sf2returnperiod of scalars and integers

---
 src/wafo/stats/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index c8a2258..32ba7b4 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -532,8 +532,7 @@ def sf2returnperiod(q, numevents_per_unit=1):
     prbi, npu = np.broadcast_arrays(q, numevents_per_unit)
     inv_period = npu * prbi
     nan_mask = (npu < 0) | (prbi < 0) | (1 <= prbi)
-    inv_period[nan_mask] = np.nan
-    return 1./inv_period
+    return 1./np.where(nan_mask, np.nan, inv_period)
 
 
 def findpot(data, t=None, thresh=None, tmin=1):
-- 
2.43.0


From 721c0bc2b008782c1d5e187a9aef204cb051adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:00 +0000
Subject: [PATCH 092/161] fix: reslife: confidence interval from the sample
 standard deviation (n-1)

---
 src/wafo/stats/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 32ba7b4..3eca083 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -220,7 +220,8 @@ def reslife(data, u=None, umin=None, umax=None, nu=None, nmin=3, alpha=0.05,
     # num = valarray(nu)
 
     def mean_and_std(data1):
-        return data1.mean(), data1.std(), data1.size
+        std = data1.std(ddof=1) if data1.size > 1 else 0.0
+        return data1.mean(), std, data1.size
 
     dat = asarray(data)
     tmp = asarray([mean_and_std(dat[dat > tresh] - tresh) for tresh in asarray(u).tolist()])
-- 
2.43.0


From 52e82ecaeb4c5a6525dfa8901eba25065eee4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:00 +0000
Subject: [PATCH 093/161] fix: dispersion_idx: sample variance (M-1), as its
 confidence interval presumes

---
 src/wafo/stats/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 3eca083..7d353ea 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -373,7 +373,7 @@ def dispersion_idx(
         for block in range(M):
             occ[block] = sum(excess[t1 == block])
 
-        di[ix] = occ.var() / lambda_
+        di[ix] = occ.var(ddof=1) / lambda_
 
     p = 1.0 - alpha
 
-- 
2.43.0


From d3cfcd5f3d8fcf5b22f9863a6e929d6c8ac732d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:48 +0000
Subject: [PATCH 094/161] fix: cov2mmpdfreg: refuse more points than there is
 room for instead of ending the process

---
 source/mreg/cov2mmpdfreg_intfc.f | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/mreg/cov2mmpdfreg_intfc.f b/source/mreg/cov2mmpdfreg_intfc.f
index 5ddb0ad..ab5e8d4 100644
--- a/source/mreg/cov2mmpdfreg_intfc.f
+++ b/source/mreg/cov2mmpdfreg_intfc.f
@@ -56,9 +56,9 @@ C      COMMON /INFC/   ISQ,INF,INFO
       REAL*8, DIMENSION(Nv), intent(in):: VLev
       REAL*8, DIMENSION(Ng), intent(in):: Tg, Xg
       REAL*8, dimension(Nt), intent(in):: T
-Cf2py integer, intent(hide), depend(t) :: Nt = len(t)
-Cf2py integer, intent(hide), depend(Ulev) :: Nu = len(Ulev)
-Cf2py integer, intent(hide), depend(Vlev) :: Nv = len(Vlev)
+Cf2py integer, intent(hide), depend(t), check(2<=Nt && Nt<=200) :: Nt = len(t)
+Cf2py integer, intent(hide), depend(Ulev), check(1<=Nu && Nu<=201) :: Nu = len(Ulev)
+Cf2py integer, intent(hide), depend(Vlev), check(1<=Nv && Nv<=201) :: Nv = len(Vlev)
 Cf2py integer, intent(hide), depend(Tg) :: Ng = len(Tg)
 Cf2py integer, optional :: NIT = 2
 Cf2py real*8, intent(out), depend(Nu,Nv) :: UVdens
-- 
2.43.0


From 420bca537696d46c9131fe626f097842ba9ec4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:18 +0000
Subject: [PATCH 095/161] fix: rind: diagonal elements of variables that are
 never factorised are read before they are set

---
 source/rind2007/rindmod.f | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/rind2007/rindmod.f b/source/rind2007/rindmod.f
index 229dbc5..9bdcd1e 100644
--- a/source/rind2007/rindmod.f
+++ b/source/rind2007/rindmod.f
@@ -319,6 +319,7 @@
       ALLOCATE(mBIG(mNtdc,mNtdc),mCm(mNtdc),mY(mNtd))
       ALLOCATE(mIndex1(mNtdc),mA(mNtd),mB(mNtd),mINFI(mNtd),mXc(mNc))
       ALLOCATE(mCDI(mNtd),mXedni(mNtdc),mIndex2(mNtdc))
+      mCDI(:)   = gZERO
 
 !     Initialization
 !~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From fcda8479347a77b13efb4970a9577d58d07c3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 096/161] fix: romberg fails for intervals shorter than one and
 for reversed limits

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dc0b95f..3a3d0d3 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -170,7 +170,7 @@ def romberg(fun, a, b, releps=1e-3, abseps=1e-3):
     h = b - a
     h_min = 1.0e-9
     # Max size of extrapolation table
-    table_limit = max(min(np.round(np.log2(h / h_min)), 30), 3)
+    table_limit = int(max(min(np.round(np.log2(max(abs(h), h_min) / h_min)), 30), 3))
 
     rom = zeros((2, table_limit))
 
-- 
2.43.0


From 0c76c96a55062d977b3570099d023ee59f309e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 097/161] fix: gaussq: nodes for shape parameters that agree in
 six digits only are taken for the same

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 3a3d0d3..dd65567 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -938,7 +938,7 @@ class _Gaussq(object):
     @staticmethod
     def _nodes_and_weights(num_nodes, wfun, alpha, beta):
         global _NODES_AND_WEIGHTS
-        name = 'wfun{:d}_{:d}_{:g}_{:g}'.format(wfun, num_nodes, alpha, beta)
+        name = 'wfun{:d}_{:d}_{!r}_{!r}'.format(wfun, num_nodes, alpha, beta)
         nodes_and_weights = _NODES_AND_WEIGHTS[name]
         if len(nodes_and_weights) == 0:
             nodes_and_weights.extend(qrule(num_nodes, wfun, alpha, beta))
-- 
2.43.0


From 01b21c7de47fea2b723274d1452ac291a8d1d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 098/161] fix: clencurt: error estimate is not negative for
 reversed limits

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index dd65567..8acc23a 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -125,7 +125,7 @@ def clencurt(fun, a, b, n=5, trace=False):
     c = c[0:n + 1, :] / ((s_2 - 1) * (s_2 + 1))
     q_val = (a - b) * np.sum(c, axis=0)
 
-    abserr = (b - a) * np.abs(c[n, :])
+    abserr = np.abs((b - a) * c[n, :])
 
     if a_size > 1:
         abserr = np.reshape(abserr, a_shape)
-- 
2.43.0


From 221dd200339262e0f88b498c47c180ea1854dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 099/161] fix: clencurt: leave the values the integrand
 returned alone, and do not truncate integers

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 8acc23a..d2d98f2 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -92,7 +92,7 @@ def clencurt(fun, a, b, n=5, trace=False):
     x = np.cos(np.pi * s / n_2) * (b - a) / 2. + (b + a) / 2
 
     if hasattr(fun, '__call__'):
-        f = fun(x)
+        f = np.array(fun(x), dtype=float)
     else:
         x_0 = np.flipud(fun[:, 0])
         n_2 = len(x_0) - 1
-- 
2.43.0


From 9425f8ed3b1f8f210f130d317c7437cbe33d1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 100/161] fix: gaussq and quadgr truncate the integral of an
 integrand that returns integers

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index d2d98f2..2f0ceb6 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -1020,7 +1020,7 @@ class _Gaussq(object):
         # Break out of the iteration loop for three reasons:
         #  1) the last update is very small (compared to int and to releps)
         #  2) There are more than 11 iterations. This should NEVER happen.
-        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args))
+        dtype = np.result_type(fun((a_0 + b_0) * 0.5, *args), float)
         n_k = np.prod(a_shape)  # # of integrals we have to compute
         k = np.arange(n_k)
         opt = (n_k, dtype)
@@ -1191,7 +1191,7 @@ class _Quadgr(object):
         return q_val, err
 
     def _integrate(self, fun, a, b, abseps, max_iter):
-        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4))
+        dtype = np.result_type(fun((a + b) / 2), fun((a + b) / 4), float)
 
         # Initiate vectors
         val0 = zeros(max_iter, dtype=dtype)  # Quadrature
-- 
2.43.0


From 1a5d93f375cb4c857d4a1ef70c241bc63308f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 101/161] fix: la_roots: weights have the shape of the nodes

---
 src/wafo/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 2f0ceb6..7891323 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -532,7 +532,7 @@ def _la_roots_newton(n, alpha, releps=3e-14, max_iter=10):
 
     nodes = z
     weights = -np.exp(sp.gammaln(alpha + n) -
-                      sp.gammaln(n)) / (p_deriv * n * p_previous)
+                      sp.gammaln(n)) / (p_deriv * n * p_previous)[0]
     return nodes, weights
 
 
-- 
2.43.0


From b500daebf45c729bfca31ef8cc6bb4b85a15f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:28 +0000
Subject: [PATCH 102/161] fix: p_roots and h_roots: one node for one point
 rules

---
 src/wafo/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/integrate.py b/src/wafo/integrate.py
index 7891323..b5eeb98 100644
--- a/src/wafo/integrate.py
+++ b/src/wafo/integrate.py
@@ -636,8 +636,8 @@ def _expand_roots(x, w, n, m):
         x[m - 1] = 0.0
     if not (m + m) == n:
         m = m - 1
-    x = np.hstack((x, -x[m - 1::-1]))
-    w = np.hstack((w, w[m - 1::-1]))
+    x = np.hstack((x, -x[:m][::-1]))
+    w = np.hstack((w, w[:m][::-1]))
     return x, w
 
 
-- 
2.43.0


From 2d961853ace39cb18e8c03fa9b8cde8adf6ef9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:28 +0000
Subject: [PATCH 103/161] fix: QuadOsc refuses every infinite interval

---
 src/wafo/integrate_oscillating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/integrate_oscillating.py b/src/wafo/integrate_oscillating.py
index a5f33d7..f1b087f 100644
--- a/src/wafo/integrate_oscillating.py
+++ b/src/wafo/integrate_oscillating.py
@@ -216,7 +216,7 @@ class QuadOsc(_Integrator):
             pass
         elif np.isinf(a) | np.isinf(b):
             # Check real limits
-            if ~np.isreal(a) | ~np.isreal(b) | np.isnan(a) | np.isnan(b):
+            if not (np.isreal(a) and np.isreal(b)) or np.isnan(a) or np.isnan(b):
                 raise ValueError('Infinite intervals must be real.')
             # Change of variable
             if np.isfinite(a) & np.isinf(b):
-- 
2.43.0


From aada42220521674f2c0cf42e2e716ad9a535ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 104/161] fix: PPform: values at integer arguments are
 truncated

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 34497ac..f0c44d0 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -348,7 +348,7 @@ class PPform(object):
     def __call__(self, xnew):
         saveshape = np.shape(xnew)
         xnew = np.ravel(xnew)
-        res = np.empty_like(xnew)
+        res = np.empty(xnew.shape, dtype=np.result_type(xnew, self.coeffs, np.float_))
         mask = (self.a <= xnew) & (xnew <= self.b)
         res[~mask] = self.fill
         xx = xnew.compress(mask)
-- 
2.43.0


From 928a84e70f4e20cb89807ca8058f8a504f2460b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 105/161] fix: PPform: the derivative and the integral are
 defined where the function is

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index f0c44d0..35b1102 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -428,7 +428,7 @@ class PPform(object):
 
         cof = pl.polyder(self.coeffs)
         brks = self.breaks.copy()
-        return PPform(cof, brks, fill=self.fill)
+        return PPform(cof, brks, fill=self.fill, a=self.a, b=self.b)
 
     def integrate(self):
         """
@@ -450,7 +450,7 @@ class PPform(object):
 
             cof[-1] = np.hstack((0, vv)).cumsum()
 
-        return PPform(cof, self.breaks, fill=self.fill)
+        return PPform(cof, self.breaks, fill=self.fill, a=self.a, b=self.b)
 
 #     def fromspline(self, xk, cvals, order, fill=0.0):
 #         N = len(xk) - 1
-- 
2.43.0


From b866188a663b812468c399211d99dc2fc0f2117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 106/161] fix: PPform: straight lines are not extrapolated

---
 src/wafo/interpolate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 35b1102..206deaa 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -375,9 +375,10 @@ class PPform(object):
 
         if self.order <= max_order:
             if output:
-                return self
-            else:
-                return
+                return PPform(self.coeffs, self.breaks, fill=self.fill, a=-inf, b=inf)
+            self.a = -inf
+            self.b = inf
+            return
         breaks = self.breaks.copy()
         coefs = self.coeffs.copy()
         # pieces = len(breaks) - 1
-- 
2.43.0


From 4a7b5b0d26ad54924456cfeeb42c14fd1460eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 107/161] fix: SmoothSpline of two points

---
 src/wafo/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 206deaa..f28b86d 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -638,7 +638,7 @@ class SmoothSpline(PPform):
         dydx = np.diff(y) / dx
 
         if (n == 2):  # straight line
-            coefs = np.vstack([dydx.ravel(), y[0, :]])
+            coefs = np.vstack([dydx.ravel(), y[..., 0].ravel()])
             return coefs, x
         D = sparse.spdiags(var * ones(n), 0, n, n)  # The variance
         coefs = self._poly_coefs(y, dx, dydx, n, nd, p, D)
-- 
2.43.0


From d00a483d3507c5c66d2c7f18e5e108222d4971f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 108/161] fix: SmoothSpline: sort the variances along with the
 data

---
 src/wafo/interpolate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index f28b86d..3f2c329 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -578,8 +578,10 @@ class SmoothSpline(PPform):
             ind = x.argsort()
             x = x[ind]
             y = y[..., ind]
+            if var.size > 1:
+                var = var.ravel()[ind]
             dx = np.diff(x)
-        return x, y, dx
+        return x, y, dx, var
 
     def _init_poly_coefs(self, dx, dydx, n, p, D):
         dx1 = 1. / dx
@@ -625,7 +627,7 @@ class SmoothSpline(PPform):
         return coefs
 
     def _compute_coefs(self, xx, yy, p=None, var=1):
-        x, y, dx = self._spacing(xx, yy, var)
+        x, y, dx, var = self._spacing(xx, yy, var)
         n = len(x)
 
         szy = y.shape
-- 
2.43.0


From a6d89d77dd1ef7dee8d706300e86f4214f03188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 109/161] fix: slopes: Steffen slope at the ends of decreasing
 data

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 3f2c329..4ff5a42 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -844,8 +844,8 @@ def _steffen_slope(x, y, dx, dydx, *args):
         p1 = dydx[-1] * (1 + w1) - dydx[-2] * w1
         s0 = np.sign(p0) + np.sign(dydx[0])
         s1 = np.sign(p1) + np.sign(dydx[-1])
-        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * p0)
-        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * p1)
+        yp[0] = s0 * np.minimum(np.abs(dydx[0]), 0.5 * np.abs(p0))
+        yp[-1] = s1 * np.minimum(np.abs(dydx[-1]), 0.5 * np.abs(p1))
     else:
         yp[0] = 2.0 * dydx[0] - yp[1]
         yp[-1] = 2.0 * dydx[-1] - yp[-2]
-- 
2.43.0


From e1d52b89f5c433dc0bdb967d59ef71b108965d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 110/161] fix: slopes of two points

---
 src/wafo/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 4ff5a42..3d334ce 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -965,6 +965,8 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
                      sti=_stineman_slope,
                      ste=_steffen_slope,
                      fri=_fritsch_carlson_slope)[method[:3]]
+    if len(x) == 2 and method[:3] != 'car':
+        slope_fun = _secant_slope
     yp = slope_fun(x, y, dx, dydx, tension)
 
     if monotone:
-- 
2.43.0


From 6b815f96096f4c7e0cbad9595d2a4086c1aa857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:08 +0000
Subject: [PATCH 111/161] fix: slopes: monotone=True lets the curve turn back
 between monotone data

---
 src/wafo/interpolate.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 3d334ce..0d76b88 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -981,8 +981,10 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
             # ignore division by zero and NaN
             alpha = yp[:-1] / dydx
             beta = yp[1:] / dydx
-            dist = alpha ** 2 + beta ** 2
-            tau = 3.0 / np.sqrt(dist)
+
+        # Slopes in the opposite direction of the data
+        yp[:-1][alpha < 0] = 0.0
+        yp[1:][beta < 0] = 0.0
 
         # To prevent overshoot or undershoot, restrict the position vector
         # (alpha, beta) to a circle of radius 3.  If (alpha**2 +  beta**2)>9,
@@ -990,11 +992,12 @@ def slopes(x, y, method='stineman', tension=0, monotone=False, scale=False):
         #  m[k+1] =  tau[k]beta[b]delta[k]
         # where tau = 3/sqrt(alpha**2 + beta**2).
 
-        # Find the indices that need adjustment
-        indices_to_fix, = (dist > 9.0).nonzero()
+        # An adjustment in one interval only reduces the slopes of its neighbours
+        indices_to_fix, = dydx.nonzero()
         for ii in indices_to_fix:
-            yp[ii] = tau[ii] * alpha[ii] * dydx[ii]
-            yp[ii + 1] = tau[ii] * beta[ii] * dydx[ii]
+            dist = np.hypot(yp[ii], yp[ii + 1]) / np.abs(dydx[ii])
+            if dist > 3.0:
+                yp[ii:ii + 2] *= 3.0 / dist
     if scale:
         return yp * sy/sx
     return yp
-- 
2.43.0


From bd5d9233b8f1159f11f82e25163f6fea1f8ce842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 112/161] fix: polyreloc truncates polynomials with integer
 coefficients

---
 src/wafo/polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9a2be6c..7706c77 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -526,7 +526,8 @@ def polyreloc(p, x, y=0.0):
         return r
 
     def _relocate_with_horner(p, x, y):
-        r = np.atleast_1d(p).copy()
+        r = np.atleast_1d(p)
+        r = r.astype(np.result_type(r, x, y or 0))
         n = r.shape[0]
         # Relocate polynomial using Horner's algorithm
         for ii in range(n, 1, -1):
-- 
2.43.0


From d676f7520a87d441f0649819055c28a6a20205fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 113/161] fix: poly2hstr: power of x behind the last
 coefficient

---
 src/wafo/polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 7706c77..8714a2c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -722,6 +722,8 @@ def poly2hstr(p, variable='x'):
     # Now treat the special case where the polynomial is zero.
     if s == '':
         s = '0'
+    elif ix > 2:  # trailing zeros
+        s = '{0:s}**{1:d}'.format(s, ix - 1)
     return s
 
 
-- 
2.43.0


From 91756d446ee08a60bde6815dc9aec976e578a945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 114/161] fix: chebval: values next to an integer fill value
 are truncated, and the end points are filled

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 8714a2c..500fee1 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1568,8 +1568,9 @@ def chebval(x, ck, a=-1, b=1, kind=1, fill=None):
     if fill is None:
         f = _chebval(y, ck, kind=kind)
     else:
-        cond = (abs(y) <= 1)
-        f = np.where(cond, 0, fill)
+        x = np.atleast_1d(x)
+        cond = (a <= x) & (x <= b)
+        f = np.where(cond, 0.0, fill)
         if np.any(cond):
             yk = np.extract(cond, y)
             f[cond] = _chebval(yk, ck, kind=kind)
-- 
2.43.0


From feda5cc9479806f88761ce9a635faee3c8cade7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 115/161] fix: chebder: constant term, and polynomials of
 degree zero and one

---
 src/wafo/polynomial.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 500fee1..b587c96 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1623,11 +1623,14 @@ def chebder(ck, a=-1, b=1):
     """
 
     n = len(ck) - 1
-    cder = np.zeros(n, dtype=np.asarray(ck).dtype)
-    cder[0] = 2 * n * ck[0]
-    cder[1] = 2 * (n - 1) * ck[1]
-    for j in range(2, n):
-        cder[j] = cder[j - 2] + 2 * (n - j) * ck[j]
+    if n == 0:
+        return np.zeros(1)
+    cder = np.zeros(n, dtype=np.result_type(np.asarray(ck), float))
+    for j in range(n):
+        cder[j] = 2 * (n - j) * ck[j]
+        if j > 1:
+            cder[j] += cder[j - 2]
+    cder[-1] /= 2.
 
     return cder * 2. / (b - a)  # Normalize to the interval b-a.
 
-- 
2.43.0


From c9a2d37106aa704c0bcde7fbd30261d002dfdfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 116/161] fix: chebint: order of the coefficients, highest term
 and integration constant

---
 src/wafo/polynomial.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index b587c96..9e1ee18 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1689,24 +1689,9 @@ def chebint(ck, a=-1, b=1):
 # int p(x) dx = sum cn * int(Tn(x)dx) =
 # 0.5*sum cn *{Tn+1(x)/(n+1) - Tn-1(x)/(n-1)} = 0.5 sum (cn-1-cn+1)*Tn/n n>0
 
-    n = len(ck)
-
-    cint = np.zeros(n)
-    con = 0.25 * (b - a)
-
-    dif1 = np.diff(ck[-1::-2])
-    ix1 = np.r_[1:n - 1:2]
-    cint[ix1] = -(con * dif1) / ix1
-    if n > 3:
-        dif2 = np.diff(ck[-2::-2])
-        ix2 = np.r_[2:n - 1:2]
-        cint[ix2] = -(con * dif2) / ix2
-    cint = cint[::-1]
-    # cint(n) is a special case
-    cint[-1] = (con * ck[n - 2]) / (n - 1)
-    # Set integration constant
-    cint[0] = 2 * np.sum((-1) ** np.r_[0:n - 1] * cint[-2::-1])
-    return cint
+    # The integration constant is set so that the integral is zero at x=a
+    cint = np.polynomial.chebyshev.chebint(np.asarray(ck)[::-1], lbnd=-1, scl=0.5 * (b - a))
+    return cint[::-1]
 
 
 class Cheb1d(object):
-- 
2.43.0


From 8410fcc666f5cbb51b258e13d9b330751946bd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 117/161] fix: Cheb1d drops a zero constant term, and its
 arithmetic always raises

---
 src/wafo/polynomial.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 9e1ee18..75a3bf7 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1706,9 +1706,11 @@ class Cheb1d(object):
             for key in ck.__dict__:
                 self.__dict__[key] = ck.__dict__[key]
             return
-        cki = trim_zeros(np.atleast_1d(ck), 'b')
+        cki = np.trim_zeros(np.atleast_1d(ck), 'f')
         if len(cki.shape) > 1:
             raise ValueError("Polynomial must be 1d only.")
+        if len(cki) == 0:
+            cki = np.zeros(1)
         self.__dict__['coeffs'] = cki
         self.__dict__['order'] = len(cki) - 1
         self.__dict__['a'] = a
@@ -1736,18 +1738,14 @@ class Cheb1d(object):
         pass
 
     def __neg__(self):
-        new = Cheb1d(self)
-        new.coeffs = -self.coeffs
-        return new
+        return Cheb1d(-self.coeffs, self.a, self.b, self.kind)
 
     def __pos__(self):
         return self
 
     def __add__(self, other):
         other = Cheb1d(other)
-        new = Cheb1d(self)
-        new.coeffs = polyadd(self.coeffs, other.coeffs)
-        return new
+        return Cheb1d(polyadd(self.coeffs, other.coeffs), self.a, self.b, self.kind)
 
     def __radd__(self, other):
         return self.__add__(other)
@@ -1756,18 +1754,15 @@ class Cheb1d(object):
         return self.__add__(-other)
 
     def __rsub__(self, other):
-        new = self.__sub__(other)
-        new.coeffs *= -1
-        return new
+        return -self.__sub__(other)
 
     def __eq__(self, other):
         other = Cheb1d(other)
-        return (np.all(self.coeffs == other.coeffs) and (self.a == other.a) and
+        return (np.array_equal(self.coeffs, other.coeffs) and (self.a == other.a) and
                 (self.b == other.b) and (self.kind == other.kind))
 
     def __ne__(self, other):
-        return np.any(self.coeffs != other.coeffs) or (self.a != other.a) or (
-            self.b != other.b) or (self.kind != other.kind)
+        return not self == other
 
     def __setattr__(self, key, val):
         raise ValueError("Attributes cannot be changed this way.")
@@ -1776,7 +1771,10 @@ class Cheb1d(object):
         name = dict(c='coeffs', coef='coeffs', coefficients='coeffs',
                     o='order', k='kind').get(key, key)
         # return getattr(self, name)
-        return self.__dict__[name]
+        try:
+            return self.__dict__[name]
+        except KeyError:
+            raise AttributeError(key)
 
     def __getitem__(self, val):
         if val > self.order:
@@ -1810,9 +1808,7 @@ class Cheb1d(object):
         chebint : equivalent function
 
         """
-        integ = Cheb1d(self)
-        integ.coeffs = chebint(self.coeffs, self.a, self.b)
-        return integ
+        return Cheb1d(chebint(self.coeffs, self.a, self.b), self.a, self.b, self.kind)
 
     def deriv(self, m=1):
         """
@@ -1825,9 +1821,7 @@ class Cheb1d(object):
         chebder : equivalent function
 
         """
-        der = Cheb1d(self)
-        der.coeffs = chebder(self.coeffs, self.a, self.b)
-        return der
+        return Cheb1d(chebder(self.coeffs, self.a, self.b), self.a, self.b, self.kind)
 
 
 def padefit(c, m=None):
-- 
2.43.0


From 4fcf646a2a5cc5aedf93a2c34d04be6cbf22ed1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 118/161] fix: padefitlsq refuses more samples than it asks for

---
 src/wafo/polynomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 75a3bf7..61a57f5 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2000,6 +2000,7 @@ def padefitlsq(fun, m, k, a=-1, b=1, trace=False, x=None, end_points=True):
     npt = NFAC * ncof
 
     x, fs = _init(fun, a, b, x, end_points, npt)
+    npt = len(fs)
 
     _cond_plot1(trace, x, fs)
 
-- 
2.43.0


From 343dc1700d84e51cf788a8d0c147a06b37e42458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 119/161] fix: chebfitnd: right hand side and scale are
 interchanged, weights multiply the columns

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 61a57f5..8efcf2c 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -2231,7 +2231,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
         if w is not None:
             w = np.asarray(w).ravel() + 0.0
             _check_size(w, len(lhs))
-            lhs = lhs * w
+            lhs = lhs * w[:, newaxis]
             rhs = rhs * w
         scl = _scale(lhs)
         return lhs, scl, rhs
@@ -2244,7 +2244,7 @@ def chebfitnd(xi, f, deg, rcond=None, full=False, w=None):
     orders = degrees + 1
     order = np.product(orders)
 
-    lhs, rhs, scl = _init(xi, z, w, degrees, order)
+    lhs, scl, rhs = _init(xi, z, w, degrees, order)
 
     if rcond is None:
         rcond = xi[0].size * np.finfo(xi[0].dtype).eps
-- 
2.43.0


From bf2ab47fd6a74e57ac8a278d29d07e06a4a124f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:07 +0000
Subject: [PATCH 120/161] fix: chebfit_dct: order of the dimensions when there
 are more than two, and args

---
 src/wafo/polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 8efcf2c..67e0cd9 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -1354,8 +1354,9 @@ def chebfit_dct(f, n=(10, ), domain=None, args=()):
         if hasattr(f, '__call__'):
             xi = [map_to_interval(chebroot(ni), d[0], d[1])
                   for ni, d in _zip(n, domain)]
-            Xi = np.meshgrid(*xi)
-            return f(*Xi) / np.product(n), len(n)
+            Xi = np.meshgrid(*xi, indexing='ij')
+            # The transform below needs the last dimension first
+            return np.moveaxis(f(*Xi, *args) / np.product(n), -1, 0), len(n)
         return f / np.product(f.shape), f.ndim
 
     ck, ndim = _init_ck(f, n, domain)
-- 
2.43.0


From 07ca82e7a9b19680424df3cbb9a9c0c7f64761bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 121/161] fix: nt2fr: first term of the second difference

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 8383c60..d1ca82d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -26,7 +26,7 @@ def nt2fr(nt, kind=0):
     """
 
     n = len(nt)
-    fr_raw = (nt[:n - 1, :][:, n - 1] + nt[1:, :][:, 1:] -
+    fr_raw = (nt[:n - 1, :][:, :n - 1] + nt[1:, :][:, 1:] -
               nt[:n - 1, :][:, 1:] - nt[1:, :][:, :n - 1])
 
     fr = np.zeros(np.shape(nt))
-- 
2.43.0


From 45b7c4b2248a2523f40104a24f44c2d2572630b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 122/161] fix: fr2nt raises for every matrix

---
 src/wafo/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index d1ca82d..ac8db76 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -58,9 +58,9 @@ def fr2nt(fr):
     if n != m:
         raise ValueError('The matrix is not square!')
 
-    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr)
+    m1 = np.cumsum(np.cumsum(fr, axis=1) - fr, axis=0)
     m2 = np.zeros((n, n))
-    m2[1:, 1:] = m1[:n - 2, :][:, 1:]
+    m2[1:, 1:] = m1[:n - 1, :][:, 1:]
     nt = np.fliplr(np.triu(np.fliplr(m2), 0))
 
     return nt
-- 
2.43.0


From 741e0ff9c148ab5b83ba965a6d642d9990312ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 123/161] fix: mctp2tc normalises the matrix of the caller

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index ac8db76..3ac1a79 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -391,7 +391,7 @@ def mctp2tc(f_Mm, utc, param, f_mM=None):
     _check_discretization(param, ntc)
 
     # normalization of frequency matrices
-    f_Mm = _normalize_rows(f_Mm)
+    f_Mm = _normalize_rows(f_Mm * 1.0)
     P = np.fliplr(f_Mm)
     Ph = np.rot90(np.fliplr(f_mM * 1.0), -1)
     Ph = _normalize_rows(Ph)
-- 
2.43.0


From fb9e0251ebb786b31e644db62f3ba4726bf7e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:56 +0000
Subject: [PATCH 124/161] fix: mktestmat: the diagonal is zero

---
 src/wafo/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/markov.py b/src/wafo/markov.py
index 3ac1a79..29fbf8d 100644
--- a/src/wafo/markov.py
+++ b/src/wafo/markov.py
@@ -802,7 +802,7 @@ def mktestmat(param=(-1, 1, 32), x0=None, s=None, lam=1, numsubzero=0):
                                  [lam**2 - 1, lam**2 + 1]])
     Sm1 = np.linalg.pinv(S)
     for i in range(min(n - 1 - numsubzero, n)):
-        for j in range(max(i + numsubzero, 0), n):
+        for j in range(max(i + 1 + numsubzero, 0), n):
             dx = np.array([u[i], u[j]]) - x0
             F[i, j] = np.exp(-1 / 2 * np.dot(np.dot(dx, Sm1), dx))
 
-- 
2.43.0


From 9bff3b64f3b2732aeefa16e51931dfeee3fdf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 125/161] fix: smoothn raises for matrices with missing values

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index d5eb26b..2ccb810 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -368,7 +368,7 @@ class _Filter(object):
         if (1 - I).any():
             notI = ~I
             z, L = distance_transform_edt(notI, return_indices=True)
-            z[notI] = y[L.flat[notI]]
+            z[notI] = y[tuple(L[:, notI])]
 
         # coarse fast smoothing using one-tenth of the DCT coefficients
         shape = z.shape
-- 
2.43.0


From a0371a5e8c25c6004449c7b4869ef4d3c17c86b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 126/161] fix: evar: smooth with thin plate splines, i.e.
 square the eigenvalues

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 2ccb810..00a5d82 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -256,7 +256,7 @@ def evar(y):
         S += cos(pi * t)
         sh1[i] = 1
 
-    S2 = 2 * (d - S).ravel()
+    S2 = (2 * (d - S).ravel()) ** 2
     # N-D Discrete Cosine Transform of Y
     dcty2 = dctn(y).ravel() ** 2
 
-- 
2.43.0


From ad6c35b2621a6ab96fd6c7daebbbcff8d2d6b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 127/161] fix: SavitzkyGolay.smooth_last changes the filter
 when given more than one signal

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index 00a5d82..fbf957a 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -157,7 +157,7 @@ class SavitzkyGolay(object):
         if n == 0:
             return y
         if y.ndim > 1:
-            coeff.shape = (-1, 1)
+            coeff = coeff.reshape(-1, 1)
         first_vals = y[0] - np.abs(y[n:0:-1] - y[0])
         last_vals = y[-1] + np.abs(y[-2:-n - 2:-1] - y[-1])
         y = concatenate((first_vals, y, last_vals))
-- 
2.43.0


From 8f4beef5a3e2c99a8244f000822136f079addb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 128/161] fix: SavitzkyGolay.smooth_last: sign of odd
 derivatives

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index fbf957a..fe94fc8 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -151,7 +151,7 @@ class SavitzkyGolay(object):
                                                     delta=delta)
 
     def smooth_last(self, signal, k=1):
-        coeff = self._coeff
+        coeff = self._coeff[::-1]
         n = (np.size(coeff) - 1) // 2
         y = np.squeeze(signal)
         if n == 0:
-- 
2.43.0


From 7f9d82b8851a0b81e8491909f561d3d334ef902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 129/161] fix: HampelFilter raises for integers

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index fe94fc8..f1180b5 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1201,7 +1201,7 @@ class HampelFilter(object):
         self._check(dx)
 
         Y0, S0, ADX = self._filter(Y, X, dx)
-        YY = Y.copy()
+        YY = Y.astype(np.result_type(Y, float))
         T = self.t
         # Prepare Output
         self.UB = Y0 + T * S0
-- 
2.43.0


From 565ddf58ecfbe3806c2b8257a1834d75a29422fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 130/161] fix: dctn, idctn, dstn and idstn: negative axes are
 ignored

---
 src/wafo/dctpack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/dctpack.py b/src/wafo/dctpack.py
index 2f5e0c2..faa9476 100644
--- a/src/wafo/dctpack.py
+++ b/src/wafo/dctpack.py
@@ -176,7 +176,7 @@ def _get_axes(y, shape, axes):
     if len(axes) != len(shape):
         raise ValueError("when given, axes and shape arguments "
                          "have to be of the same length")
-    return list(axes)
+    return [axis % y.ndim for axis in axes]
 
 
 def _raw_dctn(y, type, shape, axes, norm, fun):  # @ReservedAssignment
-- 
2.43.0


From 387c1f0419c1e5c8d061e12ec9f7337679f1f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 131/161] fix: padua_fit of degree zero

---
 src/wafo/padua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/padua.py b/src/wafo/padua.py
index 6cb6390..f79dff8 100644
--- a/src/wafo/padua.py
+++ b/src/wafo/padua.py
@@ -391,7 +391,7 @@ def padua_fit(Pad, fun, *args):
     N = np.shape(Pad)[1]
     # recover the degree n from N = (n+1)(n+2)/2
     n = int(round(-3 + np.sqrt(1 + 8 * N)) / 2)
-    C0f = fun(Pad[0], Pad[1], *args)
+    C0f = np.atleast_2d(fun(Pad[0], Pad[1], *args))
     if (n > 0):
         ix = _find_m(n)
         GfT = np.zeros((n + 2) * (n + 1))
-- 
2.43.0


From 8fea0a433302e99858efdfbafd291028dc340a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 132/161] fix: savitzky_golay: sign and size of the derivatives

---
 src/wafo/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 0d76b88..5253863 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -97,13 +97,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     # precompute coefficients
     b = np.mat([[k ** i for i in order_range]
                 for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * np.prod(np.arange(1., deriv + 1))
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def _get_turnpoint(xvals):
-- 
2.43.0


From 373d469c44962e22df739e059b7b7ec439431f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:42 +0000
Subject: [PATCH 133/161] fix: savitzky_golay raises for lists

---
 src/wafo/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/interpolate.py b/src/wafo/interpolate.py
index 5253863..6e7f6c3 100644
--- a/src/wafo/interpolate.py
+++ b/src/wafo/interpolate.py
@@ -90,6 +90,7 @@ def savitzky_golay(y, window_size, order, deriv=0):
 
     window_size = np.abs(int(window_size))
     order = np.abs(int(order))
+    y = np.asarray(y)
 
     _check_window_size(window_size, min_size=order + 2)
     order_range = range(order + 1)
-- 
2.43.0


From e8195f7d4117ea47cc0db098a7bf2c2a02c2f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 134/161] fix: getbit and setbit of lists and of 64 bit
 unsigned integers

---
 src/wafo/bitwise.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wafo/bitwise.py b/src/wafo/bitwise.py
index 642d7d3..3b8b33d 100644
--- a/src/wafo/bitwise.py
+++ b/src/wafo/bitwise.py
@@ -2,6 +2,7 @@
 Module extending the bitoperator capabilites of numpy
 """
 
+import numpy as np
 from numpy import (bitwise_and, bitwise_or,
                    bitwise_not, binary_repr,  # @UnusedImport
                    bitwise_xor, where, arange)  # @UnusedImport
@@ -9,6 +10,13 @@ __all__ = ['bitwise_and', 'bitwise_or', 'bitwise_not', 'binary_repr',
            'bitwise_xor', 'getbit', 'setbit', 'getbits', 'setbits']
 
 
+def _asintegers(i, bit):
+    i, bit = np.asarray(i), np.asarray(bit)
+    if i.dtype == np.uint64:  # does not mix with signed integers
+        bit = bit.astype(i.dtype)
+    return i, bit
+
+
 def getbit(i, bit):
     """
     Get bit at specified position
@@ -30,7 +38,8 @@ def getbit(i, bit):
     >>> getbit(5, np.r_[0:4])
     array([1, 0, 1, 0])
     """
-    return bitwise_and(i, 1 << bit) >> bit
+    i, bit = _asintegers(i, bit)
+    return bitwise_and(i, np.ones_like(bit) << bit) >> bit
 
 
 def getbits(i, numbits=8):
@@ -60,7 +69,9 @@ def setbit(i, bit, value=1):
     >>> setbit(9,4)
     array(25)
     """
-    val1 = 1 << bit
+    i, bit = _asintegers(i, bit)
+    value = np.asarray(value)
+    val1 = np.ones_like(bit) << bit
     val0 = bitwise_not(val1)
     return where((value == 0) & (i == i) & (bit == bit), bitwise_and(i, val0),
                  bitwise_or(i, val1))
-- 
2.43.0


From 4545793419647de09e3eb9ce9f84400f4726cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:00 +0000
Subject: [PATCH 135/161] fix: SavitzkyGolay raises for lists

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index f1180b5..c9c523e 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -167,7 +167,7 @@ class SavitzkyGolay(object):
         return self.smooth(signal)
 
     def smooth(self, signal):
-        dtype = np.result_type(signal, float)
+        dtype = np.result_type(np.asarray(signal), float)
         x = np.asarray(signal, dtype=dtype)
 
         coeffs = self._coeff
-- 
2.43.0


From a7e80a8aefe5b5bab5ef40c9220d7b3270160b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 136/161] fix: HampelFilter: the adaptive window runs out of
 widths

---
 src/wafo/sg_filter/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/sg_filter/_core.py b/src/wafo/sg_filter/_core.py
index c9c523e..2ab6a11 100644
--- a/src/wafo/sg_filter/_core.py
+++ b/src/wafo/sg_filter/_core.py
@@ -1151,7 +1151,7 @@ class HampelFilter(object):
         for i in range(len(Y)):
             j = 0
             S0Rel = np.inf
-            while S0Rel > self.adaptive:
+            while S0Rel > self.adaptive and j < len(DXTmp):
                 Y0Tmp[j], S0Tmp[j] = localwindow(X, Y, DXTmp[j], i)
                 if j > 0:
                     S0Rel = np.abs((S0Tmp[j - 1] - S0Tmp[j]) /
-- 
2.43.0


From dd76e6b2f3dfdf51acfd2dc7093a8a0d866077e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:40 +0000
Subject: [PATCH 137/161] fix: moving_average truncates integers and fails for
 lists

---
 src/wafo/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index fcb9f67..2c460cf 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -853,13 +853,13 @@ def moving_average(x, L, axis=0):
     _assert(L == np.round(L), 'L must be an integer')
 
     x1 = np.atleast_1d(x)
-    axes = np.arange(x.ndim)
+    axes = np.arange(x1.ndim)
 
     axes[0] = axis
     axes[axis] = 0
 
     x1 = np.transpose(x1, axes)
-    y = np.empty_like(x1)
+    y = np.empty(x1.shape, dtype=np.result_type(x1, float))
 
     n = x1.shape[0]
     if n < 2 * L + 1:  # only able to remove the mean
-- 
2.43.0


From 6b70fc282dba92a39d2d792cc70727f5598af915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 138/161] fix: findoutliers keeps a NaN in the first point, a
 single spurious point and a first point equal to the second

---
 src/wafo/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 2c460cf..5d4a70b 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1705,7 +1705,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                 print('Found %d consecutive values less than %g apart.' %
                       (i_small.size, zcrit))
         if i_small.size > 0:
-            i_small += 1
+            i_small = np.hstack((i_small, i_small + 1))
             # finding the beginning and end of consecutive equal values
             i_step = np.flatnonzero((np.diff(mask_small))) + 1
             # indices to consecutive equal points
@@ -1719,7 +1719,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
     _assert(2 < xn.size, 'The vector must have more than 2 elements!')
 
     i_missing = _find_nans(xn)
-    if np.any(i_missing):
+    if i_missing.size > 0:
         xn[i_missing] = 0.  # set NaN's to zero
     if dcrit is None:
         dcrit = 1.5 * xn.std()
@@ -1739,7 +1739,7 @@ def findoutliers(x, zcrit=0.0, dcrit=None, ddcrit=None, verbose=False):
                      _find_consecutive_equal_values(dxn, zcrit)))
 
     indg = ones(xn.size, dtype=bool)
-    if ind.size > 1:
+    if ind.size > 0:
         ind = np.unique(ind)
         indg[ind] = 0
     indg, = np.nonzero(indg)
-- 
2.43.0


From c02670b683deca92617714dd4993a01f620294cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 139/161] fix: lazywhere truncates to the type of an integer
 fillvalue and does not broadcast the condition

---
 src/wafo/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 5d4a70b..e0fe296 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -284,9 +284,10 @@ def lazywhere(cond, arrays, f, fillvalue=None, f2=None):
     else:
         _assert(f2 is None, "Only one of (fillvalue, f2) can be given.")
 
-    arrays = np.broadcast_arrays(*arrays)
+    cond, *arrays = np.broadcast_arrays(cond, *arrays)
     temp = tuple(np.extract(cond, arr) for arr in arrays)
-    out = np.full(np.shape(arrays[0]), fill_value=fillvalue)
+    tcode = np.mintypecode([np.asarray(fillvalue).dtype.char] + [a.dtype.char for a in arrays])
+    out = np.full(np.shape(cond), fill_value=fillvalue, dtype=tcode)
     np.place(out, cond, f(*temp))
     if f2 is not None:
         temp = tuple(np.extract(~cond, arr) for arr in arrays)
-- 
2.43.0


From af228d1dc1f436990f533a6948f669d07aaa8ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 140/161] fix: lazyselect lets the last true condition win,
 unlike np.select

---
 src/wafo/misc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index e0fe296..7f046a4 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -326,10 +326,7 @@ def lazyselect(condlist, choicelist, arrays, default=0):
     arrays = np.broadcast_arrays(*arrays)
     tcode = np.mintypecode([a.dtype.char for a in arrays])
     out = valarray(np.shape(arrays[0]), value=default, typecode=tcode)
-    for index, cond in enumerate(condlist):
-        func = choicelist[index]
-        if np.all(cond is False):
-            continue
+    for cond, func in zip(condlist[::-1], choicelist[::-1]):  # the first true condition wins
         cond, _ = np.broadcast_arrays(cond, arrays[0])
         temp = tuple(np.extract(cond, arr) for arr in arrays)
         np.place(out, cond, func(*temp))
-- 
2.43.0


From eeeb2b5a58a7d14403b8842413d4934eab6b66ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 141/161] fix: argsreduce does not broadcast when the condition
 is a list

---
 src/wafo/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 7f046a4..bd1b734 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1832,7 +1832,8 @@ def argsreduce(condition, * args):
     newargs = np.atleast_1d(*args)
     if not isinstance(newargs, list):
         newargs = [newargs, ]
-    expand_arr = (condition == condition)
+    condition = np.asarray(condition)
+    expand_arr = np.ones(condition.shape, dtype=bool)
     return [np.extract(condition, arr1 * expand_arr) for arr1 in newargs]
 
 
-- 
2.43.0


From d3505923e6ee8b9e7e4db37cb846536a36d7fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 142/161] fix: stirlerr overflows for large integers

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index bd1b734..d3304ea 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1879,7 +1879,7 @@ def stirlerr(n):
     S3 = 0.000595238095238095238095238  # /* 1/1680 */
     S4 = 0.0008417508417508417508417508  # /* 1/1188 */
 
-    n1 = np.atleast_1d(n)
+    n1 = np.atleast_1d(n).astype(float)
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
         y = gammaln(n1 + 1) - log(sqrt(2 * pi * n1) * (n1 / exp(1)) ** n1)
-- 
2.43.0


From 31f2a09f29ee447bbe48700e4f1f91dcccc4e0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 143/161] fix: getshipchar does not recognise max_deadweight as
 the given property

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index d3304ea..ca6ae0b 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -1911,7 +1911,7 @@ def _get_max_deadweight(**ship_property):
     name = names[0]
     value = np.array(ship_property[name])
     valid_props = dict(le='length', be='beam', dr='draught',
-                       ma='max_deadweigth',
+                       ma='max_deadweight',
                        se='service_speed', pr='propeller_diameter')
     prop = valid_props[name[:2]]
     prop2max_dw = dict(length=lambda x: (x / 3.45) ** (2.5),
-- 
2.43.0


From 7fc245d8f56db1d788ff4c55f13307438d3c5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 144/161] fix: binomln raises for lists

---
 src/wafo/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index ca6ae0b..2450164 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2044,6 +2044,7 @@ def binomln(z, w):
     '''
 
     # return gammaln(z+1.) - gammaln(w+1.) - gammaln(z-w+1.)
+    z, w = np.asarray(z)[()], np.asarray(w)[()]
     zmw = z-w
     k = np.where(zmw < 2, zmw, w)
     out = -log(z + 1.) - betaloge(z - k + 1., k + 1.)
-- 
2.43.0


From 1f4f8cff6a31ffae4d6160fb04ba7ebe72711388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 145/161] fix: num2pistr ignores numerator_max for negative
 numbers

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 2450164..c9a6920 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2824,7 +2824,7 @@ def num2pistr(x, n=3, numerator_max=10, denominator_max=10):
         return '{:d}'.format(num)
     frac = fractions.Fraction.from_float(x / pi).limit_denominator(int(1e+13))
     num, den = frac.numerator, frac.denominator
-    if (den < denominator_max) and (num < numerator_max) and (num != 0):
+    if (den < denominator_max) and (abs(num) < numerator_max) and (num != 0):
         return r'{0:s}\pi{1:s}'.format(_numerator_text(num),
                                        _denominator_text(den))
     fmt = '{:0.' + '{:d}'.format(n) + 'g}'
-- 
2.43.0


From 4b99cdfa3f5993722274c4ba728edb36c89de6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 146/161] fix: fourier changes the shape of the time vector of
 the caller

---
 src/wafo/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index c9a6920..188508d 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2895,7 +2895,7 @@ def fourier(data, t=None, period=None, m=None, method='trapz'):
     intfun = trapz if method.startswith('trapz') else simps
 
     # Define the vectors for computing the Fourier coefficients
-    t.shape = (1, -1)
+    t = t.reshape((1, -1))
     a = zeros((m, p))
     b = zeros((m, p))
     a[0] = intfun(x, t, axis=-1)
-- 
2.43.0


From 0a05a5644ce5da3b7d4d50f59a8341b58f37bab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 147/161] fix: plot_histgrm changes the shape of the bins of
 the caller

---
 src/wafo/misc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 188508d..86e70c1 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2683,12 +2683,10 @@ def good_bins(data=None, range=None, num_bins=None, odd=False, loose=True):  # @
 
 
 def _make_bars(limits, bin_):
-    limits.shape = (-1, 1)
-    xx = limits.repeat(3, axis=1)
+    xx = limits.reshape((-1, 1)).repeat(3, axis=1)
     xx.shape = (-1,)
     xx = xx[1:-1]
-    bin_.shape = (-1, 1)
-    yy = bin_.repeat(3, axis=1)
+    yy = bin_.reshape((-1, 1)).repeat(3, axis=1)
     # yy[0,0] = 0.0 # pdf
     yy[:, 0] = 0.0  # histogram
     yy.shape = (-1,)
@@ -2724,6 +2722,7 @@ def _histogram(data, bins=None, range=None, density=False, weights=None):  # @Re
                                 range=range,
                                 weights=weights,
                                 density=density)
+    limits = limits.reshape((-1, 1))
     xx, yy = _make_bars(limits, bin_)
     return xx, yy, limits
 
-- 
2.43.0


From b4424e05862e3b2753cc013e897b1a36f4bc858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 148/161] fix: PlotData.eval_points raises for two-dimensional
 data

---
 src/wafo/containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 3371809..a2eb1b3 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -150,7 +150,8 @@ class PlotData(object):
                 Unless you fix this, the interpolation will not work!'''
                 warnings.warn(msg)
             else:
-                xi = np.meshgrid(*self.args)
+                xi = tuple(np.ravel(x) for x in np.meshgrid(*self.args))
+                points = points[0] if len(points) == 1 else points
                 return interpolate.griddata(xi, self.data.ravel(), points,
                                             **options)
         # One dimensional data
-- 
2.43.0


From 471942686765152e7ebd1c9648f04bb1fe998b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:41 +0000
Subject: [PATCH 149/161] fix: plotflag2transform_id misses a comma and
 disagrees with transform_id2plotflag2

---
 src/wafo/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index a2eb1b3..ee79206 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -507,9 +507,9 @@ def plotflag2transform_id(plotflag):
     transform_id = np.mod(plotflag // 10, 10)
     return ['f', '1-f',
             'cumtrapz(f)', '1-cumtrapz(f)',
-            'log(f)', 'log(1-f)'
-            'log(cumtrapz(f))', 'log(cumtrapz(f))',
-            'log10(f)'][transform_id]
+            'log(f)', 'log(1-f)',
+            'log(cumtrapz(f))', 'log(1-cumtrapz(f))',
+            '10log10(f)'][transform_id]
 
 
 def transform_id2plotflag2(transform_id):
-- 
2.43.0


From d179e818ca42845d2e302e067f333dda5e29c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 150/161] fix: betaloge loses digits for one small and one
 large argument

---
 src/wafo/misc.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wafo/misc.py b/src/wafo/misc.py
index 86e70c1..7d92dc2 100644
--- a/src/wafo/misc.py
+++ b/src/wafo/misc.py
@@ -2075,6 +2075,15 @@ def _betaln3(a, b):
             + (a - 0.5) * log(a/apb) + b * log1p(-a/apb))
 
 
+def _betaln2(a, b):
+    """
+    Returns betaln for a < 10 and 10 <= b
+    """
+    apb = a + b
+    corr = stirlerr(b) - stirlerr(apb)
+    return gammaln(a) + corr + (b - 0.5) * log1p(-a/apb) - a * log(apb) + a
+
+
 def betaloge(z, w):
     '''
     Natural Logarithm of beta function.
@@ -2115,9 +2124,12 @@ def betaloge(z, w):
     r_3 = (10 <= a) & (b < huge)
     if np.any(r_3):
         out[r_3] = _betaln3(a[r_3], b[r_3])
-    r12 = (0 < a) & (a < 10) & (b < huge)
-    if np.any(r12):
-        out[r12] = betaln(a[r12], b[r12])
+    r_2 = (0 < a) & (a < 10) & (10 <= b) & (b < huge)
+    if np.any(r_2):
+        out[r_2] = _betaln2(a[r_2], b[r_2])
+    r_1 = (0 < a) & (b < 10)
+    if np.any(r_1):
+        out[r_1] = betaln(a[r_1], b[r_1])
     return out
 
 
-- 
2.43.0


From 3cc929e7fc6435dde8e0c8a5322f3e15f7af7f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 151/161] fix: PlotData plots of cumulative data raise

---
 src/wafo/containers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index ee79206..710ed5f 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -371,6 +371,7 @@ class Plotter_1d(object):
     def _plot(self, axis, plotflag, wdata, *args, **kwds):
         x = wdata.args
         data = transformdata_1d(x, wdata.data, plotflag)
+        x = x[len(x) - len(data):]  # cumulative data start at the second point
         dataCI = getattr(wdata, 'dataCI', ())
         if dataCI:
             dataCI = transformdata_1d(x, dataCI, plotflag)
-- 
2.43.0


From 03695d84250a06c23ac99a1aa0603af56df89632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 152/161] fix: PlotData plots with confidence intervals raise

---
 src/wafo/containers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wafo/containers.py b/src/wafo/containers.py
index 710ed5f..7bcd4aa 100644
--- a/src/wafo/containers.py
+++ b/src/wafo/containers.py
@@ -371,10 +371,10 @@ class Plotter_1d(object):
     def _plot(self, axis, plotflag, wdata, *args, **kwds):
         x = wdata.args
         data = transformdata_1d(x, wdata.data, plotflag)
-        x = x[len(x) - len(data):]  # cumulative data start at the second point
         dataCI = getattr(wdata, 'dataCI', ())
-        if dataCI:
-            dataCI = transformdata_1d(x, dataCI, plotflag)
+        if np.size(dataCI) > 0:
+            dataCI = np.transpose([transformdata_1d(x, ci, plotflag) for ci in np.transpose(dataCI)])
+        x = x[len(x) - len(data):]  # cumulative data start at the second point
         h1 = plot1d(axis, x, data, dataCI, plotflag, *args, **kwds)
         return h1
     __call__ = plot
@@ -419,14 +419,14 @@ def plot1d(axis, args, data, dataCI, plotflag, *varargin, **kwds):
             h.extend(plotfun(args, dataCI, 'r--'))
     elif plottype == 4:
         h = axis.errorbar(args, data,
-                          yerr=[dataCI[:, 0] - data,
-                                dataCI[:, 1] - data],
+                          yerr=[data - dataCI.min(axis=-1),
+                                dataCI.max(axis=-1) - data],
                           *varargin, **kwds)
     elif plottype == 6:
         h = axis.fill_between(args, data, 0, *varargin, **kwds)
     elif plottype == 7:
         h = axis.plot(args, data, *varargin, **kwds)
-        h.extend(axis.fill_between(args, dataCI[:, 0], dataCI[:, 1],
+        h.append(axis.fill_between(args, dataCI[:, 0], dataCI[:, 1],
                                    alpha=0.2, color='r'))
     fmax1 = data.max()
     set_plot_scale(axis, fmax1, plotflag)
-- 
2.43.0


From fd983f12715644bd79793fae6483185b8da84204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 153/161] fix: decluster raises for lists

---
 src/wafo/stats/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 7d353ea..80bbeb9 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -435,8 +435,8 @@ def decluster(data, t=None, thresh=None, tmin=1):
     --------
     fitgenpar, findpot, extremalidx
     """
-    if t is None:
-        t = np.arange(len(data))
+    data = asarray(data)
+    t = np.arange(len(data)) if t is None else asarray(t)
     i = findpot(data, t, thresh, tmin)
     return data[i], t[i]
 
-- 
2.43.0


From b71eb29c698880277ee4311d4d1206c9b81d8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:36 +0000
Subject: [PATCH 154/161] fix: polyshift and polyishift return the argument
 itself for the default interval

---
 src/wafo/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/polynomial.py b/src/wafo/polynomial.py
index 67e0cd9..631fb70 100644
--- a/src/wafo/polynomial.py
+++ b/src/wafo/polynomial.py
@@ -852,7 +852,7 @@ def polyshift(py, a=-1, b=1):
     """
 
     if (a == -1) & (b == 1):
-        return py
+        return np.array(py)
     L = b - a
     return polyishift(py, -(2. + b + a) / L, (2. - b - a) / L)
 
@@ -896,7 +896,7 @@ def polyishift(px, a=-1, b=1):
     True
     """
     if (a == -1) & (b == 1):
-        return px
+        return np.array(px)
     L = b - a
     xscale = 2. / L
     xloc = -float(a + b) / L
-- 
2.43.0


From 7e7cbae9a39503ee0ab424b72dc59d0eb141681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:13 +0000
Subject: [PATCH 155/161] fix: dispersion_idx raises for a list of thresholds

---
 src/wafo/stats/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wafo/stats/core.py b/src/wafo/stats/core.py
index 80bbeb9..3331223 100644
--- a/src/wafo/stats/core.py
+++ b/src/wafo/stats/core.py
@@ -356,6 +356,7 @@ def dispersion_idx(
         nu = _check_nu(nu, nmin, n)
         u = linspace(umin, umax, nu)
 
+    u = asarray(u)
     nu = len(u)
 
     di = np.zeros(nu)
-- 
2.43.0


From f720c47a53a67f164175ba58817731876d2c61e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:13 +0000
Subject: [PATCH 156/161] fix: to_t_pdf raises without paramt and its default
 range ignores exp(u**2/2)

---
 src/wafo/spectrum/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index c586446..4794695 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1387,7 +1387,7 @@ class SpecData1D(PlotData):
             u = g.gauss2dat(0)  # % most frequently crossed level
 
         # transform reference level into Gaussian level
-        un = g.dat2gauss(u)
+        un = np.ravel(g.dat2gauss(u))[0]
 
         # disp(['The level u for Gaussian process = ', num2str(u)])
 
@@ -1395,7 +1395,7 @@ class SpecData1D(PlotData):
             # z2 = u^2/2
             z = -sign(defnr) * un / sqrt(2)
             expectedMaxPeriod = 2 * \
-                ceil(2 * pi * A * exp(z) * (0.5 + erf(z) / 2))
+                ceil(2 * pi * A * exp(z ** 2) * (0.5 + erf(z) / 2))
             paramt = [0, expectedMaxPeriod, 51]
 
         t0 = paramt[0]
-- 
2.43.0


From a77e3dec8aa2507253a2864104f43277f3327ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:13 +0000
Subject: [PATCH 157/161] fix: to_t_pdf gives the density of crest periods for
 trough periods

---
 src/wafo/spectrum/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wafo/spectrum/core.py b/src/wafo/spectrum/core.py
index 4794695..1c5710c 100644
--- a/src/wafo/spectrum/core.py
+++ b/src/wafo/spectrum/core.py
@@ -1390,10 +1390,12 @@ class SpecData1D(PlotData):
         un = np.ravel(g.dat2gauss(u))[0]
 
         # disp(['The level u for Gaussian process = ', num2str(u)])
+        if defnr < 0:  # troughs below u are distributed as crests above -u
+            un = -un
 
         if paramt is None:
             # z2 = u^2/2
-            z = -sign(defnr) * un / sqrt(2)
+            z = -un / sqrt(2)
             expectedMaxPeriod = 2 * \
                 ceil(2 * pi * A * exp(z ** 2) * (0.5 + erf(z) / 2))
             paramt = [0, expectedMaxPeriod, 51]
-- 
2.43.0


From fae10eec12b025f1f7bd5b58310ef04eb72b7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 158/161] fix: LevelCrossings.extrapolate set the upper limit
 of the generalized Pareto tail for the heavy tails, which have none, and not
 for the bounded ones

---
 src/wafo/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index 7a4d4e5..d5e0bc7 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -288,8 +288,8 @@ class LevelCrossings(PlotData):
             # Calculate 90 # confidence region, an ellipse, for (k,s)
             D, B = np.linalg.eig(covar)
             b = phat.par[::2]
-            if b[0] > 0:
-                phat.upperlimit = u + b[1] / b[0]
+            if b[0] < 0:
+                phat.upperlimit = u - b[1] / b[0]
 
             r = sqrt(-2 * log(1 - 90 / 100))  # 90 # confidence sphere
             Nc = 16 + 1
-- 
2.43.0


From e497eabaf37b28592fbf42aa1d2426f0491d3945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 159/161] fix: confidence interval of TimeSeries.tospecdata had
 its lower limit above its upper one

---
 src/wafo/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wafo/objects.py b/src/wafo/objects.py
index d5e0bc7..2bf7ef8 100644
--- a/src/wafo/objects.py
+++ b/src/wafo/objects.py
@@ -50,7 +50,7 @@ __all__ = ['TimeSeries', 'LevelCrossings', 'CyclePairs', 'TurningPoints',
 
 
 def _invchi2(q, df):
-    return special.chdtri(df, q)  # pylint: disable=no-member
+    return special.chdtri(df, 1 - q)  # pylint: disable=no-member
 
 
 class LevelCrossings(PlotData):
-- 
2.43.0


From f20455d7971887f6c2bbce396414ebc215121a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:04 +0000
Subject: [PATCH 160/161] fix: rfcfilter wrote outside its arrays when given an
 empty sequence

---
 src/wafo/_misc_numba.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/_misc_numba.py b/src/wafo/_misc_numba.py
index 20cbdae..a456983 100644
--- a/src/wafo/_misc_numba.py
+++ b/src/wafo/_misc_numba.py
@@ -247,6 +247,8 @@ def findrfc(y, h, method=0):
     y = np.asarray(y, dtype=float)
     n = len(y)
     t = np.zeros(n, dtype=np.int64)
+    if n == 0:
+        return t
     findrfc_ = [_findrfc_le, _findrfc_lt, _findrfc][method]
     m = findrfc_(t, y, h)
     return t[:m]
-- 
2.43.0


From 6dadaa4688dc344d78950a05f6080d8701ccbb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:41 +0000
Subject: [PATCH 161/161] fix: prbnormndpc never returned when a limit or
 correlation was not a number

---
 src/wafo/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wafo/gaussian.py b/src/wafo/gaussian.py
index 88e0898..b67112e 100644
--- a/src/wafo/gaussian.py
+++ b/src/wafo/gaussian.py
@@ -601,6 +601,8 @@ def prbnormndpc(rho, a, b, abserr=1e-4, relerr=1e-4, usesimpson=True,
     Trondheim, Norway.
 
     """
+    if np.any(np.isnan(rho)) or np.any(np.isnan(a)) or np.any(np.isnan(b)):
+        raise ValueError('rho, a and b must not contain NaN!')
     # Call fortran implementation
     val, err, ier = mvnprdmod.prbnormndpc(rho, a, b, abserr, relerr,
                                           usebreakpoints, usesimpson)
-- 
2.43.0

