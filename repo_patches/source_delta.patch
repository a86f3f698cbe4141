From 4d7f5a498a424594b6411f05d0db353a1ce2760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 01/26] fix: real-time auto_afs mode drops the first term of
 each new averaging factor

---
 allantools/realtime.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 50d3eb9..0e7f562 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -46,7 +46,7 @@ class dev_realtime(object):
         self.af_decade = 0    # logspace decade
         if auto_afs:
             self.afs = numpy.array([1])
-        self.dev = numpy.zeros(len(afs))    # resulting xDEV
+        self.dev = numpy.zeros(len(self.afs))    # resulting xDEV
         self.tau0 = tau0                     # time-interval between points
 
     def update_af(self):
@@ -71,6 +71,7 @@ class dev_realtime(object):
             self.dev = numpy.append(self.dev, 0)  # new dev
             self.af_idx = next_idx
             self.af_decade = next_decade
+            self.update_af()  # this point may complete more than one AF
         else:
             pass
             # print "no new AF "
@@ -103,16 +104,16 @@ class oadev_realtime(dev_realtime):
         super(oadev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
             if len(self.x) >= (2*af+1):
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares.
@@ -139,7 +140,7 @@ class ohdev_realtime(dev_realtime):
         super(ohdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                              auto_afs=auto_afs,
                                              pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
 
     def add_af(self):
         self.S = numpy.append(self.S, 0)
@@ -147,11 +148,11 @@ class ohdev_realtime(dev_realtime):
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
             if len(self.x) > 3*af:
                 self.update_S(idx)
-        if self.auto_afs:
-            self.update_af()
 
     def update_S(self, idx):
         """ update S, sum-of-squares """
@@ -177,21 +178,20 @@ class tdev_realtime(dev_realtime):
         super(tdev_realtime, self).__init__(afs=afs, tau0=tau0,
                                             auto_afs=auto_afs,
                                             pts_per_decade=pts_per_decade)
-        self.S = numpy.zeros(len(afs))      # sum-of-squares
-        self.So = numpy.zeros(len(afs))      # overall sum-of-squares
+        self.S = numpy.zeros(len(self.afs))      # sum-of-squares
+        self.So = numpy.zeros(len(self.afs))      # overall sum-of-squares
 
     def add_phase(self, xnew):
         """ add new phase point """
         self.x.append(xnew)
+        if self.auto_afs:
+            self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
             if len(self.x) >= 3*af+1:  # 3n+1 samples measured
                 self.update_S(idx)
             elif len(self.x) >= 2*af+1:  # 2n+1 samples measured
                 self.update_S3n(idx)
 
-        if self.auto_afs:
-            self.update_af()
-
     def add_af(self):
         self.S = numpy.append(self.S, 0)
         self.So = numpy.append(self.So, 0)
-- 
2.43.0


From 13d1edf6c059d0631ec1394623db9fb2b69715db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 02/26] fix: real-time add_frequency integrates over tau0, not
 over 1 s

---
 allantools/realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index 0e7f562..f5041d3 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -80,7 +80,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f)  # integration
+        self.add_phase(self.x[-1] + f*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
-- 
2.43.0


From ad5661dfc30e4dd18eefe83fb66b6704e1e0a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 03/26] fix: Dataset.write_results writes the averaging factor
 tau*rate

---
 allantools/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index 0c2c505..f709aa7 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -196,7 +196,7 @@ class Dataset(object):
                        "\n")
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
-                    af=int(self.out["taus"][i] / self.out["taus"][0]),
+                    af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-- 
2.43.0


From 68c34e72b738f78e193b3f3fccbc6e9894a763ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 04/26] fix: Dataset.write_results fails on the two-sided
 errors of gradev

---
 allantools/dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/allantools/dataset.py b/allantools/dataset.py
index f709aa7..009e68f 100644
--- a/allantools/dataset.py
+++ b/allantools/dataset.py
@@ -194,15 +194,18 @@ class Dataset(object):
                        "{sigma:.{prec}e} "
                        "{maxsigma:.{prec}e} "
                        "\n")
+            if isinstance(self.out["stat_err"], list):  # gradev: [low, high]
+                err_lo, err_hi = self.out["stat_err"]
+            else:
+                err_lo = err_hi = self.out["stat_err"]/2
             for i in range(len(self.out["taus"])):
                 fp.write(out_fmt.format(
                     af=int(round(self.out["taus"][i] * self.inp["rate"])),
                     tau=self.out["taus"][i],
                     n=int(self.out["stat_n"][i]),
                     alpha="NaN",  # Not implemented yet
-                    minsigma=self.out["stat"][i] - self.out["stat_err"][i]/2,
+                    minsigma=self.out["stat"][i] - err_lo[i],
                     sigma=self.out["stat"][i],
-                    maxsigma=(self.out["stat"][i] +
-                              self.out["stat_err"][i]/2),
+                    maxsigma=self.out["stat"][i] + err_hi[i],
                     prec=digits-1,
                 ))
-- 
2.43.0


From 619d689b1a0d964fc223ec9f9225ed29d79ca644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 05/26] fix: gradev error bars are NaN, edf and ci were swapped

---
 allantools/allantools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 8daffcf..ebfb63e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1658,7 +1658,8 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
 
     if n > 1:
         edf = ci.edf_simple(N, mj, alpha)
-        deverr = ci.confidence_interval(dev, confidence, edf)
+        lo, hi = ci.confidence_interval(dev, edf, confidence)
+        deverr = [dev - lo, hi - dev]
     else:
         deverr = [0, 0]
 
-- 
2.43.0


From 037bcae6db79b0d2c295ba830f9c0d454d549724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 06/26] fix: gradev maps noisetype 'fp' to random walk FM,
 ignores 'ff' and 'rf'

---
 allantools/allantools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index ebfb63e..a6772cc 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1652,6 +1652,10 @@ def calc_gradev_phase(data, rate, mj, stride, confidence, noisetype):
     elif noisetype == 'wf':
         alpha = 0
     elif noisetype == 'fp':
+        alpha = 1
+    elif noisetype == 'ff':
+        alpha = -1
+    elif noisetype == 'rf':
         alpha = -2
     else:
         alpha = None
-- 
2.43.0


From 9494a724551e1df3ae517a1528c9200939a0b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 07/26] fix: psd2allan fails when rounding adds a point to its
 float frequency grid

---
 allantools/allantools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index a6772cc..3894c1e 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1735,8 +1735,8 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
         raise ValueError(np.ndarray)  # raise error
     oversamplingfactor = 4
     df0 = oversamplingfactor * df
-    f0 = np.arange(S_y.size * df0, step=df0)
-    f = np.arange(df, (S_y.size - 1) * df0 + df, df)
+    f0 = np.arange(S_y.size) * df0
+    f = np.arange(1, (S_y.size - 1) * oversamplingfactor + 1) * df
     S_y = interpolate.interp1d(f0, S_y, kind='cubic')(f)
     f = f / oversamplingfactor
 
-- 
2.43.0


From 01dad5648c835e6faa0d6915e906f1840c897595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 08/26] fix: timmer_koenig_from_psd fails for an odd number of
 samples

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index e66332e..0b841a0 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -315,7 +315,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for j in range(1, n // 2 + 1):
         X[j] = (np.sqrt(Sx[j]) / 2.0) * (np.random.normal(0, 1) + 1j * np.random.normal(0, 1))
 
-    X[n // 2 + 1:] = np.conj(X[1:n // 2][::-1])
+    X[n // 2 + 1:] = np.conj(X[1:(n + 1) // 2][::-1])
 
     x = np.fft.ifft(X) * np.sqrt((n - 1) / timestep)
     x = x.real
-- 
2.43.0


From 2ac751a2cd4bd5c7b46f4a741032b491245eba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 09/26] fix: timmer_koenig_from_psd drops a frequency that
 equals the last node

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0b841a0..0888c29 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -295,7 +295,7 @@ def timmer_koenig_from_psd(f_nodes, h, alpha, duration, timestep, output='phase'
     for i, f in enumerate(frequencies):
         if f_nodes.size > 0 and f < f_nodes[0]:
             Sy[i] = h_ext[0] * f ** alpha_ext[0]
-        elif f_nodes.size > 0 and f > f_nodes[-1]:
+        elif f_nodes.size > 0 and f >= f_nodes[-1]:
             Sy[i] = h_ext[-1] * f ** alpha_ext[-1]
         else:
             if f_nodes.size == 0:
-- 
2.43.0


From 5bd97c7e9d728cf9946008b58d89caef2da812fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 10/26] fix: numpy_psd frequency axis for an odd number of
 samples

---
 allantools/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise.py b/allantools/noise.py
index 0888c29..b43a708 100644
--- a/allantools/noise.py
+++ b/allantools/noise.py
@@ -46,7 +46,7 @@ def numpy_psd(x, f_sample=1.0):
     """
     psd_of_x = ((2.0 / (float(len(x)) * f_sample))
                 * np.abs(np.fft.rfft(x))**2)
-    f_axis = np.linspace(0, f_sample/2.0, len(psd_of_x))  # frequency axis
+    f_axis = np.fft.rfftfreq(len(x), 1.0/f_sample)  # frequency axis
     return f_axis, psd_of_x
 
 
-- 
2.43.0


From ca19358e3ff72ac11762c056d5b610fea6f15ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 11/26] fix: greenhall_table2 rejects its last row, alpha=-4

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index c4fe2bc..f06d9ab 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -687,7 +687,7 @@ def greenhall_table3(alpha, d):
 def greenhall_table2(alpha, d):
     """ Table 2 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
-    assert(row_idx in [0, 1, 2, 3, 4, 5])
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table2 = [
         # alpha = +2:
-- 
2.43.0


From ab4cf8b74f73f473b59531d25903ef438fa9443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 12/26] fix: edf_simple for flicker FM at m=1 lacks a square

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index f06d9ab..4c6ff5e 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -816,7 +816,7 @@ def edf_simple(N, m, alpha):
 
         if alpha == -1:
             if m == 1:
-                edf = 2 * (N - 2)/(2.3 * N - 4.9)
+                edf = 2 * (N - 2)**2/(2.3 * N - 4.9)
             if m >= 2:
                 edf = 5 * N**2 / (4 * m * (N + (3 * m)))
 
-- 
2.43.0


From 48ac895b260637e41e33e2e8a02385429d71855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:31 +0000
Subject: [PATCH 13/26] fix: ratio tests rn and b1 ask for tau=af*rate instead
 of af/rate

---
 allantools/ci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 4c6ff5e..e01d128 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -143,10 +143,10 @@ def rn(x, af, rate):
         ratio of MVAR to AVAR
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     oadev_x = devs[0]
     (mtaus, mdevs, errs, ns) = at.mdev(
-        x, taus=[af*rate], data_type='phase', rate=rate)
+        x, taus=[af/rate], data_type='phase', rate=rate)
     mdev_x = mdevs[0]
     return pow(mdev_x/oadev_x, 2)
 
@@ -198,7 +198,7 @@ def b1(x, af, rate):
 
     """
     (taus, devs, errs, ns) = at.adev(
-        x, taus=[af*rate], data_type="phase", rate=rate)
+        x, taus=[af/rate], data_type="phase", rate=rate)
     oadev_x = devs[0]
     avar = pow(oadev_x, 2.0)
 
-- 
2.43.0


From a733f2ddc845edc6e2c77361ffee81b66344a7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 14/26] fix: b1 ratio compares a variance per sample with an
 Allan variance in 1/s

---
 allantools/ci.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index e01d128..15019a0 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -203,7 +203,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = np.diff(x)
+    y = rate*np.diff(x)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From c2e6a8120267efd004b2a6205d8feeae19b81c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 15/26] fix: adev2psd_piecewise_approx nodes are only right for
 taus a decade apart

---
 allantools/allantools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 3894c1e..86f6d5c 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1912,8 +1912,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     else:
         f_nodes = np.array(
             [
-                1.0 / (10.0 * np.pi * filtered_tau[i]) *
-                (integral_values[i] / integral_values[i + 1]) ** (1.0 / (mus[i + 1] - mus[i]))
+                (hi[-(i + 2)] / hi[-(i + 1)]) ** (1.0 / (mus[i + 1] - mus[i]))
                 for i in range(mus.size - 1)
             ],
             dtype=float,
-- 
2.43.0


From ead045d378e84deef9ad065471e8c2a1d5c55ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 16/26] fix: Plot.plot(grid=False) left the minor grid lines of
 an earlier plot

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index 85a201e..a224c19 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -98,7 +98,7 @@ class Plot(object):
             self.ax.grid(True, which="minor", ls="-", color='0.65')
             self.ax.grid(True, which="major", ls="-", color='0.25')
         else:
-            self.ax.grid(False)
+            self.ax.grid(False, which="both")
 
     def show(self):
         """Calls matplotlib.pyplot.show()
-- 
2.43.0


From 1bafb2da7b40a6c294a517b89c82996ae3d988f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:38 +0000
Subject: [PATCH 17/26] fix: greenhall_table1 answers alpha > 2 with the rows
 of other noise types

---
 allantools/ci.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/allantools/ci.py b/allantools/ci.py
index 15019a0..77582f5 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -711,6 +711,7 @@ def greenhall_table2(alpha, d):
 def greenhall_table1(alpha, d):
     """ Table 1 from [Greenhall2004]_ """
     row_idx = int(-alpha+2)  # map 2-> row0 and -4-> row6
+    assert(row_idx in [0, 1, 2, 3, 4, 5, 6])
     col_idx = int(d-1)
     table1 = [
         # alpha = +2:
-- 
2.43.0


From d122141d486228e58cc70ad1dce00e74854af791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:17 +0000
Subject: [PATCH 18/26] fix: quadrature of the Allan integrals stops early
 (psd_piecewise_to_adev up to 5 % off, adev2psd)

---
 allantools/allantools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 86f6d5c..c8bfd13 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1892,7 +1892,8 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     for i in range(Bi.size):
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf)
+            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf,
+                        epsabs=0.0, limit=1000)
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1974,7 +1975,8 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],))
+                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],),
+                            epsabs=0.0, limit=1000)
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
-- 
2.43.0


From 7270bcf9f7549612090c0689b80c3977628cd1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 19/26] fix: Allan integral of a power law is wrong near the
 edge of convergence

adev2psd_piecewise_approx was 2 % off at mu=-1.8 and a factor 5 at mu=-1.99:
quad over the infinite range does not converge for slowly decaying sin^4.
---
 allantools/allantools.py | 54 +++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index c8bfd13..355141d 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1769,6 +1769,44 @@ def psd2allan(S_y, f=1.0, kind='adev', base=2):
     return taus_used, ad
 
 
+def _sin_power_integral(p, lo, hi, hadamard=False):
+    """
+    Integral of sin^4(z)/z^p (hadamard: 4/3*sin^6(z)/z^p) from lo to hi, hi may be inf.
+
+    Beyond z=10 the mean of the numerator is integrated in closed form, and the
+    cosine terms with the quadrature for oscillating integrands.
+    """
+    k = 6 if hadamard else 4
+    if (lo == 0.0 and p >= k + 1) or (np.isinf(hi) and p <= 1.0):
+        return np.inf  # divergent
+    if hadamard:
+        mean, cosines = 5.0/12, ((2, -5.0/8), (4, 1.0/4), (6, -1.0/24))
+    else:
+        mean, cosines = 3.0/8, ((2, -1.0/2), (4, 1.0/8))
+
+    def integrand(z):
+        return (4.0/3.0 if hadamard else 1.0) * np.sinc(z/np.pi)**k * z**(k - p)
+
+    split = min(max(lo, 10.0), hi)
+    total = 0.0
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore", category=IntegrationWarning)
+        if lo < split:
+            total = quad(integrand, lo, split, epsabs=0.0, limit=1000)[0]
+        if split < hi:
+            end = hi/split
+            if np.isinf(end):
+                far = mean/(p - 1.0)
+            elif p == 1.0:
+                far = mean*np.log(end)
+            else:
+                far = mean*np.expm1((1.0 - p)*np.log(end))/(1.0 - p)
+            for n, c in cosines:
+                far += c*quad(lambda x: x**(-p), 1.0, end, weight='cos', wvar=n*split,
+                              epsabs=1e-12, limit=1000)[0]
+            total += far*split**(1.0 - p)
+    return total
+
 def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     """
     Approximate inverse mapping from deviation (ADEV/HDEV) to a piecewise
@@ -1848,9 +1886,6 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     if vt not in ("adev", "hdev"):
         raise ValueError("vartype must be 'adev' or 'hdev'.")
 
-    def q(z):
-        return 1.0 if vt == "adev" else (4.0 / 3.0) * (np.sin(z) ** 2)
-
     # --- match your original filtering of mu segments ---
     mus = []
     filtered_adev = [float(adev[0])]
@@ -1890,10 +1925,7 @@ def adev2psd_piecewise_approx(adev, taus, vartype="adev", mu_tol=1e-5):
     hi = []
     integral_values = []
     for i in range(Bi.size):
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore", category=IntegrationWarning)
-            I, _ = quad(lambda z: q(z) * (np.sin(z) ** 4) / (z ** (3.0 + mus[i])), 0.0, np.inf,
-                        epsabs=0.0, limit=1000)
+        I = _sin_power_integral(3.0 + mus[i], 0.0, np.inf, hadamard=(vt == "hdev"))
         integral_values.append(I)
         hi.append(Bi[i] / (2.0 * I * (np.pi ** mus[i])))
 
@@ -1963,9 +1995,6 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
     f_nodes = np.asarray(f_nodes, dtype=float)
     taus = np.asarray(taus, dtype=float)
 
-    def integrand(z, a):
-        return (np.sin(z) ** 4) / (z ** (2.0 - a))
-
     edges = np.concatenate(([0.0], f_nodes, [np.inf]))
     adev = np.empty_like(taus, dtype=float)
 
@@ -1973,10 +2002,7 @@ def psd_piecewise_to_adev(h, alpha, f_nodes, taus):
         sigma_y2 = 0.0
         for i in range(h.size):
             factor = h[i] / ((np.pi * tau) ** (alpha[i] + 1.0))
-            with warnings.catch_warnings():
-                warnings.simplefilter("ignore", category=IntegrationWarning)
-                I, _ = quad(integrand, np.pi * tau * edges[i], np.pi * tau * edges[i + 1], args=(alpha[i],),
-                            epsabs=0.0, limit=1000)
+            I = _sin_power_integral(2.0 - alpha[i], np.pi * tau * edges[i], np.pi * tau * edges[i + 1])
             sigma_y2 += factor * I
         adev[k] = np.sqrt(2.0 * sigma_y2)
 
-- 
2.43.0


From 38f3ee7f27f006bfd27c370b463650fa4407b1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 20/26] fix: PVAR level of flicker PM in Noise.pdev_from_qd,
 misplaced parenthesis

3(ln16-1)/(2 pi^2) = 0.2694, Vernotte2015 Table I (and the integral of its transfer function)
---
 allantools/noise_kasdin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/noise_kasdin.py b/allantools/noise_kasdin.py
index ae5f253..7714ffa 100644
--- a/allantools/noise_kasdin.py
+++ b/allantools/noise_kasdin.py
@@ -340,7 +340,7 @@ class Noise(object):
             coeff = 3.0/(2.0*pow(np.pi, 2))  # Vernotte Table I
         elif self.b == -1:
             # D, Flicker PM, tau^-1
-            coeff = (3.0*np.log(16)-1.0)/2.0/pow(np.pi, 2)
+            coeff = 3.0*(np.log(16)-1.0)/2.0/pow(np.pi, 2)
         elif self.b == -2:  # C, white FM,  1/sqrt(tau)
             coeff = 3.0/5.0
         elif self.b == -3:
-- 
2.43.0


From e6249de7d6cf0df303e4e86999749ce8ed743fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 21/26] fix: real-time deviations computed in the data type of
 the points (wrong for narrow integer and float types)

---
 allantools/realtime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/allantools/realtime.py b/allantools/realtime.py
index f5041d3..172a622 100644
--- a/allantools/realtime.py
+++ b/allantools/realtime.py
@@ -80,7 +80,7 @@ class dev_realtime(object):
         """ add new frequency point, in units of Hz """
         if not self.x:  # empty sequence
             self.add_phase(0)  # initialize
-        self.add_phase(self.x[-1] + f*self.tau0)  # integration
+        self.add_phase(self.x[-1] + float(f)*self.tau0)  # integration
 
     def taus(self):
         """ return taus, in unit of seconds """
@@ -108,7 +108,7 @@ class oadev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point, in units of seconds """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         if self.auto_afs:
             self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
@@ -147,7 +147,7 @@ class ohdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         if self.auto_afs:
             self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
@@ -183,7 +183,7 @@ class tdev_realtime(dev_realtime):
 
     def add_phase(self, xnew):
         """ add new phase point """
-        self.x.append(xnew)
+        self.x.append(float(xnew))
         if self.auto_afs:
             self.update_af()  # first, so that a new AF gets this term
         for idx, af in enumerate(self.afs):
-- 
2.43.0


From d17379cac3a9f6f51da47d3bd269fbc598ab084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 22/26] fix: statistics computed in the data type of the input
 (overflow of integer data, precision loss of narrow floats)

---
 allantools/allantools.py | 12 ++++++------
 allantools/ci.py         |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 355141d..c285975 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -1147,7 +1147,7 @@ def htotdev(data, rate=1.0, data_type="phase", taus=None):
     rate = float(rate)
     (freq, ms, taus_used) = tau_generator(freq, rate, taus,
                                           maximum_m=float(len(freq))/3.0)
-    phase = np.array(phase)
+    phase = np.array(phase, dtype=float)
     freq = np.array(freq)
     devs = np.zeros_like(taus_used)
     deverrs = np.zeros_like(taus_used)
@@ -1350,7 +1350,7 @@ def tierms(data, rate=1.0, data_type="phase", taus=None):
 
     """
     phase = input_to_phase(data, rate, data_type)
-    (data, m, taus_used) = tau_generator(phase, rate, taus)
+    (phase, m, taus_used) = tau_generator(phase, rate, taus)
 
     count = len(phase)
 
@@ -2105,7 +2105,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(data), np.array(taus)
+    data, taus = np.array(data, dtype=float), np.array(taus)
     rate = float(rate)
     m = []  # integer averaging factor. tau = m*tau0
 
@@ -2362,7 +2362,7 @@ def frequency2phase(freqdata, rate):
     dt = 1.0 / float(rate)
     # Protect against NaN values in input array (issue #60)
     # Reintroduces data trimming as in commit 503cb82
-    freqdata = trim_data(freqdata)
+    freqdata = trim_data(np.asarray(freqdata, dtype=float))
     # Erik Benkler (PTB): Subtract mean value before cumsum in order to
     # avoid precision issues when we have small frequency fluctuations on
     # a large average frequency
@@ -2407,7 +2407,7 @@ def phase2frequency(phase, rate):
     y: np.array
         Data array of fractional frequency, length N-1
     """
-    y = rate*np.diff(phase)
+    y = rate*np.diff(np.asarray(phase, dtype=float))
     return y
 
 
@@ -2431,7 +2431,7 @@ def frequency2fractional(frequency, mean_frequency=-1):
         mu = np.mean(frequency)
     else:
         mu = mean_frequency
-    y = [(x-mu)/mu for x in frequency]
+    y = [(x-mu)/mu for x in np.asarray(frequency, dtype=float)]
     return y
 
 # end of file allantools.py
diff --git a/allantools/ci.py b/allantools/ci.py
index 77582f5..344485c 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -203,7 +203,7 @@ def b1(x, af, rate):
     avar = pow(oadev_x, 2.0)
 
     # variance of y, at given af
-    y = rate*np.diff(x)
+    y = at.phase2frequency(x, rate)
     y_cut = np.array(y[:len(y)-(len(y) % af)])  # cut to length
     assert len(y_cut) % af == 0
     y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
-- 
2.43.0


From b28dc1eba4bea14397a6e1471f7fb6749b60f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 23/26] fix: confidence_interval_noiseID counts frequency
 points as phase observations

---
 allantools/ci.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/allantools/ci.py b/allantools/ci.py
index 344485c..a355d32 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -109,21 +109,24 @@ def confidence_interval_noiseID(x, dev, af, dev_type="adev",
     alpha_int = autocorr_noise_id(
         x, int(af), data_type=data_type, dmin=0, dmax=dmax)[0]
 
+    # number of phase observations
+    N = len(x) + 1 if data_type == "freq" else len(x)
+
     # 2) EDF (tes was 'is')
     if dev_type == "adev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "oadev":
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=False)
     elif (dev_type == "mdev") or (dev_type == "tdev"):
-        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=2, m=af, N=N,
                             overlapping=True, modified=True)
     elif dev_type == "hdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=False, modified=False)
     elif dev_type == "ohdev":
-        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=len(x),
+        edf = edf_greenhall(alpha=alpha_int, d=3, m=af, N=N,
                             overlapping=True, modified=False)
     else:
         raise NotImplementedError
-- 
2.43.0


From 2a769ba5e6a24a7fdea67708805e5b135380e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 24/26] fix: frequency averages of narrow float types lose
 precision (frequency2fractional, autocorr_noise_id)

---
 allantools/allantools.py | 3 ++-
 allantools/ci.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index c285975..675c564 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2427,11 +2427,12 @@ def frequency2fractional(frequency, mean_frequency=-1):
     y: np.array
         Data array of fractional frequency
     """
+    frequency = np.asarray(frequency, dtype=float)
     if mean_frequency == -1:
         mu = np.mean(frequency)
     else:
         mu = mean_frequency
-    y = [(x-mu)/mu for x in np.asarray(frequency, dtype=float)]
+    y = [(x-mu)/mu for x in frequency]
     return y
 
 # end of file allantools.py
diff --git a/allantools/ci.py b/allantools/ci.py
index a355d32..d975dc7 100644
--- a/allantools/ci.py
+++ b/allantools/ci.py
@@ -318,6 +318,7 @@ def lag1_acf(x, detrend_deg=1):
             #c = np.corrcoef( np.array(x[:-lag]), np.array(x[lag:]) )
             #r1 = c[0,1] # lag-1 autocorrelation of x
     """
+    x = np.asarray(x, dtype=float)
     mu = np.mean(x)
     a = 0
     b = 0
@@ -378,7 +379,7 @@ def autocorr_noise_id(x, af, data_type="phase", dmin=0, dmax=2):
         x = detrend(x, deg=2)  # remove quadratic trend (freq offset and drift)
     elif data_type == "freq":
         # average by averaging factor
-        y_cut = np.array(x[:len(x)-(len(x) % af)])  # cut to length
+        y_cut = np.array(x[:len(x)-(len(x) % af)], dtype=float)  # cut to length
         assert len(y_cut) % af == 0
         y_shaped = y_cut.reshape((int(len(y_cut)/af), af))
         x = np.average(y_shaped, axis=1)  # average
@@ -428,6 +429,7 @@ def detrend(x, deg=1):
     x_detrended: numpy.array
         detrended time-series
     """
+    x = np.asarray(x, dtype=float)
     t = range(len(x))
     p = np.polyfit(t, x, deg)
     residual = x - np.polyval(p, t)
-- 
2.43.0


From 9a49ff7003bde4a620423784f7537e9970c703ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 25/26] fix: tau lists of narrow float types lose precision
 (tau_generator)

---
 allantools/allantools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/allantools.py b/allantools/allantools.py
index 675c564..da697c4 100644
--- a/allantools/allantools.py
+++ b/allantools/allantools.py
@@ -2105,7 +2105,7 @@ def tau_generator(data, rate, taus=None, v=False, even=False, maximum_m=-1):
             taus.append(2.0*(1.0/rate)*pow(10.0, k))
             taus.append(4.0*(1.0/rate)*pow(10.0, k))
 
-    data, taus = np.array(data, dtype=float), np.array(taus)
+    data, taus = np.array(data, dtype=float), np.array(taus, dtype=float)
     rate = float(rate)
     m = []  # integer averaging factor. tau = m*tau0
 
-- 
2.43.0


From e4930b843b834e08b9af9aacffee15578f89f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:14 +0000
Subject: [PATCH 26/26] fix: Plot.save writes its own figure, not pyplot's
 current one

---
 allantools/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allantools/plot.py b/allantools/plot.py
index a224c19..570b9c7 100644
--- a/allantools/plot.py
+++ b/allantools/plot.py
@@ -111,4 +111,4 @@ class Plot(object):
     def save(self, f):
         """Save figure to file
         """
-        self.plt.savefig(f)
+        self.fig.savefig(f)
-- 
2.43.0

