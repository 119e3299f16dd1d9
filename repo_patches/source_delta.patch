From 656e38f6d480d21c98e258382e6934057d3c2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 01/39] fix: FirFilter keeps integer coefficients from
 truncating state and reference signal

---
 diamondback/filters/fir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..712a185 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -201,6 +201,8 @@ class FirFilter(object):
             b = numpy.array(list(b))
         if not len(b):
             raise ValueError(f"B = {b}")
+        if not numpy.issubdtype(b.dtype, numpy.inexact):
+            b = b.astype(float)
         if not isinstance(s, numpy.ndarray):
             s = numpy.array(list(s))
         if len(b) < len(s):
-- 
2.43.0


From b6d1075a5ea1672d93c15a45f42fe14851ee6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 02/39] fix: complex primary signal with zero imaginary part is
 not Hilbert transformed

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..b6bca59 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From 87eb377b26b40f3e8f02b12a904f6dfee2382401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 03/39] fix: ComplexFrequencyFilter applies the frequency
 specified on initialization

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index b6bca59..0e9306c 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=[numpy.exp(1j * math.pi * frequency)], s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From b0ae838e7de8f409e83677bee18aa51c8d8debfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 04/39] fix: GoertzelFilter frequency assignment updates
 coefficients

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From 0d531fc21488f44b712bbe3aa86b6ab2cbb47921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 05/39] fix: GoertzelFilter recognizes any complex signal type

---
 diamondback/filters/goertzel_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index cf04372..9155103 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -114,7 +114,7 @@ class GoertzelFilter(IirFilter):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) / len(self._w))) + 1, complex)
-        u = (1.0 + int(not isinstance(x[0], complex))) / len(self._w)
+        u = (1.0 + int(not numpy.iscomplexobj(x))) / len(self._w)
         jj = 0
         for ii in range(0, len(x)):
             v = super().filter(u * self._w[self._index] * x[ii : ii + 1])
-- 
2.43.0


From 958041af028a3d5c8649810a43a4b2614a53387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 06/39] fix: ZTransform leaves coefficient arguments unmodified
 and accepts integers

---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From 10039ec2b1e73f6d1bb6744450b06cc69b591056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 07/39] fix: FourierTransform inverse replaces only a window
 coefficient which is zero

---
 diamondback/transforms/fourier_transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..bfd1164 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -87,8 +87,10 @@ class FourierTransform(object):
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
         if inverse:
-            if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
-                v[0], v[-1] = v[1], v[-2]
+            if numpy.isclose(v[0], 0.0):
+                v[0] = v[1]
+            if numpy.isclose(v[-1], 0.0):
+                v[-1] = v[-2]
             y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
-- 
2.43.0


From 54a24b53005b75f5f2015b3d8bc1f6cb1459d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 08/39] fix: FourierTransform frequency and inverse are
 consistent for an odd length

---
 diamondback/transforms/fourier_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index bfd1164..22bdc78 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -91,12 +91,12 @@ class FourierTransform(object):
                 v[0] = v[1]
             if numpy.isclose(v[-1], 0.0):
                 v[-1] = v[-2]
-            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
+            y = numpy.fft.ifftshift(u)
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                numpy.fft.fftshift(numpy.fft.fftfreq(len(u), 0.5)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.fft.fftshift(y)
         return y, f
-- 
2.43.0


From 4602edacfbd64b9d7a15f2f92a557cd42730983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 09/39] fix: PsdTransform frequency is consistent for an odd
 window length

---
 diamondback/transforms/psd_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..b160bc6 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -102,6 +102,6 @@ class PsdTransform(object):
             numpy.abs(numpy.fft.fft(x[ii : ii + len(b)] * b)[: len(b) // 2] / len(b)) ** 2
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
-        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
+        return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), (
+            2.0 * numpy.arange(len(b) // 2) / len(b)
         )
-- 
2.43.0


From bdeb9842c834ad98d58592bf97b22e1c5e05fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 10/39] fix: response and delay frequency is consistent for an
 odd length

---
 diamondback/filters/fir_filter.py | 8 ++++----
 diamondback/filters/iir_filter.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 712a185..dcbff73 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -234,9 +234,9 @@ class FirFilter(object):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.fft.fftshift(numpy.fft.fftfreq(length, 0.5)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -298,9 +298,9 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
             freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+            numpy.fft.fftshift(numpy.fft.fftfreq(length, 0.5)),
         )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..73eb931 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -275,9 +275,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.fft.fftshift(numpy.fft.fftfreq(length, 0.5)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.fft.fftshift(y) * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -348,9 +348,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.fft.fftshift(numpy.fft.fftfreq(length, 0.5)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            y = numpy.fft.fftshift(y) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 1e2904bd582bb855b55528cf78e2bd7cca345738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/39] fix: Coiflet 5 and Daubechies 7, 9, and 11 coefficients
 are orthonormal

---
 diamondback/transforms/wavelet_transform.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..ff2e75f 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.0727326195128539,
+                    0.3378976624578092,
+                    0.8525720202122554,
+                    0.3848648468642029,
+                    -0.0727326195128539,
+                    -0.0156557281354645,
                 ]
             ),
             11: numpy.array(
@@ -222,8 +222,8 @@ class WaveletTransform(object):
             7: numpy.array(
                 [
                     0.2303778133088964,
-                    0.7148465715529154,
-                    0.6308807679398587,
+                    0.7148465705529154,
+                    0.6308807679298587,
                     -0.0279837694168599,
                     -0.1870348117190931,
                     0.0308413818355607,
@@ -239,7 +239,7 @@ class WaveletTransform(object):
                     0.1384281459013203,
                     -0.2422948870663823,
                     -0.0322448695846381,
-                    0.0775714930400459,
+                    0.0775714938400459,
                     -0.0062414902127983,
                     -0.0125807519990820,
                     0.0033357252854738,
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From b66d0c769ab0ec24e34287d2cdfa804864e5138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 12/39] fix: WaveletTransform does not truncate an integer
 incident signal

---
 diamondback/transforms/wavelet_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index ff2e75f..74be47d 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -541,6 +541,8 @@ class WaveletTransform(object):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows % {2**count} and Columns % {2**count}")
         rr = max((rows // (2**count)) * (2**count), 1)
         cc = max((cols // (2**count)) * (2**count), 1)
+        if not numpy.issubdtype(v.dtype, numpy.inexact):
+            v = v.astype(float)
         y = numpy.array(v)
         b = self.b[inverse]
         fir_filter = (FirFilter(b=b[0]), FirFilter(b=b[1]))
-- 
2.43.0


From e47f58a9f19d4af174180cee9ce39605aa113f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 13/39] fix: ComplexTransform accepts a complex signal with one
 row

---
 diamondback/transforms/complex_transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..d89c064 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,6 +93,7 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
+            x = x.reshape(cols)
             v = x
             if not neutral:
                 v = x / ComplexTransform.GAIN
-- 
2.43.0


From 0e3af8619a1e0054e9dfbbc51711114e6acd6910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 14/39] fix: DiversityModel clear preserves order

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..0cb5f23 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From f117ee6f3d7d395df4001e59c5554c88f61357a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 15/39] fix: DiversityModel replacement never decreases the
 minimum distance of an initial state

---
 diamondback/models/diversity_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 0cb5f23..34d6278 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -149,6 +149,15 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                if not self._diversity:
+                    self._diversity = min(
+                        (
+                            self._distance(self.s[uu, :], self.s[vv, :])
+                            for uu in range(0, cc - 1)
+                            for vv in range(uu + 1, cc)
+                        ),
+                        default=0.0,
+                    )
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
                     u, s = numpy.inf, numpy.array(self.s)
-- 
2.43.0


From d752c176c154ce8adeb869e4b2221350afc4d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 16/39] fix: DiversityModel instance may be encoded by Serial

---
 diamondback/models/diversity_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 34d6278..60cae79 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -108,8 +108,8 @@ class DiversityModel(object):
         if order < 0:
             raise ValueError(f"Order = {order} Expected Order in [0, inf)")
         super().__init__()
-        self._distance = DiversityModel.DISTANCE[style]
         self._diversity = 0.0
+        self._style = style
         self._s = numpy.zeros((order + 1, 0))
 
     def clear(self) -> None:
@@ -152,7 +152,7 @@ class DiversityModel(object):
                 if not self._diversity:
                     self._diversity = min(
                         (
-                            self._distance(self.s[uu, :], self.s[vv, :])
+                            DiversityModel.DISTANCE[self._style](self.s[uu, :], self.s[vv, :])
                             for uu in range(0, cc - 1)
                             for vv in range(uu + 1, cc)
                         ),
@@ -164,7 +164,7 @@ class DiversityModel(object):
                     s[kk, :] = x[ii, :]
                     for uu in range(0, cc - 1):
                         for vv in range(uu + 1, cc):
-                            d = self._distance(s[uu, :], s[vv, :])
+                            d = DiversityModel.DISTANCE[self._style](s[uu, :], s[vv, :])
                             if d < u:
                                 u = d
                     if u > v:
-- 
2.43.0


From 66bc70ec00c4dbac57f601edfc665381d840dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 17/39] fix: GaussianModel covariance is normalized by
 observations

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From 17c190f7713eead9ddb3a57f72b7e136c0bc1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 18/39] fix: GaussianMixtureModel ranks an observation which is
 distant from all distributions

---
 diamondback/models/gaussian_mixture_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 331ef36..61d602b 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -138,7 +138,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"X = {x[0].shape} Expected X = {self._shape}")
         if (not len(self._model)) or (not hasattr(self._model[0], "precisions_")):
             raise RuntimeError(f"Model = {self._model} Not Trained")
-        v = numpy.zeros((x.shape[0], len(self._model)))
+        v = numpy.zeros((x.shape[0], len(self._model))) - numpy.inf
         for jj in range(0, len(v)):
             for ii in range(0, len(self._model)):
                 model = self._model[ii]
@@ -148,5 +148,7 @@ class GaussianMixtureModel(object):
                         model.means_[kk],
                         model.weights_[kk],
                     )
-                    v[jj, ii] += w * numpy.exp(-0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0))
+                    v[jj, ii] = numpy.logaddexp(
+                        v[jj, ii], numpy.log(w) - 0.5 * max((x[jj] - u) @ i @ (x[jj] - u).T, 0.0)
+                    )
         return numpy.fliplr(numpy.argsort(v, axis=1))
-- 
2.43.0


From b25bbd5621a4f20a007b1d069dda07861fbedb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 19/39] fix: IirFilter accepts a state longer than coefficients

---
 diamondback/filters/iir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 73eb931..716c20f 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,7 +202,7 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
-        self._a = numpy.array(a)
+        self._a = numpy.concatenate((a, numpy.zeros(len(self._b) - len(a))))
 
     @staticmethod
     def _evaluate(style: str, frequency: float, order: int) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 53511a96e51b22a7496a775ff25674f56473a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 20/39] fix: PolyphaseRateFilter consumes every incident sample

---
 diamondback/filters/polyphase_rate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index cba7293..78db21f 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -149,7 +149,7 @@ class PolyphaseRateFilter(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(int(numpy.round(len(x) * self.rate)))
+        y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + int(self.rate > 0.0))
         b = PolyphaseRateFilter.B
         rr = b.shape[0]
         ii, jj = 0, 0
-- 
2.43.0


From f227f699fd681bfec58fe7f7e1eb2a847ad307f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 21/39] fix: RankFilter does not truncate a state by an integer
 incident signal

---
 diamondback/filters/rank_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..5bd68c1 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,7 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        y = numpy.zeros(len(x), type(self.s[0]))
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From 300b2106d1bf3f352b0aeaefa8335eb791b9f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 22/39] fix: IirFilter recognizes any complex coefficient type

---
 diamondback/filters/iir_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 716c20f..68a9e9c 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -197,7 +197,7 @@ class IirFilter(FirFilter):
             a = numpy.concatenate((a, numpy.zeros(len(b) - len(a))))
         if len(b) < len(a):
             b = numpy.concatenate((b, numpy.zeros(len(a) - len(b))))
-        if (isinstance(a[0], complex)) or (isinstance(b[0], complex)):
+        if (numpy.iscomplexobj(a)) or (numpy.iscomplexobj(b)):
             a, b = numpy.array(a, complex), numpy.array(b, complex)
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
-- 
2.43.0


From b0d86126c0563f43a0077cc5866f15fceafd4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 23/39] fix: FourierTransform does not overflow with narrow
 integer signal and window

---
 diamondback/transforms/fourier_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 22bdc78..86431d2 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -86,6 +86,8 @@ class FourierTransform(object):
             raise ValueError(f"B = {b}")
         u = numpy.array(x[: len(b)])
         v = numpy.array(b)
+        if not numpy.issubdtype(v.dtype, numpy.inexact):
+            v = v.astype(float)
         if inverse:
             if numpy.isclose(v[0], 0.0):
                 v[0] = v[1]
-- 
2.43.0


From 96ddb28d73e292250f941b881b90077be4b0df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:49 +0000
Subject: [PATCH 24/39] fix: PsdTransform does not overflow with narrow integer
 signal and window

---
 diamondback/transforms/psd_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index b160bc6..c8b960c 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -96,6 +96,8 @@ class PsdTransform(object):
             b = numpy.array(list(b))
         if (not len(b)) or (numpy.isclose(b, 0.0).all()):
             raise ValueError(f"B = {b}")
+        if not numpy.issubdtype(b.dtype, numpy.inexact):
+            b = b.astype(float)
         if len(x) < len(b):
             raise ValueError(f"X = {x}")
         y = [
-- 
2.43.0


From e61827f35613fed56811b7ad0b57e1e129f97676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 25/39] fix: ComplexExponentialFilter accumulates an integer
 phase and unsigned frequency as floating point

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 8a70c06..ddd9d1e 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -82,7 +82,7 @@ class ComplexExponentialFilter(object):
         if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
-        phase = self.phase
+        phase = float(self.phase)
         for ii in range(0, len(x)):
             y[ii] = numpy.exp(1j * math.pi * phase)
             phase += x[ii]
-- 
2.43.0


From ea542523e050c0e18868f4287fddff6afbd109d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 26/39] fix: WaveletTransform rejects an empty signal with two
 dimensions

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 74be47d..e99afa8 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -531,7 +531,7 @@ class WaveletTransform(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (len(x.shape) > 2) or (not len(x)):
+        if (len(x.shape) > 2) or (not x.size):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
         rows, cols = v.shape
-- 
2.43.0


From 8e1a7b7193e6acf15c89a1c5320df4597d5648bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 27/39] fix: PolyphaseRateFilter evaluates coefficients when an
 instance is decoded in another process

---
 diamondback/filters/polyphase_rate_filter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 78db21f..00896c2 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -88,6 +88,14 @@ class PolyphaseRateFilter(object):
 
     @property
     def b(self):
+        b = PolyphaseRateFilter.B
+        rr, cc = b.shape
+        if not b.any():
+            firfilter = FirFilter(style="Hann", frequency=0.85 / rr, order=cc * rr - 1)
+            b = numpy.reshape(firfilter.b, (rr, cc), "F")
+            for ii in range(0, rr):
+                b[ii, :] /= sum(b[ii, :])
+            PolyphaseRateFilter.B = b
         return PolyphaseRateFilter.B
 
     @property
@@ -121,17 +129,9 @@ class PolyphaseRateFilter(object):
         if (rate < 0.0) or (rate > PolyphaseRateFilter.B.shape[0]):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         super().__init__()
-        b = PolyphaseRateFilter.B
-        rr, cc = b.shape
-        if not b.any():
-            firfilter = FirFilter(style="Hann", frequency=0.85 / rr, order=cc * rr - 1)
-            b = numpy.reshape(firfilter.b, (rr, cc), "F")
-            for ii in range(0, rr):
-                b[ii, :] /= sum(b[ii, :])
-            PolyphaseRateFilter.B = b
         self._index = 0
         self._rate = rate
-        self._s = numpy.zeros(cc)
+        self._s = numpy.zeros(self.b.shape[1])
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
@@ -150,7 +150,7 @@ class PolyphaseRateFilter(object):
         if not len(x):
             raise ValueError(f"X = {x}")
         y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + int(self.rate > 0.0))
-        b = PolyphaseRateFilter.B
+        b = self.b
         rr = b.shape[0]
         ii, jj = 0, 0
         while (ii < len(x)) and (jj < len(y)):
-- 
2.43.0


From bc61a530265ff2c88531ecd22b0844f45afc4a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 28/39] fix: PolyphaseRateFilter aligns outputs with samples
 despite rounding of a position

---
 diamondback/filters/polyphase_rate_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 00896c2..19955ff 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -152,15 +152,16 @@ class PolyphaseRateFilter(object):
         y = numpy.zeros(int(numpy.ceil(len(x) * self.rate)) + int(self.rate > 0.0))
         b = self.b
         rr = b.shape[0]
+        limit = rr - 1.0e-6
         ii, jj = 0, 0
         while (ii < len(x)) and (jj < len(y)):
-            if self._index < rr:
+            if self._index < limit:
                 kk = min(int(numpy.round(self._index)), rr - 1)
                 self._index += rr / self.rate
                 self.s[0] = x[ii]
                 y[jj] = b[kk, :].dot(self.s)
                 jj += 1
-            while (ii < len(x)) and (self._index >= rr):
+            while (ii < len(x)) and (self._index >= limit):
                 self.s[0] = x[ii]
                 self.s[1:] = self.s[:-1]
                 self._index -= rr
-- 
2.43.0


From 4e0fd719db5ce6db5527a4a5fd5f0d3a036aed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 29/39] fix: IirFilter design converges to the magnitude at the
 specified frequency

---
 diamondback/filters/iir_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 68a9e9c..60bee25 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -170,7 +170,7 @@ class IirFilter(FirFilter):
                 frequency = 1.0 - frequency
             eps, error = float(numpy.finfo(float).eps), numpy.inf
             index, rate, scale = 500, 3.0e-2 * (1.0 - 0.5 * ((order > 8) or ((order > 6) and (count > 1)))), 1.0
-            a, b = numpy.array([]), numpy.array([])
+            a, b, previous = numpy.array([]), numpy.array([]), 0.0
             for _ in range(0, index):
                 u, v = IirFilter._evaluate(style, scale * frequency, order)
                 x = numpy.exp(1j * math.pi * frequency)
@@ -181,7 +181,8 @@ class IirFilter(FirFilter):
                     a, b, error = u, v, abs(e)
                     if error < (10e3 * eps):
                         break
-                scale = max(scale + rate * e, eps)
+                rate *= 0.5 if (e * previous < 0.0) else 1.1
+                scale, previous = max(scale + rate * e, eps), e
             if complement:
                 a *= numpy.array([((-1.0) ** x) for x in range(0, len(a))])
                 b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
-- 
2.43.0


From 18342dc3da0e9e7610118ed19ae5bfe8832d9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 30/39] fix: FirFilter design converges to the magnitude at the
 specified frequency

---
 diamondback/filters/fir_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index dcbff73..7fffdba 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -171,7 +171,7 @@ class FirFilter(object):
                 frequency = 1.0 - frequency
             window = (style.lower(), 7.0) if style == "Kaiser" else style.lower()
             eps, error = float(numpy.finfo(float).eps), numpy.inf
-            index, rate, scale = 500, 3.0e-2, 1.0
+            index, rate, scale, previous = 500, 3.0e-2, 1.0, 0.0
             for _ in range(0, index):
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
@@ -192,7 +192,9 @@ class FirFilter(object):
                         b, error = v, abs(e)
                         if error < (10e3 * eps):
                             break
-                    scale = numpy.maximum(scale + rate * e, eps)
+                    if e * previous < 0.0:
+                        rate *= 0.5
+                    scale, previous = numpy.maximum(scale + rate * e, eps), e
             if complement:
                 b *= numpy.array([((-1.0) ** x) for x in range(0, len(b))])
                 b /= sum(b * numpy.array([((-1.0) ** x) for x in range(0, len(b))]))
-- 
2.43.0


From 45495f70eefc89f1466af1445ffffc456031bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 31/39] fix: Log formats the traceback of the exception which
 is written

---
 diamondback/commons/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/commons/log.py b/diamondback/commons/log.py
index 96ebc6f..48e458a 100644
--- a/diamondback/commons/log.py
+++ b/diamondback/commons/log.py
@@ -151,8 +151,8 @@ class Log(object):
                 raise ValueError(f"Level = {level} Expected Level in {Log.LEVEL}") from ex
             if v.no >= Log._level.no:
                 if isinstance(entry, Exception):
+                    info = entry.__traceback__
                     entry = f"Exception = {type(entry).__name__} {entry}"
-                    info = sys.exc_info()[-1]
                     while info:
                         entry += f" @ File = {pathlib.Path(info.tb_frame.f_code.co_filename).parts[-1]} Line = {info.tb_lineno}"
                         info = info.tb_next
-- 
2.43.0


From 9c200c1f8482cc7c3e814ac8f4033b04444e3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:55 +0000
Subject: [PATCH 32/39] fix: ComplexExponentialFilter rejects the most negative
 value of an integer signal

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index ddd9d1e..11a28bd 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -79,7 +79,7 @@ class ComplexExponentialFilter(object):
 
         if not isinstance(x, numpy.ndarray):
             x = numpy.array(list(x))
-        if (numpy.iscomplex(x).any()) or (not len(x)) or (abs(x) > 1.0).any():
+        if (numpy.iscomplex(x).any()) or (not len(x)) or ((x.real < -1.0) | (x.real > 1.0)).any():
             raise ValueError(f"X = {x}")
         y = numpy.zeros(len(x), complex)
         phase = float(self.phase)
-- 
2.43.0


From 34699684aa0e8bb7eba9b1d5f8fac6055eb600d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:38 +0000
Subject: [PATCH 33/39] fix: GaussianModel and GaussianMixtureModel lose a
 fitted model when a later fit is rejected

---
 diamondback/models/gaussian_mixture_model.py | 6 +++---
 diamondback/models/gaussian_model.py         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/models/gaussian_mixture_model.py b/diamondback/models/gaussian_mixture_model.py
index 61d602b..d1c9773 100644
--- a/diamondback/models/gaussian_mixture_model.py
+++ b/diamondback/models/gaussian_mixture_model.py
@@ -100,8 +100,7 @@ class GaussianMixtureModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        models = []
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             model = sklearn.mixture.GaussianMixture(
@@ -111,7 +110,8 @@ class GaussianMixtureModel(object):
                 reg_covar=self.regularize,
             )
             model.fit(z)
-            self._model.append(model)
+            models.append(model)
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index 8324b8d..3260923 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -77,14 +77,14 @@ class GaussianModel(object):
             raise ValueError(f"Y = {len(y)} Expected Y = {x.shape[0]}")
         if not issubclass(y.dtype.type, numpy.integer):
             raise TypeError(f"Y = {y.dtype.type} Expected Y = {numpy.integer}")
-        self._model = []
-        self._shape = x[0].shape
+        models = []
         r = self.regularize * numpy.identity(x.shape[1])
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
             i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
-            self._model.append(dict(covariancei=i, mean=u))
+            models.append(dict(covariancei=i, mean=u))
+        self._model, self._shape = models, x[0].shape
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
         """Predicts an estimate of ground truth label from an incident signal
-- 
2.43.0


From 3dad8998154725193fe07aae3b7c70751a7df97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 34/39] fix: PolynomialRateFilter of order above one divides by
 zero at the allowed rate zero

---
 diamondback/filters/polynomial_rate_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 98ee119..529fbaa 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -122,7 +122,8 @@ class PolynomialRateFilter(object):
                     [2.0 * x[-1] - x[-2], 3.0 * x[-1] - 2.0 * x[-2]],
                 )
             )
-            u, v = numpy.linspace(-1.0, 2.0, 4), 1.0 / self.rate
+            u = numpy.linspace(-1.0, 2.0, 4)
+            v = 1.0 / self.rate if self.rate > 0.0 else numpy.inf
             ii, jj = 0, 0
             index = 0.0
             while ii < cc:
-- 
2.43.0


From 6be0061c9506bc05e1b838eb3b902239c61c7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:20 +0000
Subject: [PATCH 35/39] fix: ComplexExponentialFilter accumulates phase in the
 precision of its input, and rejects a complex type with TypeError

---
 diamondback/filters/complex_exponential_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_exponential_filter.py b/diamondback/filters/complex_exponential_filter.py
index 11a28bd..aa5e3c2 100644
--- a/diamondback/filters/complex_exponential_filter.py
+++ b/diamondback/filters/complex_exponential_filter.py
@@ -85,7 +85,7 @@ class ComplexExponentialFilter(object):
         phase = float(self.phase)
         for ii in range(0, len(x)):
             y[ii] = numpy.exp(1j * math.pi * phase)
-            phase += x[ii]
+            phase += float(x[ii].real)
         phase = numpy.fmod(phase, 2.0)
         if abs(phase) > 1.0:
             phase -= numpy.sign(phase) * 2.0
-- 
2.43.0


From 904cad23101d15d2a4f92f27da8a030c994c5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:20 +0000
Subject: [PATCH 36/39] fix: PolyphaseRateFilter accumulates its position in
 single precision when a rate is numpy.float32

---
 diamondback/filters/polyphase_rate_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/polyphase_rate_filter.py b/diamondback/filters/polyphase_rate_filter.py
index 19955ff..71d5a78 100644
--- a/diamondback/filters/polyphase_rate_filter.py
+++ b/diamondback/filters/polyphase_rate_filter.py
@@ -108,7 +108,7 @@ class PolyphaseRateFilter(object):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         if not numpy.isclose(self.rate, rate):
             self._index = 0.0
-        self._rate = rate
+        self._rate = float(rate)
 
     @property
     def s(self):
@@ -130,7 +130,7 @@ class PolyphaseRateFilter(object):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, {PolyphaseRateFilter.B.shape[0]}]")
         super().__init__()
         self._index = 0
-        self._rate = rate
+        self._rate = float(rate)
         self._s = numpy.zeros(self.b.shape[1])
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From 1325fa16fc208ed49f20422c8252134790bfe014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:20 +0000
Subject: [PATCH 37/39] fix: PolynomialRateFilter accumulates its position in
 single precision when a rate is numpy.float32

---
 diamondback/filters/polynomial_rate_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/polynomial_rate_filter.py b/diamondback/filters/polynomial_rate_filter.py
index 529fbaa..be46b6e 100644
--- a/diamondback/filters/polynomial_rate_filter.py
+++ b/diamondback/filters/polynomial_rate_filter.py
@@ -71,7 +71,7 @@ class PolynomialRateFilter(object):
     def rate(self, rate: float):
         if rate < 0.0:
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, inf)")
-        self._rate = rate
+        self._rate = float(rate)
 
     def __init__(self, rate: float, order: int = 1) -> None:
         """Initialize.
@@ -88,7 +88,7 @@ class PolynomialRateFilter(object):
             raise ValueError(f"Order = {order} Expected Order in (0, inf)")
         super().__init__()
         self._order = order
-        self._rate = rate
+        self._rate = float(rate)
 
     def filter(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Filters an incident signal and produces a reference signal.
-- 
2.43.0


From 8b5d90b330c378279a5379163fce6293718106b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:39 +0000
Subject: [PATCH 38/39] fix: ZTransform impulse invariance of slow or close
 poles, which were merged within an absolute tolerance

---
 diamondback/transforms/z_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 70a1917..9f5576a 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -113,7 +113,8 @@ class ZTransform(object):
                 z = numpy.concatenate((z, numpy.zeros(len(p) - len(z))))
             a, b = numpy.poly(p).real, numpy.poly(z).real
         else:
-            r, p, _ = residue(v, u)
+            tol = 1.0e-6 * numpy.abs(numpy.roots(u)).max(initial=0.0)
+            r, p, _ = residue(v, u, tol=tol)
             a, b = numpy.ones(1) + 0j, 0j  # type: ignore
             for ii in range(0, len(r)):
                 a = numpy.convolve(a, numpy.array([1.0, -numpy.exp(p[ii] / t)]))
-- 
2.43.0


From b74fd0803d0b73d3b81d906e5d9887687fc8cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:04 +0000
Subject: [PATCH 39/39] fix: reject a negative stride in PsdTransform, which
 returned NaN

---
 diamondback/transforms/psd_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index c8b960c..a3bcafd 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -92,6 +92,8 @@ class PsdTransform(object):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
+        if index <= 0:
+            raise ValueError(f"Index = {index} Expected Index in (0, inf)")
         if not isinstance(b, numpy.ndarray):
             b = numpy.array(list(b))
         if (not len(b)) or (numpy.isclose(b, 0.0).all()):
-- 
2.43.0

