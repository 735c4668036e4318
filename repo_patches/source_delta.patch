From 46d9993c223ec88b7f4add767f58f453c31cdaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 001/102] fix: index ArrayWithUnits with numpy integers, index
 arrays, None and []

np.newaxis consumed a dimension when translating custom slices, so
arr[None, TimeSlice(...)] consulted the wrong dimension (or raised
IndexError); numpy integers and integer index arrays were handed to the
dimension's custom slicing logic, or unpacked as one index per axis.
---
 zounds/core/axis.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..a06d74f 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -4,6 +4,12 @@ from zounds.util import tuplify
 from .dimensions import IdentityDimension
 
 
+def _is_integer(x):
+    # np.timedelta64 is a sub-class of np.integer
+    return isinstance(x, (int, np.integer)) \
+           and not isinstance(x, np.timedelta64)
+
+
 class CustomSlice(object):
     def __init__(self):
         super(CustomSlice, self).__init__()
@@ -236,25 +242,26 @@ class ArrayWithUnits(np.ndarray):
         if not isinstance(sl, slice):
             return False
 
-        try:
-            return \
-                (sl.start is None or sl.start.bit_length()) \
-                and (sl.stop is None or sl.stop.bit_length())
-        except AttributeError:
-            return False
+        return \
+            (sl.start is None or _is_integer(sl.start)) \
+            and (sl.stop is None or _is_integer(sl.stop))
 
     def _compute_indices(self, index):
         dims_pos = 0
+        not_ellipsis_or_none = len(
+            [x for x in index if x is not Ellipsis and x is not None])
         for sl in index:
-            if sl is None \
-                    or isinstance(sl, int) \
+            if sl is None:
+                # additional dimension via np.newaxis
+                yield sl
+            elif _is_integer(sl) \
                     or self._is_integer_based_slice(sl) \
-                    or isinstance(sl, list):
+                    or isinstance(sl, (list, np.ndarray)):
                 # burn one
                 dims_pos += 1
                 yield sl
             elif sl is Ellipsis:
-                dims_pos += len(self.dimensions) - (len(index) - 1)
+                dims_pos += len(self.dimensions) - not_ellipsis_or_none
                 yield Ellipsis
             else:
                 dim = self.dimensions[dims_pos]
@@ -268,11 +275,12 @@ class ArrayWithUnits(np.ndarray):
         for sl in index:
             if sl is None:
                 # additional dimension via np.newaxis
+                shape_pos += 1
                 yield IdentityDimension()
-            elif isinstance(sl, int):
+            elif _is_integer(sl):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, list):
+            elif isinstance(sl, (list, np.ndarray)):
                 dims_pos += 1
                 shape_pos += 1
                 yield IdentityDimension()
@@ -299,6 +307,8 @@ class ArrayWithUnits(np.ndarray):
     def _tuplify(self, a):
         if isinstance(a, list):
             t = set([x.__class__ for x in a])
+            if not t:
+                return a,
             if len(t) > 1:
                 raise ValueError('a must be homogeneous')
             t = list(t)[0]
@@ -306,7 +316,7 @@ class ArrayWithUnits(np.ndarray):
                 return a
             else:
                 return a,
-        if isinstance(a, np.ndarray) and a.dtype == np.bool:
+        if isinstance(a, np.ndarray):
             return a,
         try:
             return tuple(a)
@@ -326,7 +336,7 @@ class ArrayWithUnits(np.ndarray):
                 and index.dtype == np.bool:
             return np.asarray(self)[index]
 
-        if self.ndim == 1 and isinstance(index, int):
+        if self.ndim == 1 and _is_integer(index):
             return np.asarray(self)[index]
 
         index = self._tuplify(index)
-- 
2.43.0


From 690967fe0e848b9380fe27d81da6feb5e39c402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 002/102] fix: slices of an ExplicitFrequencyDimension are
 relative to the sliced array

A band-sliced FrequencyAdaptive kept the absolute coefficient offsets of
the original, so slicing it again (or weighting it) addressed the wrong
coefficients; integer slices of coefficients were taken to be slices of
bands.
---
 zounds/spectral/tfrepresentation.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 555c926..a3c46c0 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -1,7 +1,7 @@
 import numpy as np
 from . import frequencyscale
 from .frequencyscale import Hertz
-from zounds.core import Dimension
+from zounds.core import Dimension, IdentityDimension
 from zounds.spectral.frequencyscale import ExplicitScale
 
 
@@ -118,16 +118,26 @@ class ExplicitFrequencyDimension(Dimension):
     def metaslice(self, index, size):
         if isinstance(index, frequencyscale.FrequencyBand):
             try:
-                slce = self._lookup[index]
                 return ExplicitFrequencyDimension(
-                    ExplicitScale([index]), [slce])
+                    ExplicitScale([index]), self._rebase([self._lookup[index]]))
             except KeyError:
                 slce = self.scale.get_slice(index)
-        else:
-            slce = index
+                return ExplicitFrequencyDimension(
+                    self.scale[slce], self._rebase(self.slices[slce]))
+
+        if isinstance(index, slice) and index == slice(None):
+            return self
+
+        # an integer-based slice addresses coefficients, and not bands, so
+        # there's no longer a mapping from bands to positions
+        return IdentityDimension()
 
-        print(slce)
-        return ExplicitFrequencyDimension(self.scale[slce], self.slices[slce])
+    def _rebase(self, slices):
+        """
+        Express slices relative to the beginning of the sliced array
+        """
+        offset = slices[0].start
+        return [slice(s.start - offset, s.stop - offset) for s in slices]
 
     def integer_based_slice(self, index):
         if not isinstance(index, frequencyscale.FrequencyBand):
-- 
2.43.0


From 2f392dd9a935e6e25853cb002124e63d559e2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 003/102] fix: float(Hertz(n)) for integer n

---
 zounds/spectral/frequencyscale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f775818..5ab6a65 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -21,7 +21,7 @@ class Hertz(float):
         return Hertz(self.hz + other)
 
     def __float__(self):
-        return self.hz
+        return float(self.hz)
 
 
 Hz = Hertz
-- 
2.43.0


From ffdd6516183bdd18fab6efe458a5389cc3579066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 004/102] fix: ExplicitScale equality ignored trailing bands

---
 zounds/spectral/frequencyscale.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index 5ab6a65..a39397a 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -509,7 +509,8 @@ class ExplicitScale(FrequencyScale):
         return self._bands
 
     def __eq__(self, other):
-        return all([a == b for (a, b) in zip(self, other)])
+        return len(self) == len(other) \
+            and all([a == b for (a, b) in zip(self, other)])
 
 
 class Bark(Hertz):
-- 
2.43.0


From d97757f530a27161861e5d4efeeeab3d83cd1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 005/102] fix: a sliced frequency scale describes the bands
 that were selected

Bark and Mel scales, and linear scales sliced with a step, were replaced by
a scale with different bands; a single-band slice of a linear scale
couldn't compute its bands at all.
---
 zounds/spectral/frequencyscale.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index a39397a..0d61683 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -283,8 +283,7 @@ class FrequencyScale(object):
         return iter(self.bands)
 
     def _construct_scale_from_slice(self, bands):
-        freq_band = FrequencyBand(bands[0].start_hz, bands[-1].stop_hz)
-        return self.__class__(freq_band, len(bands))
+        return ExplicitScale(bands)
 
     def get_slice(self, frequency_band):
         """
@@ -401,9 +400,20 @@ class LinearScale(FrequencyScale):
         freqs = np.linspace(
             self.start_hz, self.stop_hz, self.n_bands, endpoint=False)
         # constant, non-overlapping bandwidth
-        bandwidth = freqs[1] - freqs[0]
+        bandwidth = freqs[1] - freqs[0] \
+            if self.n_bands > 1 else self.stop_hz - self.start_hz
         return tuple(FrequencyBand(f, f + bandwidth) for f in freqs)
 
+    def _construct_scale_from_slice(self, bands):
+        half_a_band = bands[0].bandwidth / 2
+        contiguous = all(
+            abs(b2.start_hz - b1.stop_hz) < half_a_band
+            for b1, b2 in zip(bands[:-1], bands[1:]))
+        if not contiguous:
+            return ExplicitScale(bands)
+        freq_band = FrequencyBand(bands[0].start_hz, bands[-1].stop_hz)
+        return LinearScale(freq_band, len(bands))
+
 
 # class LogScale(FrequencyScale):
 #     def __init__(self, frequency_band, n_bands, always_even=False):
-- 
2.43.0


From 9ad5ab3e1949a5e3a80d9d8c80d1be86d8e58378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 006/102] fix: dimensions of different kinds compare unequal
 instead of raising

---
 zounds/spectral/tfrepresentation.py | 7 +++++--
 zounds/timeseries/timeseries.py     | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index a3c46c0..d80379f 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -69,7 +69,8 @@ class FrequencyDimension(Dimension):
             raise ValueError(msg.format(**locals()))
 
     def __eq__(self, other):
-        return self.scale == other.scale
+        return self.__class__ == other.__class__ \
+               and self.scale == other.scale
 
     def __str__(self):
         return 'FrequencyDimension(scale={self.scale})'.format(**locals())
@@ -156,7 +157,9 @@ class ExplicitFrequencyDimension(Dimension):
         return size == self.slices[-1].stop
 
     def __eq__(self, other):
-        return self.scale == other.scale and self.slices == other.slices
+        return self.__class__ == other.__class__ \
+               and self.scale == other.scale \
+               and self.slices == other.slices
 
     def __str__(self):
         return \
diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index b20938e..e1d75a5 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -276,5 +276,6 @@ class TimeDimension(Dimension):
 
     def __eq__(self, other):
         return \
-            self.frequency == other.frequency \
+            isinstance(other, TimeDimension) \
+            and self.frequency == other.frequency \
             and self.duration == other.duration
-- 
2.43.0


From 935eb9f348c767efdfcb5fe9328519c33cd16b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 007/102] fix: a time slice that ends before the beginning is
 empty

A negative stop further from the end than the beginning was translated to a
negative integer index, which selects samples counting from the end.
---
 zounds/timeseries/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index e1d75a5..0d3e0c5 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -271,7 +271,7 @@ class TimeDimension(Dimension):
         ratio = np.round(end / self.frequency, 2)
 
 
-        stop_index = np.ceil(ratio)
+        stop_index = max(0, np.ceil(ratio))
         return slice(int(start_index), int(stop_index))
 
     def __eq__(self, other):
-- 
2.43.0


From 2618a182f697e0cfdf54c1a45d24ca67046b1176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 008/102] fix: AudioSamples.mono averaged the channels and then
 halved the result

---
 zounds/timeseries/audiosamples.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index e77be9f..6011276 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -154,8 +154,7 @@ class AudioSamples(ArrayWithUnits):
         if self.channels == 1:
             return self
         x = self.sum(axis=1) * 0.5
-        y = x * 0.5
-        return AudioSamples(y, self.samplerate)
+        return AudioSamples(x, self.samplerate)
 
     @property
     def stereo(self):
-- 
2.43.0


From 0601beff4c17c1adc210428133b0e9a4179849fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 009/102] fix: AudioSamples.silence_like returned a signal of
 ones

---
 zounds/timeseries/audiosamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 6011276..7136f5d 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -89,10 +89,8 @@ class AudioSamples(ArrayWithUnits):
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        x = self.__class__.silence(
+        return self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
-        x[:] = 1
-        return x
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-- 
2.43.0


From 1b9768ade17ef8bb2f6b19adaf067ca0eec1fbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 010/102] fix: silence with one sample, and padding stereo
 audio with silence

---
 zounds/timeseries/audiosamples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 7136f5d..836b567 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -84,8 +84,9 @@ class AudioSamples(ArrayWithUnits):
 
     @classmethod
     def silence(cls, samplerate, duration, dtype=np.float32, channels=1):
-        shape = (int(duration / samplerate.frequency), channels)
-        silence = np.zeros(shape, dtype=dtype).squeeze()
+        n_samples = int(duration / samplerate.frequency)
+        shape = (n_samples,) if channels == 1 else (n_samples, channels)
+        silence = np.zeros(shape, dtype=dtype)
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
@@ -94,7 +95,7 @@ class AudioSamples(ArrayWithUnits):
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-            self.samplerate, silence_duration, self.dtype)
+            self.samplerate, silence_duration, self.dtype, self.channels)
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From 9a12e013bfc745a2db5008b01fb4ba279c4310f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 011/102] fix: squeezing an empty ArrayWithUnits

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index a06d74f..622dd96 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -105,7 +105,7 @@ class ArrayWithUnits(np.ndarray):
             [IdentityDimension() for _ in shape])
 
     def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] > 1]
+        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
         return ArrayWithUnits(
             super().reshape([s for s, _ in zipped]),
             [d for _, d in zipped])
-- 
2.43.0


From 9796d23cca5998a611a28be6a928c392b560af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 012/102] fix: ArrayWithUnits.dot gave the result's last axis
 the summed dimension

---
 zounds/core/axis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 622dd96..47ea801 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -163,7 +163,11 @@ class ArrayWithUnits(np.ndarray):
 
     def dot(self, b):
         result = super(ArrayWithUnits, self).dot(b)
-        return self.__class__(result, self.dimensions[:result.ndim])
+        # the last dimension is summed over, any others that b contributes
+        # have no known units
+        dims = self.dimensions[:-1]
+        dims += (IdentityDimension(),) * (result.ndim - len(dims))
+        return ArrayWithUnits(result, dims)
 
     def packbits(self, axis=None):
         arr = np.packbits(self, axis=axis)
-- 
2.43.0


From 8a90d5b18609c879260e5f86da6ebd29351113b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 013/102] fix: reducing an integer ArrayWithUnits over its only
 axis

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 47ea801..eda27f7 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -134,7 +134,7 @@ class ArrayWithUnits(np.ndarray):
         return self.__class__.zeros(self)
 
     def _apply_reduction_to_dimensions(self, result, axis, keepdims):
-        if axis is None:
+        if axis is None or np.ndim(result) == 0:
             return result
 
         ndims = len(self.dimensions)
-- 
2.43.0


From 9f0ef9b1ae1b4180faa36b8d59bd5ab461401063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 014/102] fix: windowed lost a window that fits exactly, and
 samples when padding

---
 zounds/nputil/npx.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..34e00aa 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -96,14 +96,9 @@ def _wpad(l, windowsize, stepsize):
     if l <= windowsize:
         return windowsize
 
-    nsteps = ((l // stepsize) * stepsize)
-    overlap = (windowsize - stepsize)
-    if overlap:
-        return nsteps + overlap
-
-    diff = (l - nsteps)
-    left = max(0, windowsize - diff)
-    return l + left if diff else l
+    # there's a window for every step that has samples left
+    nsteps = -(-l // stepsize)
+    return max(l, (nsteps - 1) * stepsize + windowsize)
 
 
 def _wcut(l, windowsize, stepsize):
@@ -117,7 +112,7 @@ def _wcut(l, windowsize, stepsize):
         The length the input array should be so that leftover samples are ignored
     """
     end = l - windowsize
-    if l <= windowsize:
+    if l < windowsize:
         return 0, 0
     elif end % stepsize:
         l = windowsize + ((end // stepsize) * stepsize)
-- 
2.43.0


From cea24b3dcca9f1be21ebf4c636bff1631074149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 015/102] fix: SlidingWindow added a window of zeros when no
 samples were left

---
 zounds/spectral/sliding_window.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..9bfdcbb 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -189,6 +189,9 @@ class SlidingWindow(Node):
             self._cache = self._cache.concatenate(data)
 
     def _dequeue(self):
+        if not len(self._cache):
+            raise NotEnoughData()
+
         duration = TimeSlice(duration=self._scheme.duration)
         frequency = TimeSlice(duration=self._scheme.frequency)
         leftover, arr = self._cache.sliding_window_with_leftovers(
-- 
2.43.0


From 9eceb50fc9386b2035c432f3c2d67272b4e0640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 016/102] fix: the intersection of two time slices lost its
 start

---
 zounds/timeseries/timeseries.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index 0d3e0c5..4d2f375 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -87,10 +87,9 @@ class TimeSlice(object):
             return self.start.__ge__(other)
 
     def __and__(self, other):
-        delta = max(
-            Picoseconds(0),
-            min(self.end, other.end) - max(self.start, other.start))
-        return TimeSlice(delta)
+        start = max(self.start, other.start)
+        delta = max(Picoseconds(0), min(self.end, other.end) - start)
+        return TimeSlice(delta, start=start)
 
     def __contains__(self, other):
         if isinstance(other, np.timedelta64):
-- 
2.43.0


From 09600d588be256ccdd76534b3922695d96b12c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 017/102] fix: the end of a variable rate time series with
 overlapping slices

---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index a96c071..ebf65d0 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -58,8 +58,8 @@ class VariableRateTimeSeries(object):
     @property
     def end(self):
         try:
-            return self._data.timeslice[-1].end
-        except IndexError:
+            return max(ts.end for ts in self._data.timeslice)
+        except ValueError:
             return Seconds(0)
 
     def __getitem__(self, index):
-- 
2.43.0


From b1ab95d7c8b9255a65dcc55f49faa56a27bdd413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 018/102] fix: sliding windows whose dimensions can't be kept
 raised ValueError

---
 zounds/core/axis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index eda27f7..e99fbb2 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -192,10 +192,10 @@ class ArrayWithUnits(np.ndarray):
 
         try:
             new_dims = tuple(self._compute_new_dims(result, ws, ss))
+            return ArrayWithUnits(result, new_dims)
         except ValueError:
             new_dims = [IdentityDimension()] * result.ndim
-
-        return ArrayWithUnits(result, new_dims)
+            return ArrayWithUnits(result, new_dims)
 
     def _sliding_window_integer_slices(self, windowsize, stepsize=None):
         windowsize = [windowsize] + [slice(None) for _ in self.dimensions[1:]]
@@ -221,10 +221,10 @@ class ArrayWithUnits(np.ndarray):
 
         try:
             new_dims = tuple(self._compute_new_dims(result, ws, ss))
+            return leftovers, ArrayWithUnits(result, new_dims)
         except ValueError:
             new_dims = [IdentityDimension()] * result.ndim
-
-        return leftovers, ArrayWithUnits(result, new_dims)
+            return leftovers, ArrayWithUnits(result, new_dims)
 
     def _compute_new_dims(self, windowed, ws, ss):
         for dimension, size, w, s in zip(self.dimensions, self.shape, ws, ss):
-- 
2.43.0


From e45429d71febc10fe08a30290285cac8727e6c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 019/102] fix: resampling samples that aren't contiguous in
 memory

---
 zounds/soundfile/resample.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/zounds/soundfile/resample.py b/zounds/soundfile/resample.py
index 26a7907..ac9cf90 100644
--- a/zounds/soundfile/resample.py
+++ b/zounds/soundfile/resample.py
@@ -79,10 +79,9 @@ class Resample(object):
             self.c_int_converter_type, self.c_int_channels, self.error)
 
     def _prepare_input(self, insamples):
-        # ensure that the input is float data
-        if np.float32 != insamples.dtype:
-            return insamples.astype(np.float32)
-        return insamples
+        # ensure that the input is contiguous float data with the channels
+        # interleaved
+        return np.ascontiguousarray(insamples, dtype=np.float32)
 
     def _output_buffer(self, insamples):
         outsize = (int(np.round(len(insamples) * self._ratio)), self.nchannels)
-- 
2.43.0


From ece303bb435e6cf403a7da4a45410b976ed89f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 020/102] fix: everything after the first chunk of an ogg
 stream was lost

---
 zounds/soundfile/audiostream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..181fdfd 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -71,6 +71,7 @@ class AudioStream(Node):
         self._sf = None
         self._chunk_size_samples = None
         self._cache = b''
+        self._is_ogg = False
 
     def _enqueue(self, data, pusher):
         self._cache += data
@@ -94,9 +95,15 @@ class AudioStream(Node):
         # TODO: Use the _first_chunk() hook instead of the if statement
         if self._buf is None:
             self._buf = MemoryBuffer(b.total_length)
+            self._is_ogg = b[:4] == b'OggS'
 
         self._buf.write(b)
 
+        if self._is_ogg and not self._finalized:
+            # libsndfile looks for the end of an ogg stream when opening it,
+            # and never reads anything that arrives later
+            return
+
         if self._sf is None:
             self._sf = SoundFile(self._buf)
 
-- 
2.43.0


From 03a6c0977a6a0c52361ddc6b5f582a866124e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 021/102] fix: fft over an axis that isn't the last, and
 padding of 1-D and 3-D input

---
 zounds/spectral/functional.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e33d6a0..30f1923 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -31,8 +31,10 @@ def fft(x, axis=-1, padding_samples=0):
             axis before performing the FFT
     """
     if padding_samples > 0:
+        padding_shape = list(x.shape)
+        padding_shape[axis] = padding_samples
         padded = np.concatenate(
-            [x, np.zeros((len(x), padding_samples), dtype=x.dtype)],
+            [x, np.zeros(padding_shape, dtype=x.dtype)],
             axis=axis)
     else:
         padded = x
@@ -40,7 +42,7 @@ def fft(x, axis=-1, padding_samples=0):
     transformed = np.fft.rfft(padded, axis=axis, norm='ortho')
 
     sr = audio_sample_rate(int(Seconds(1) / x.dimensions[axis].frequency))
-    scale = LinearScale.from_sample_rate(sr, transformed.shape[-1])
+    scale = LinearScale.from_sample_rate(sr, transformed.shape[axis])
     new_dimensions = list(x.dimensions)
     new_dimensions[axis] = FrequencyDimension(scale)
     return ArrayWithUnits(transformed, new_dimensions)
-- 
2.43.0


From 203023c453d9260011bacc2d9a05a97ddb2133d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 022/102] fix: stft without a windowing function

---
 zounds/spectral/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 30f1923..f7ca1a4 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -66,7 +66,8 @@ def stft(x, window_sample_rate=HalfLapped(), window=HanningWindowingFunc()):
             '(IdentityDimension, TimeDimension)')
 
     window = window or IdentityWindowingFunc()
-    windowed = arr * window._wdata(arr.shape[-1])
+    window_data = window._wdata(arr.shape[-1])
+    windowed = arr if window_data is None else arr * window_data
     return fft(windowed)
 
 
-- 
2.43.0


From b5d99e859edb9ecfb1edc7d041ba686b47cc1ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 023/102] fix: overlap-adding a FrequencyAdaptive whose overlap
 isn't one half

---
 zounds/spectral/frequencyadaptive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/frequencyadaptive.py b/zounds/spectral/frequencyadaptive.py
index 6b0fdd8..c5310eb 100644
--- a/zounds/spectral/frequencyadaptive.py
+++ b/zounds/spectral/frequencyadaptive.py
@@ -128,10 +128,11 @@ class FrequencyAdaptive(ArrayWithUnits):
             # no overlap add is necessary
             return ArrayWithUnits(stacked, [td, fdim])
 
-        step_size_samples = int(n_coeffs * overlap_ratio)
+        step_size_samples = int(np.round(n_coeffs * (1 - overlap_ratio)))
 
         first_dim = int(np.round(
-            (stacked.shape[0] * overlap_ratio) + (n_coeffs * overlap_ratio)))
+            (stacked.shape[0] * (1 - overlap_ratio)) +
+            (n_coeffs * overlap_ratio)))
 
         output = ArrayWithUnits(
             np.zeros((first_dim, self.n_bands)),
-- 
2.43.0


From 61771d0c007e65379658df58525478c01f718de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 024/102] fix: SineSynthesizer raised for some combinations of
 frequencies

---
 zounds/synthesize/synthesize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/synthesize/synthesize.py b/zounds/synthesize/synthesize.py
index 43e183b..15fd138 100644
--- a/zounds/synthesize/synthesize.py
+++ b/zounds/synthesize/synthesize.py
@@ -558,7 +558,7 @@ class SineSynthesizer(object):
         sr = int(self.samplerate)
         cps = freqs / sr
         ts = (duration / Seconds(1)) * sr
-        ranges = np.array([np.arange(0, ts * c, c) for c in cps])
+        ranges = cps[:, None] * np.arange(0, ts)[None, :]
         raw = (np.sin(ranges * (2 * np.pi)) * scaling).sum(axis=0)
         return AudioSamples(raw, self.samplerate)
 
-- 
2.43.0


From 51c05f0d6eb0e85ed1d65f6010cba9d36f0852d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 025/102] fix: phase_shift shifted by twice the requested time

---
 zounds/spectral/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index f7ca1a4..c300b85 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -223,7 +223,8 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     n_coeffs = coeffs.shape[axis]
     shift_samples = int(time_shift / samplerate.frequency)
-    shift = (np.arange(0, n_coeffs) * 2j * np.pi) / n_coeffs
+    # real-valued windows of 2 * (n_coeffs - 1) samples have n_coeffs coefficients
+    shift = (np.arange(0, n_coeffs) * 1j * np.pi) / max(1, n_coeffs - 1)
     shift = np.exp(-shift * shift_samples)
     shift = ArrayWithUnits(shift, [frequency_dim])
 
-- 
2.43.0


From 3facf7afd2608835d072af71554c08b50241e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 026/102] fix: phase_shift along an axis that isn't the last

---
 zounds/spectral/functional.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index c300b85..bd99cf2 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -237,7 +237,10 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
     slices = [slice(None) for _ in range(coeffs.ndim)]
     slices[axis] = frequency_band
-    new_coeffs[tuple(slices)] *= shift[frequency_band]
+    band_shift = np.asarray(shift[frequency_band])
+    shape = [1] * coeffs.ndim
+    shape[axis] = band_shift.size
+    new_coeffs[tuple(slices)] *= band_shift.reshape(shape)
     return new_coeffs
 
 
-- 
2.43.0


From 5109f7cce91637aa106139ffbfeec6b2815299c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 027/102] fix: the spectral centroid wasn't weighted by
 magnitude, but grew with loudness

---
 zounds/spectral/spectral.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index 22ef1a6..ef884d7 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -278,12 +278,14 @@ class SpectralCentroid(Node):
 
     def _first_chunk(self, data):
         self._bins = np.arange(1, data.shape[-1] + 1)
-        self._bins_sum = np.sum(self._bins)
         return data
 
     def _process(self, data):
         data = np.abs(data)
-        yield (data * self._bins).sum(axis=1) / self._bins_sum
+        weights = data.sum(axis=1)
+        # the centroid of a silent frame is zero
+        weights[weights == 0] = 1
+        yield (data * self._bins).sum(axis=1) / weights
 
 
 class SpectralFlatness(Node):
-- 
2.43.0


From 207690c2693e42d9a6a68e373eff71134c194750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:15 +0000
Subject: [PATCH 028/102] fix: apply_scale without a window raised TypeError

---
 zounds/spectral/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index bd99cf2..3429481 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -246,7 +246,7 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
 def apply_scale(short_time_fft, scale, window=None):
     magnitudes = np.abs(short_time_fft.real)
-    spectrogram = scale.apply(magnitudes, window)
+    spectrogram = scale.apply(magnitudes, 1 if window is None else window)
     dimensions = short_time_fft.dimensions[:-1] + (FrequencyDimension(scale),)
     return ArrayWithUnits(spectrogram, dimensions)
 
-- 
2.43.0


From df3a4c3aede45bd676a8e2c6070719854351e16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 029/102] fix: DCTIV discarded the imaginary half of its
 modulated input

---
 zounds/spectral/spectral.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index ef884d7..9243b16 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -109,8 +109,8 @@ class DCTIV(Node):
     def _process_raw(self, data):
         l = data.shape[1]
         tf = np.arange(0, l)
-        z = np.zeros((len(data), l * 2))
-        z[:, :l] = (data * np.exp(-1j * np.pi * tf / 2 / l)).real
+        z = np.zeros((len(data), l * 2), dtype=np.complex128)
+        z[:, :l] = data * np.exp(-1j * np.pi * tf / 2 / l)
         z = np.fft.fft(z)[:, :l]
         raw = np.sqrt(2 / l) * \
               (z * np.exp(-1j * np.pi * (tf + 0.5) / 2 / l)).real
-- 
2.43.0


From f39b20696f19e68be7a903094f5a41626652f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 030/102] fix: DCT and DCTIV truncated the sample rate of their
 input

---
 zounds/spectral/spectral.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/spectral.py b/zounds/spectral/spectral.py
index 9243b16..2019275 100644
--- a/zounds/spectral/spectral.py
+++ b/zounds/spectral/spectral.py
@@ -81,7 +81,8 @@ class DCT(Node):
         transformed = dct(data, norm='ortho', axis=self._axis)
 
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, transformed.shape[-1], always_even=self.scale_always_even)
 
@@ -119,7 +120,8 @@ class DCTIV(Node):
     def _process(self, data):
         raw = self._process_raw(data)
         sr = audio_sample_rate(
-            int(data.shape[1] / data.dimensions[0].duration_in_seconds))
+            int(np.round(
+                data.shape[1] / data.dimensions[0].duration_in_seconds)))
         scale = LinearScale.from_sample_rate(
             sr, data.shape[1], always_even=self.scale_always_even)
         yield ArrayWithUnits(
-- 
2.43.0


From 2b5cf0a25520ccb5c7647e51dc9997c2b31a5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 031/102] fix: categorical mistook asymmetric and silent
 signals, and any mu but 255

---
 zounds/timeseries/functional.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 8f5b2cf..4bde2bd 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -12,17 +12,17 @@ def categorical(x, mu=255, normalize=True):
 
     if normalize:
         # normalize the signal
-        mx = x.max()
-        x = np.divide(x, mx, where=mx != 0)
+        mx = np.abs(x).max()
+        x = x / mx if mx != 0 else x
 
     # mu law compression
-    x = mu_law(x)
+    x = mu_law(x, mu=mu)
 
     # translate and scale to [0, 1]
-    x = (x - x.min()) * 0.5
+    x = (x + 1) * 0.5
 
-    # convert to the range [0, 255]
-    x = (x * mu).astype(np.uint8)
+    # convert to the range [0, mu]
+    x = (x * mu).astype(np.int64)
 
     # create the array to house the categorical representation
     c = np.zeros((np.product(x.shape), mu + 1), dtype=np.uint8)
-- 
2.43.0


From bc3af984971b962d9dba424b2dce204e8f97e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 032/102] fix: inverse_categorical didn't undo the scaling of
 categorical

---
 zounds/timeseries/functional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/functional.py b/zounds/timeseries/functional.py
index 4bde2bd..2aa6627 100644
--- a/zounds/timeseries/functional.py
+++ b/zounds/timeseries/functional.py
@@ -40,6 +40,6 @@ def inverse_categorical(x, mu=255):
     """
     flat = x.reshape((-1, x.shape[-1]))
     indices = np.argmax(flat, axis=1).astype(np.float32)
-    indices = (indices / mu) - 0.5
+    indices = (indices / mu) * 2 - 1
     inverted = inverse_mu_law(indices, mu=mu).reshape(x.shape[:-1])
-    return ArrayWithUnits(inverted, x.dimensions[:2])
+    return ArrayWithUnits(inverted, x.dimensions[:-1])
-- 
2.43.0


From 01309a73cc439e8fa0eea2e0be731aa7d44de73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 033/102] fix: unit_scale of a constant array was nan

---
 zounds/loudness/loudness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..347e923 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -49,7 +49,7 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
+    scaled = scaled / np.where(mx != 0, mx, 1)
     return scaled
 
 
-- 
2.43.0


From a6b45ffb3f04c81626f1bf7b88965ec43a971f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 034/102] fix: normalizing examples or features without
 variance gave uninitialized values

---
 zounds/learn/functional.py | 2 +-
 zounds/learn/preprocess.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..a2a67ac 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,7 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    normed = x / np.where(norms != 0, norms, 1)
     normed = normed.reshape(original_shape)
 
     if return_norms:
diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..cd44453 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -426,7 +426,7 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            return (d - mean) / np.where(std != 0, std, 1)
 
         return x
 
@@ -469,7 +469,7 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            output = max_value * (d / np.where(m != 0, m, 1))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
-- 
2.43.0


From fdc3cf5966fdedad11481ee5af874f84ff7db036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 035/102] fix: preprocessing operations with parameters that
 aren't C-contiguous

---
 zounds/learn/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index cd44453..0ed2d35 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -33,7 +33,7 @@ class Op(object):
             try:
                 h.update(v.version)
             except AttributeError:
-                h.update(np.array(v))
+                h.update(np.array(v, order='C'))
         return h.hexdigest()
 
     def __getattr__(self, key):
-- 
2.43.0


From dd48c36d398bbb24aa8874724be54da932cdf092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 036/102] fix: preprocessing operations with parameters that
 have a version

---
 zounds/learn/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 0ed2d35..a65e136 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -31,7 +31,7 @@ class Op(object):
         h = hashlib.md5(self._func)
         for v in self._kwargs.values():
             try:
-                h.update(v.version)
+                h.update(v.version.encode())
             except AttributeError:
                 h.update(np.array(v, order='C'))
         return h.hexdigest()
-- 
2.43.0


From f68058655f86d8f545e406e30c55f6a293e21998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 037/102] fix: ReservoirSampler only ever drew from the
 beginning of each chunk

---
 zounds/learn/random_samples.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fcf2e01..fb69f91 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -260,9 +260,11 @@ class ReservoirSampler(Node):
         remaining = len(data[diff:])
         if not remaining:
             return
-        indices = np.random.random_integers(0, self._index, size=remaining)
-        indices = indices[indices < self._nsamples]
-        self._r[indices, ...] = data[diff:][list(range(len(indices)))]
+        # the nth sample in the stream replaces another with odds nsamples / n
+        seen = np.arange(self._index, self._index + remaining)
+        indices = np.random.randint(0, seen + 1)
+        chosen = np.where(indices < self._nsamples)[0]
+        self._r[indices[chosen], ...] = data[diff:][chosen]
         self._index += remaining
 
     def _dequeue(self):
-- 
2.43.0


From 8a54431e35107ba4e7579e3e5c444f266f011b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 038/102] fix: features without variance weren't inverted for
 new examples

---
 zounds/learn/preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index a65e136..0d92a92 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -432,8 +432,9 @@ class MeanStdNormalization(Preprocessor):
 
     def _backward_func(self):
         def x(d, mean=None, std=None):
+            import numpy as np
             arr = d.copy()
-            arr *= std
+            arr *= np.where(std != 0, std, 1)
             arr += mean
             return arr
 
-- 
2.43.0


From af292c86733c7852eda4fd97d8931dece36db721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 039/102] fix: samples that a multiplexed reservoir refused
 shifted its keys apart

---
 zounds/learn/random_samples.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index fb69f91..b2e111b 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -105,6 +105,11 @@ class MultiplexedReservoir(object):
                 'samples should have keys {keys}'
                     .format(keys=list(self.reservoir.keys())))
 
+        # nothing may be added if samples are refused, since samples in
+        # different reservoirs would no longer correspond to each other
+        if len(set(len(v) for v in samples.values())) > 1:
+            raise ValueError('samples should have the same length')
+
     def add(self, samples):
         self._init_dict(samples)
         self._check_sample_keys(samples)
-- 
2.43.0


From 6eaebb2668efee25e9ef4b2f3284b4f1a5d48bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 040/102] fix: HammingDb.search raised for as many results as
 there are codes, or more

---
 zounds/index/hammingdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..b832f5d 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -194,10 +194,15 @@ class HammingDb(object):
                 (codes[i: i + chunksize] for i in
                  range(0, n_codes, chunksize))))
 
+        n_results = min(n_results, len(scores))
+        if n_results < 1:
+            return
+
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        partitioned_indices = np.argpartition(
+            scores, n_results - 1)[:n_results]
 
         if sort:
             # since argpartition doesn't guarantee that the results are
-- 
2.43.0


From 643e5fd305f94fa965657e1545da1154a220c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 041/102] fix: HammingDb.random_search never returned for an
 empty database

---
 zounds/index/hammingdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index b832f5d..938b985 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -156,6 +156,9 @@ class HammingDb(object):
             self._add_code(_id, code)
 
     def _random_code(self):
+        if not len(self):
+            raise ValueError('There are no codes in an empty database')
+
         with self.env.begin() as txn:
             with txn.cursor(self.index) as cursor:
                 code = None
-- 
2.43.0


From cf96292039c938e5b2a30d359f424ef7017fa064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 042/102] fix: a HammingIndex that has codes couldn't listen
 for new documents

---
 zounds/index/index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9addb8d..9e8b030 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -143,9 +143,9 @@ class HammingIndex(object):
     def _listen(self, raise_when_empty=False):
 
         if self.hamming_db is not None:
-            last_timestamp = self.hamming_db.get_metadata('timestamp') or ''
+            last_timestamp = self.hamming_db.get_metadata(b'timestamp') or b''
         else:
-            last_timestamp = ''
+            last_timestamp = b''
 
         if not self.event_log:
             raise ValueError(
-- 
2.43.0


From ab9002d430f1b5076740c8a676035c03d57f3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 043/102] fix: a listening HammingIndex died of the first event
 published meanwhile

---
 zounds/index/index.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9e8b030..2986fef 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -119,6 +119,12 @@ class HammingIndex(object):
             ((key, func(doc, ts)) for key, func in self.extra_data.items()))
 
     def add(self, _id, timestamp=b''):
+        try:
+            # ids of events that were just published are text
+            timestamp = timestamp.encode()
+        except AttributeError:
+            pass
+
         # load the feature from the feature database
         feature = self.feature(_id=_id, persistence=self.document)
 
-- 
2.43.0


From e253a35e5ca67887b98e0fdf8f1b3804de4392a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 044/102] fix: HammingIndex ignored the size of database it was
 asked for

---
 zounds/index/index.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 2986fef..9350c0b 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -52,7 +52,10 @@ class HammingIndex(object):
 
         try:
             self.hamming_db = HammingDb(
-                self.hamming_db_path, code_size=None, writeonly=self.writeonly)
+                self.hamming_db_path,
+                map_size=self.db_size_bytes,
+                code_size=None,
+                writeonly=self.writeonly)
         except ValueError:
             self.hamming_db = None
 
@@ -101,7 +104,10 @@ class HammingIndex(object):
             return
         code_size = len(code) if code else None
         self.hamming_db = HammingDb(
-            self.hamming_db_path, code_size=code_size, writeonly=self.writeonly)
+            self.hamming_db_path,
+            map_size=self.db_size_bytes,
+            code_size=code_size,
+            writeonly=self.writeonly)
 
     def _synchronously_process_events(self):
         self._listen(raise_when_empty=True)
-- 
2.43.0


From 7a40669a02ce3fe4cbd36f144a3291af8c1aa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 045/102] fix: multithreaded HammingDb.search of an empty
 database raised

---
 zounds/index/hammingdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 938b985..232d921 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -187,6 +187,10 @@ class HammingDb(object):
         if codes.ndim == 1:
             codes = codes[..., None]
 
+        n_results = min(n_results, len(codes))
+        if n_results < 1:
+            return
+
         if not multithreaded:
             scores = packed_hamming_distance(query, codes)
         else:
@@ -197,10 +201,6 @@ class HammingDb(object):
                 (codes[i: i + chunksize] for i in
                  range(0, n_codes, chunksize))))
 
-        n_results = min(n_results, len(scores))
-        if n_results < 1:
-            return
-
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-- 
2.43.0


From 6ccaf8dbaaf527141ac1fdb2ea7fce73d8f08255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 046/102] fix: PackedArrayWithUnitsFeature couldn't be
 instantiated

---
 zounds/persistence/arraywithunits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..0a6e70e 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -118,7 +118,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
-- 
2.43.0


From 0944ddc97b2dc20089bda66fe7c45acf1b6ae7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 047/102] fix: negative times couldn't be decoded

---
 zounds/persistence/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 43af291..9798e00 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -9,13 +9,13 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 def encode_timedelta(td):
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
-    encoded = base64.b64encode(td.astype(np.uint64).tostring()).decode()
+    encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
     return encoded, dtype
 
 
 def decode_timedelta(t):
     try:
-        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.uint64)[0]
+        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
         return np.timedelta64(int(v), s)
     except IndexError:
-- 
2.43.0


From 64ca89080becb73e33210da6002b0f1e2d9672fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 048/102] fix: open-ended time slices couldn't be encoded

---
 zounds/persistence/timeslice.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/zounds/persistence/timeslice.py b/zounds/persistence/timeslice.py
index 49bb8c7..c6cf904 100644
--- a/zounds/persistence/timeslice.py
+++ b/zounds/persistence/timeslice.py
@@ -6,9 +6,10 @@ class TimeSliceEncoder(object):
         super(TimeSliceEncoder, self).__init__()
 
     def dict(self, ts):
-        return dict(
-            start=encode_timedelta(ts.start),
-            duration=encode_timedelta(ts.duration))
+        # the duration of a slice that is open-ended is None
+        duration = None if ts.duration is None \
+            else encode_timedelta(ts.duration)
+        return dict(start=encode_timedelta(ts.start), duration=duration)
 
 
 class TimeSliceDecoder(object):
@@ -16,7 +17,7 @@ class TimeSliceDecoder(object):
         super(TimeSliceDecoder, self).__init__()
 
     def kwargs(self, d):
-        return dict(
-            start=decode_timedelta(d['start']),
-            duration=decode_timedelta(d['duration']))
+        duration = None if d['duration'] is None \
+            else decode_timedelta(d['duration'])
+        return dict(start=decode_timedelta(d['start']), duration=duration)
 
-- 
2.43.0


From 2d7d8a3d97cfa5f3e9309ed6ba840592f5f0244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 049/102] fix: times of variable rate time series were stored
 inexactly

Dividing picoseconds as floating point numbers loses precision beyond
2 ** 53 picoseconds, i.e. about two and a half hours into a recording.
---
 zounds/timeseries/variablerate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index ebf65d0..19913db 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -90,8 +90,8 @@ class VariableRateTimeSeriesEncoder(NumpyEncoder):
         ])
         ps = Picoseconds(1)
         output.slicedata[:] = data.slicedata
-        output.start[:] = [ts.start / ps for ts in data.slices]
-        output.duration[:] = [ts.duration / ps for ts in data.slices]
+        output.start[:] = [ts.start // ps for ts in data.slices]
+        output.duration[:] = [ts.duration // ps for ts in data.slices]
         return output
 
 
-- 
2.43.0


From 78d99f1a862a3220ffdfaa6f6cc7a9876defccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 050/102] fix: scales defined by numpy integers couldn't be
 stored

Frequencies and numbers of bands computed with numpy, e.g. as a cumulative
sum, may be integers that the json module can't encode.
---
 zounds/persistence/frequencydimension.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/frequencydimension.py b/zounds/persistence/frequencydimension.py
index ca690e0..394f970 100644
--- a/zounds/persistence/frequencydimension.py
+++ b/zounds/persistence/frequencydimension.py
@@ -1,9 +1,15 @@
+import numpy as np
 from .basedimension import BaseDimensionEncoder, BaseDimensionDecoder
 from zounds.spectral import \
     FrequencyBand, FrequencyDimension, LinearScale, GeometricScale, \
     ExplicitScale, ExplicitFrequencyDimension, BarkScale, MelScale, ChromaScale
 
 
+def _to_native(value):
+    # numpy scalars, other than float64, can't be represented as JSON
+    return value.item() if isinstance(value, np.generic) else value
+
+
 class ScaleEncoderDecoder(object):
     def __init__(self):
         super(ScaleEncoderDecoder, self).__init__()
@@ -129,7 +135,8 @@ class ExplicitScaleEncoderDecoder(ScaleEncoderDecoder):
         return d['name'] == ExplicitScale.__name__
 
     def encode(self, scale):
-        bands = [(b.start_hz, b.stop_hz) for b in scale]
+        bands = [
+            (_to_native(b.start_hz), _to_native(b.stop_hz)) for b in scale]
         return dict(bands=bands, name=ExplicitScale.__name__)
 
     def decode(self, d):
@@ -163,7 +170,8 @@ class CompositeScaleEncoderDecoder(object):
             raise NotImplementedError('No suitable decoder found')
 
     def encode(self, scale):
-        return self._find_encoder(scale).encode(scale)
+        encoded = self._find_encoder(scale).encode(scale)
+        return dict((k, _to_native(v)) for k, v in encoded.items())
 
     def decode(self, d):
         return self._find_decoder(d).decode(d)
-- 
2.43.0


From 4586529ef461fee5f8f53ee36a197287a85b6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 051/102] fix: documents that were interrupted while being
 indexed stayed incomplete

The time of the event was stored along with the first code of a document, so
that if indexing failed at a later code, it would be resumed at the next
document, and the remaining codes would never be found.
---
 zounds/index/index.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index 9350c0b..d856c2d 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -140,6 +140,7 @@ class HammingIndex(object):
             arr = feature
 
         # extract codes and timeslices from the feature
+        codes = []
         for ts, data in arr.iter_slices():
             code = self.encode_query(data)
             encoded_ts = dict(
@@ -148,8 +149,14 @@ class HammingIndex(object):
             extra_data = self._collect_extra_data(_id, ts)
             if extra_data:
                 encoded_ts['extra_data'] = extra_data
+            codes.append((code, json.dumps(encoded_ts)))
+
+        for code, encoded in codes:
             self._init_hamming_db(code)
-            self.hamming_db.append(code, json.dumps(encoded_ts))
+            self.hamming_db.append(code, encoded)
+
+        if codes:
+            # only once every code is stored may indexing carry on from here
             self.hamming_db.set_metadata(b'timestamp', timestamp)
 
     def _listen(self, raise_when_empty=False):
-- 
2.43.0


From 04bd20b37242efeb3c8bfac0d4f008fe41bd64aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 052/102] fix: Flux always raised, because its result has one
 dimension only

---
 zounds/segment/onset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 0c9c3e3..9827b22 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -124,7 +124,7 @@ class Flux(Node):
         diff = np.diff(data, axis=0)
 
         yield ArrayWithUnits(
-            np.linalg.norm(diff, axis=-1), data.dimensions)
+            np.linalg.norm(diff, axis=-1), data.dimensions[:1])
 
 
 class BasePeakPicker(Node):
-- 
2.43.0


From 1cbedcbc6f32dc40a5fad8716db05f1c42aff0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 053/102] fix: ComplexDomain always raised, and took the sign
 of phase deltas for their size

---
 zounds/segment/onset.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/zounds/segment/onset.py b/zounds/segment/onset.py
index 9827b22..b06cf53 100644
--- a/zounds/segment/onset.py
+++ b/zounds/segment/onset.py
@@ -70,34 +70,21 @@ class ComplexDomain(Node):
         # delta between expected and actual phase
         # TODO: unwrap phases before computing deltas, to avoid artifacts
         # or discontinuties from phase boundary wrapping
-        angle = np.angle(data)
-        angle = np.unwrap(angle, axis=1)
-        angle = np.angle(angle[:, 2] - (2 * angle[:, 1]) + angle[:, 0])
+        angle = np.unwrap(np.angle(np.asarray(data)), axis=1)
+        angle = angle[:, 2] - (2 * angle[:, 1]) + angle[:, 0]
 
         # expected magnitude
-        expected = np.abs(data[:, 1, :])
+        expected = np.abs(np.asarray(data[:, 1, :]))
         # actual magnitude
-        actual = np.abs(data[:, 2, :])
-        # detection function array
-        detect = np.zeros(angle.shape)
-
-        # where phase delta is zero, detection function is the difference 
-        # between expected and actual magnitude
-        zero_phase_delta_indices = np.where(angle == 0)
-        detect[zero_phase_delta_indices] = \
-            (expected - actual)[zero_phase_delta_indices]
-
-        # where phase delta is non-zero, detection function combines magnitude
-        # and phase deltas
-        nonzero_phase_delta_indices = np.where(angle != 0)
-        detect[nonzero_phase_delta_indices] = (
-            ((expected ** 2) + (actual ** 2) -
-             (2 * expected * actual * np.cos(angle))) ** 0.5)[
-            nonzero_phase_delta_indices]
-
-        dims = \
-            [TimeDimension(data.frequency, data.duration // 3)] \
-            + data.dimensions[1:]
+        actual = np.abs(np.asarray(data[:, 2, :]))
+
+        # the detection function is the distance between the expected and the
+        # actual value in the complex plane.  Where the phase delta is zero,
+        # that's the difference between the magnitudes
+        detect = np.abs(expected - (actual * np.exp(1j * angle)))
+
+        td = data.dimensions[0]
+        dims = [TimeDimension(td.frequency, td.duration // 3)]
         output = ArrayWithUnits(detect.sum(axis=1), dims)
         yield output
 
-- 
2.43.0


From 0df1efc686ba95f6a166018467fde6045642974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 054/102] fix: the Sum node always raised TypeError

---
 zounds/basic/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/basic/basic.py b/zounds/basic/basic.py
index 31349d2..a914ac2 100644
--- a/zounds/basic/basic.py
+++ b/zounds/basic/basic.py
@@ -90,7 +90,7 @@ class Sum(Node):
         # TODO: This should be generalized.  Sum will have this same problem
         try:
             # data = np.sum(data, axis=self._axis)
-            data = np.sum(axis=self._axis)
+            data = data.sum(axis=self._axis)
         except ValueError:
             print('ERROR')
             data = data
-- 
2.43.0


From 4dc913389aedba9de185f4c3ee7929940af9b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 055/102] fix: safe_unit_norm of arrays with more than two
 dimensions

---
 zounds/nputil/npx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index 34e00aa..353f487 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -60,7 +60,7 @@ def safe_unit_norm(a):
     # values to another number. It doesn't matter what, since we'll be dividing
     # a vector of zeros by the number, and 0 / N always equals 0.
     norm[norm == 0] = -1e12
-    return a / norm[:, np.newaxis]
+    return a / norm[..., np.newaxis]
 
 
 def pad(a, desiredlength):
-- 
2.43.0


From ce7215c5e624ffaf07297ce56c6bd37456494e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 056/102] fix: appending to a Growable whose position is beyond
 its data

---
 zounds/nputil/npx.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index 353f487..fe0a590 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -328,11 +328,9 @@ class Growable(object):
         append a single item to the array, growing the wrapped numpy array
         if necessary
         """
-        try:
-            self._data[self._position] = item
-        except IndexError:
+        while self._position >= self.physical_size:
             self._grow()
-            self._data[self._position] = item
+        self._data[self._position] = item
         self._position += 1
         return self
 
-- 
2.43.0


From 3f886bf1958f53d839cbf5bf6266b30a91cdfe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 057/102] fix: ranges of bytes include their last byte, and may
 be unsatisfiable

---
 zounds/ui/baseapp.py      |  1 +
 zounds/ui/contentrange.py | 10 ++++++++--
 zounds/ui/serializer.py   | 15 +++++++--------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index 296c804..fb33f33 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -133,6 +133,7 @@ class BaseZoundsApp(object):
                 except UnsatisfiableRangeRequestException:
                     self.set_status(http.client.REQUESTED_RANGE_NOT_SATISFIABLE)
                     self.finish()
+                    return
                 self.set_header('Content-Type', result.content_type)
                 self.set_header('Accept-Ranges', 'bytes')
                 self.write(result.data)
diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..05b2624 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -86,11 +86,17 @@ class ContentRange(object):
 
     @staticmethod
     def from_slice(slce, total):
-        return ContentRange('bytes', slce.start, total, slce.stop)
+        # a range of bytes includes its last one
+        start = slce.start or 0
+        last = total - 1
+        stop = last if slce.stop is None else min(slce.stop, last)
+        if start > stop:
+            raise UnsatisfiableRangeRequestException()
+        return ContentRange('bytes', start, total, stop)
 
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
+        stop = self.total if self.stop is None else self.stop
         total = self.total
         return '{unit} {start}-{stop}/{total}'.format(**locals())
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..af86132 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -50,20 +50,19 @@ class DefaultSerializer(object):
         feature = context.feature
         slce = context.slce
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
-        if slce.start:
-            flo.seek(slce.start)
-        if slce.stop:
-            value = flo.read(slce.stop - slce.start)
-        else:
-            value = flo.read()
+        if slce.start is None and slce.stop is None:
+            return TempResult(flo.read(), self.content_type)
         key = document.key_builder.build(
                 document._id, feature.key, feature.version)
         total = document.database.size(key)
+        content_range = ContentRange.from_slice(slce, total)
+        flo.seek(content_range.start)
+        value = flo.read(content_range.stop - content_range.start + 1)
         return TempResult(
                 value,
                 self.content_type,
-                is_partial=slce.start is not None or slce.stop is not None,
-                content_range=ContentRange.from_slice(slce, total))
+                is_partial=True,
+                content_range=content_range)
 
 
 class AudioSamplesSerializer(object):
-- 
2.43.0


From b566b2575326ca1f4ed4a9e0165d7c598ae60279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 058/102] fix: search results could not be serialized as JSON

---
 zounds/ui/serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index af86132..df7ed40 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -286,7 +286,8 @@ class SearchResultsSerializer(AudioSliceSerializer):
         return isinstance(context.value, SearchResults)
 
     def additional_data(self, context):
-        return {'query': base64.b64encode(context.value.query)}
+        query = base64.b64encode(context.value.query)
+        return {'query': query.decode()}
 
     def iter_results(self, context):
         for _id, ts in context.value:
-- 
2.43.0


From 24acd8774281ddcb0f796c7a5ee8538c76afd5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:49 +0000
Subject: [PATCH 059/102] fix: which arrays are served as images

---
 zounds/ui/serializer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index df7ed40..6646bac 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -196,9 +196,13 @@ class NumpySerializer(object):
         super(NumpySerializer, self).__init__()
 
     def matches(self, context):
+        value = context.value
+        if value is None:
+            return isinstance(context.feature, ArrayWithUnitsFeature)
         return \
-            isinstance(context.value, np.ndarray) \
-            and len(context.value.shape) in (1, 2, 3)
+            isinstance(value, np.ndarray) \
+            and (value.ndim in (1, 2) or
+                 (value.ndim == 3 and value.shape[-1] in (3, 4)))
 
     @property
     def content_type(self):
-- 
2.43.0


From a242b1ca8ea7300df0914d7fd4466d6040ac684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:03 +0000
Subject: [PATCH 060/102] fix: FeatureParser returned the feature of an earlier
 statement

---
 zounds/ui/featureparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/ui/featureparser.py b/zounds/ui/featureparser.py
index 27c029c..5589530 100644
--- a/zounds/ui/featureparser.py
+++ b/zounds/ui/featureparser.py
@@ -55,6 +55,8 @@ class FeatureParser(object):
 
     def parse_feature(self, statement):
         root = ast.parse(statement)
+        self.visitor.doc = None
+        self.visitor.feature_name = None
         try:
             self.visitor.visit(root)
         except ValueError:
-- 
2.43.0


From 60d0d835a044f682ea238a9d7e41c8ea781c9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:16 +0000
Subject: [PATCH 061/102] fix: ingest did nothing without a pool

---
 zounds/datasets/ingest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/ingest.py b/zounds/datasets/ingest.py
index 8f01e32..0f25ea6 100644
--- a/zounds/datasets/ingest.py
+++ b/zounds/datasets/ingest.py
@@ -40,7 +40,8 @@ def ingest(
     cls_args = repeat(cls)
     skip_args = repeat(skip_if_exists)
 
-    map_func(ingest_one, zip(dataset, cls_args, skip_args))
+    for _ in map_func(ingest_one, zip(dataset, cls_args, skip_args)):
+        pass
 
     if pool is not None:
         # if we're ingesting using multiple processes or threads, the processing
-- 
2.43.0


From 186ec686c6036cd551e077e4a9ef1cb77467cf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 062/102] fix: DataSetCache always raised TypeError

---
 zounds/datasets/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index 7146af3..e497918 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -13,7 +13,7 @@ class DataSetCache(object):
 
     def __iter__(self):
         for request in self.dataset:
-            h = hashlib.md5(request.url).hexdigest()
+            h = hashlib.md5(request.url.encode()).hexdigest()
             p = os.path.join(self.path, h)
 
             if not os.path.exists(p):
-- 
2.43.0


From 19853044f11b0a955e046c0d3461a06f9604c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 063/102] fix: failed downloads were taken for complete files

---
 zounds/datasets/cache.py | 5 ++++-
 zounds/datasets/util.py  | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/zounds/datasets/cache.py b/zounds/datasets/cache.py
index e497918..0e5a701 100644
--- a/zounds/datasets/cache.py
+++ b/zounds/datasets/cache.py
@@ -23,8 +23,11 @@ class DataSetCache(object):
 
                 resp.raise_for_status()
 
-                with open(p, 'wb') as f:
+                # an interrupted download should not be mistaken for a file
+                partial = p + '.partial'
+                with open(partial, 'wb') as f:
                     for chunk in resp.iter_content(1024):
                         f.write(chunk)
+                os.rename(partial, p)
 
             yield p
diff --git a/zounds/datasets/util.py b/zounds/datasets/util.py
index 09a63b0..4260e54 100644
--- a/zounds/datasets/util.py
+++ b/zounds/datasets/util.py
@@ -9,12 +9,16 @@ def ensure_local_file(remote_url, local_path, chunksize=4096):
     local = os.path.join(local_path, filename)
 
     if not os.path.exists(local):
-        with open(local, 'wb') as f:
-            resp = requests.get(remote_url, stream=True)
+        resp = requests.get(remote_url, stream=True)
+        resp.raise_for_status()
+        # an interrupted download should not be mistaken for a file
+        partial = local + '.partial'
+        with open(partial, 'wb') as f:
             total_bytes = int(resp.headers['Content-Length'])
             for i, chunk in enumerate(resp.iter_content(chunk_size=chunksize)):
                 f.write(chunk)
                 progress = ((i * chunksize) / float(total_bytes)) * 100
                 print('{remote_url} {progress:.2f}% complete'.format(**locals()))
+        os.rename(partial, local)
 
     return local
-- 
2.43.0


From 5979d41c732be4fcf5ca56bd9b48f4c51a834d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:01 +0000
Subject: [PATCH 064/102] fix: FreeSoundSearch gave too many results, and
 started over after the last

---
 zounds/datasets/freesound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/datasets/freesound.py b/zounds/datasets/freesound.py
index 20ceaf7..482ccb1 100644
--- a/zounds/datasets/freesound.py
+++ b/zounds/datasets/freesound.py
@@ -94,11 +94,12 @@ class FreeSoundSearch(object):
             # prevent 429 "Too Many Requests" responses
             time.sleep(self.delay)
 
-        for r in self._iter_results(results['next']):
-            yield r
+        if results['next']:
+            for r in self._iter_results(results['next']):
+                yield r
 
     def __iter__(self):
         for i, data in enumerate(self._iter_results()):
-            if i > self.n_results:
+            if i >= self.n_results:
                 break
             yield self._freesound_to_audio_metadata(data)
-- 
2.43.0


From a0beab724d486bab7f1e5b7d07a18f28e24404f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 065/102] fix: PhatDrumLoops and MusicNet read bytes as text

---
 zounds/datasets/musicnet.py      | 2 +-
 zounds/datasets/phatdrumloops.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/datasets/musicnet.py b/zounds/datasets/musicnet.py
index 8235208..0349da2 100644
--- a/zounds/datasets/musicnet.py
+++ b/zounds/datasets/musicnet.py
@@ -29,7 +29,7 @@ class MusicNet(object):
         local_metadata = ensure_local_file(self._metadata, self.path)
 
         metadata = dict()
-        with open(local_metadata, 'rb') as f:
+        with open(local_metadata, 'r') as f:
             reader = csv.DictReader(f)
             for row in reader:
                 metadata[row['id']] = row
diff --git a/zounds/datasets/phatdrumloops.py b/zounds/datasets/phatdrumloops.py
index 80d3285..1e7bbf6 100644
--- a/zounds/datasets/phatdrumloops.py
+++ b/zounds/datasets/phatdrumloops.py
@@ -32,7 +32,7 @@ class PhatDrumLoops(object):
     def __iter__(self):
         resp = requests.get('http://phatdrumloops.com/beats.php')
         pattern = re.compile('href="(?P<uri>/audio/wav/[^\.]+\.wav)"')
-        for m in pattern.finditer(resp.content):
+        for m in pattern.finditer(resp.text):
             url = urllib.parse.urljoin('http://phatdrumloops.com',
                                    m.groupdict()['uri'])
             request = requests.Request(
-- 
2.43.0


From da50acafdecdebf07dee37ba018f4ddbf9f3487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 066/102] fix: metadata of open files could not be stored

---
 zounds/soundfile/audio_metadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/soundfile/audio_metadata.py b/zounds/soundfile/audio_metadata.py
index da143cd..0f366a9 100644
--- a/zounds/soundfile/audio_metadata.py
+++ b/zounds/soundfile/audio_metadata.py
@@ -3,7 +3,6 @@ import os
 from soundfile import SoundFile
 import requests
 import json
-import io
 from urllib.parse import urlparse
 import featureflow as ff
 
@@ -87,7 +86,7 @@ class AudioMetaDataEncoder(Aggregator, Node):
     def _uri(self, uri):
         if isinstance(uri, requests.Request):
             return uri.url
-        elif isinstance(uri, io.BytesIO) or isinstance(uri, ff.ZipWrapper):
+        elif isinstance(uri, ff.ZipWrapper) or MetaData._is_file(uri):
             return None
         else:
             return uri
-- 
2.43.0


From c4c399e3331779dffa1c29cea4020d3b8442bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 067/102] fix: MetaData replaced the range of a request

---
 zounds/soundfile/audio_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/soundfile/audio_metadata.py b/zounds/soundfile/audio_metadata.py
index 0f366a9..c05f797 100644
--- a/zounds/soundfile/audio_metadata.py
+++ b/zounds/soundfile/audio_metadata.py
@@ -133,7 +133,7 @@ class MetaData(Node):
                 headers={'Range': 'bytes=0-'})
             yield AudioMetaData(uri=req)
         elif isinstance(data, requests.Request):
-            if 'range' not in data.headers:
+            if not any(h.lower() == 'range' for h in data.headers):
                 data.headers['range'] = 'bytes=0-'
             yield AudioMetaData(uri=data)
         elif self._is_local_file(data) or self._is_file(data):
-- 
2.43.0


From 3688738e7812cbb34c10994408c421464bcc42f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 068/102] fix: SupervisedTrainer reported training errors as
 test errors

---
 zounds/learn/supervised.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index a5216ff..b77647b 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -115,8 +115,8 @@ class SupervisedTrainer(Trainer):
                 self.on_batch_complete(
                     epoch=epoch,
                     batch=i,
-                    train_error=te,
-                    test_error=e,
+                    train_error=e,
+                    test_error=te,
                     samples=self.samples)
 
             self._current_epoch += 1
-- 
2.43.0


From f0367a18911056f39aab1e936f47c47fb406c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 069/102] fix: networks that run out of memory while being
 applied

---
 zounds/learn/pytorch_model.py | 6 +++---
 zounds/learn/supervised.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/pytorch_model.py b/zounds/learn/pytorch_model.py
index 23040b9..d5c23a4 100644
--- a/zounds/learn/pytorch_model.py
+++ b/zounds/learn/pytorch_model.py
@@ -154,7 +154,7 @@ class PyTorchNetwork(Preprocessor):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(
             network=trained_network, chunk_size=self.trainer.batch_size)
@@ -227,7 +227,7 @@ class PyTorchGan(PyTorchNetwork):
         except RuntimeError as e:
             processed_data = None
             # the dataset may be too large to fit onto the GPU all at once
-            warnings.warn(e.message)
+            warnings.warn(str(e))
 
         op = self.transform(network=network, apply_network=self.apply_network)
         inv_data = self.inversion_data()
@@ -292,7 +292,7 @@ class PyTorchAutoEncoder(PyTorchNetwork):
                 processed_data = forward_func(inp, network=trained_network)
             except RuntimeError as e:
                 processed_data = None
-                warnings.warn(e.message)
+                warnings.warn(str(e))
                 # we've just experienced an out of memory exception.  Cut the
                 # size of the input data in half, so that downstream nodes that
                 # need some data to initialize themselves can do so
diff --git a/zounds/learn/supervised.py b/zounds/learn/supervised.py
index b77647b..bbce468 100644
--- a/zounds/learn/supervised.py
+++ b/zounds/learn/supervised.py
@@ -95,8 +95,8 @@ class SupervisedTrainer(Trainer):
                     inp, output, e = batch(
                         minibatch_data, minibatch_labels, test=False)
                 except RuntimeError as e:
-                    if 'Assert' in e.message:
-                        warnings.warn(e.message)
+                    if 'Assert' in str(e):
+                        warnings.warn(str(e))
                         continue
                     else:
                         raise
-- 
2.43.0


From 85dfa0378932c88690f302463ce773b8295a789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 070/102] fix: trainers ran for one epoch too many

---
 zounds/learn/embedding.py | 2 +-
 zounds/learn/trainer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/embedding.py b/zounds/learn/embedding.py
index e3f44ee..fe56c10 100644
--- a/zounds/learn/embedding.py
+++ b/zounds/learn/embedding.py
@@ -61,7 +61,7 @@ class TripletEmbeddingTrainer(Trainer):
         start = self._current_epoch
         stop = self._current_epoch + self.checkpoint_epochs
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(batches_in_epoch):
diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index fea4b04..a49edef 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -61,7 +61,7 @@ class Trainer(object):
         stop = self._current_epoch + self.checkpoint_epochs
 
         for epoch in range(start, stop):
-            if epoch > self.epochs:
+            if epoch >= self.epochs:
                 break
 
             for batch in range(0, len(data), self.batch_size):
-- 
2.43.0


From 356144b657f0572a812500b6d2f56d2b628314a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 071/102] fix: DctTransform was not the DCT, nor inverted, nor
 followed its axis

---
 zounds/learn/dct_transform.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index 044108c..f0814e8 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -29,6 +29,8 @@ class DctTransform(object):
             return self._basis_cache[n]
         except KeyError:
             basis = torch.from_numpy(dct_basis(n)).float()
+            # the basis is orthonormal, once the constant is scaled
+            basis[0] *= 0.5 ** 0.5
             if self.use_cuda:
                 basis = basis.cuda()
             self._basis_cache[n] = basis
@@ -48,22 +50,23 @@ class DctTransform(object):
         n = torch.FloatTensor(1)
         n[:] = 2. / x.shape[axis]
         n = self._variable(n)
+        x = x.transpose(axis, -1)
         coeffs = torch.matmul(x, basis) * torch.sqrt(n)
-        return coeffs
+        return coeffs.transpose(axis, -1)
 
     def dct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
-        return self._base_dct_transform(x, basis, axis)
+        return self._base_dct_transform(x, basis.t(), axis)
 
     def idct(self, x, axis=-1):
         basis = self._variable(self.dct_basis(x.shape[axis]))
-        return self._base_dct_transform(x, basis.t(), axis)
+        return self._base_dct_transform(x, basis, axis)
 
     def dct_resample(self, x, factor, axis=-1, zero_slice=None):
         # figure out how many samples our resampled signal will have
         n_samples = int(factor * x.shape[axis])
 
-        coeffs = self.dct(x)
+        coeffs = self.dct(x, axis=axis)
 
         # create the shape of our new coefficients
         new_coeffs_shape = list(coeffs.shape)
@@ -88,7 +91,7 @@ class DctTransform(object):
             slce = tuple(slce)
             new_coeffs[slce] = 0
 
-        return self.idct(new_coeffs)
+        return self.idct(new_coeffs, axis=axis)
 
     def frequency_decomposition(self, x, factors, axis=-1):
 
@@ -111,7 +114,7 @@ class DctTransform(object):
 
             new_coeffs[slce] = coeffs[slce]
 
-            resampled = self.idct(new_coeffs)
+            resampled = self.idct(new_coeffs, axis=axis)
             bands.append(resampled)
 
         return bands
-- 
2.43.0


From 42f8a349a5ff885db993c5ad653747cfb0829954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 072/102] fix: short_time_dct mixed up time and frequency, and
 windows

---
 zounds/learn/dct_transform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/dct_transform.py b/zounds/learn/dct_transform.py
index f0814e8..70392db 100644
--- a/zounds/learn/dct_transform.py
+++ b/zounds/learn/dct_transform.py
@@ -38,12 +38,12 @@ class DctTransform(object):
 
     def window(self, n, window):
         try:
-            return self._window_cache[n]
+            return self._window_cache[(n, window)]
         except KeyError:
             data = torch.from_numpy(window._wdata(n)).float()
             if self.use_cuda:
                 data = data.cuda()
-            self._window_cache[n] = data
+            self._window_cache[(n, window)] = data
             return data
 
     def _base_dct_transform(self, x, basis, axis=-1):
@@ -111,6 +111,7 @@ class DctTransform(object):
 
             slce = [slice(None)] * x.dim()
             slce[axis] = slice(start_index, stop_index)
+            slce = tuple(slce)
 
             new_coeffs[slce] = coeffs[slce]
 
@@ -125,5 +126,5 @@ class DctTransform(object):
         window = self._variable(self.window(x.shape[-1], window))
         x = x * window
         x = self.dct(x, axis=-1)
-        x = x.view((original_shape[0], size, x.shape[2]))
+        x = x.reshape((original_shape[0], -1, size)).transpose(1, 2)
         return x
-- 
2.43.0


From bc6a256dc37a3dd79b2ef8281f0eba6b9a092b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:22 +0000
Subject: [PATCH 073/102] fix: model_hash and gradients always raised

---
 zounds/learn/util.py | 4 ++--
 zounds/learn/wgan.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c653614..c883403 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -54,7 +54,7 @@ def trainable_parameters(model):
 
 def model_hash(model):
     h = hashlib.md5()
-    h.update(str(model))
+    h.update(str(model).encode())
     for p in model.parameters():
         h.update(p.data.cpu().numpy())
     return h.hexdigest()
@@ -65,7 +65,7 @@ def gradients(network):
         g = p.grad
         if g is None:
             continue
-        yield n, g.min().data[0], g.max().data[0], g.mean().data[0]
+        yield n, g.min().item(), g.max().item(), g.mean().item()
 
 
 def to_var(x, volatile=False):
diff --git a/zounds/learn/wgan.py b/zounds/learn/wgan.py
index 97df186..0793919 100644
--- a/zounds/learn/wgan.py
+++ b/zounds/learn/wgan.py
@@ -121,7 +121,7 @@ class WassersteinGanTrainer(Trainer):
         for n, p in network.named_parameters():
             g = p.grad
             if g is not None:
-                print((n, g.min().data[0], g.max().data[0], g.mean().data[0]))
+                print((n, g.min().item(), g.max().item(), g.mean().item()))
 
     def zero_generator_gradients(self):
         self._debug_network_gradient(self.generator)
-- 
2.43.0


From f7e116ac00445431dbeb1a38a4170961fb16ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 074/102] fix: sample_norm of two-dimensional feature maps

---
 zounds/learn/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/util.py b/zounds/learn/util.py
index c883403..8cf49a2 100644
--- a/zounds/learn/util.py
+++ b/zounds/learn/util.py
@@ -118,12 +118,12 @@ def sample_norm(x):
     # square
     x = x ** 2
     # feature-map-wise sum
-    x = torch.sum(x, dim=1)
+    x = torch.sum(x, dim=1, keepdim=True)
     # scale by number of feature maps
     x *= 1.0 / original.shape[1]
     x += 10e-8
     x = torch.sqrt(x)
-    return original / x.view(-1, 1, x.shape[-1])
+    return original / x
 
 
 def batchwise_unit_norm(x, epsilon=1e-8):
-- 
2.43.0


From 0f1fe99ff5452c6621a70ca98794ea1d80e73ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 075/102] fix: RawSampleEmbedding always raised, and mixed up
 time and channels

---
 zounds/learn/sample_embedding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zounds/learn/sample_embedding.py b/zounds/learn/sample_embedding.py
index 7f76677..49c1791 100644
--- a/zounds/learn/sample_embedding.py
+++ b/zounds/learn/sample_embedding.py
@@ -26,19 +26,19 @@ class RawSampleEmbedding(nn.Module):
 
     def _mu_law(self, x):
         m = self._variable(torch.FloatTensor(1))
-        m[:] = self.n_categories + 1
+        m[:] = self.n_categories
         s = torch.sign(x)
         x = torch.abs(x)
-        x = s * (torch.log(1 + (self.n_categories * x)) / torch.log(m))
+        x = s * (torch.log(1 + ((self.n_categories - 1) * x)) / torch.log(m))
         return x
 
     def _shift_and_scale(self, x):
         x = x + 1
-        x = x * ((self.n_categories + 1) / 2.)
+        x = x * ((self.n_categories - 1) / 2.)
         return x
 
     def _one_hot(self, x):
-        y = self._variable(torch.arange(0, self.n_categories + 1))
+        y = self._variable(torch.arange(0, self.n_categories))
         x = -(((x[..., None] - y) ** 2) * 1e12)
         x = F.softmax(x, dim=-1)
         return x
@@ -63,5 +63,5 @@ class RawSampleEmbedding(nn.Module):
         # place all embeddings on the unit sphere
         norms = torch.norm(x, dim=-1)
         x = x / norms.view(-1, 1)
-        x = x.view(-1, self.embedding_dim, sample_size)
+        x = x.view(-1, sample_size, self.embedding_dim).transpose(1, 2)
         return x
-- 
2.43.0


From 9d4bdb31553a2c889171dc0aab8a130b891c105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 076/102] fix: the filters of SincLayer were not those of the
 scale's bands

---
 zounds/learn/sinclayer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/sinclayer.py b/zounds/learn/sinclayer.py
index 28017d3..9a3d243 100644
--- a/zounds/learn/sinclayer.py
+++ b/zounds/learn/sinclayer.py
@@ -52,8 +52,9 @@ class SincLayer(nn.Module):
             torch.hamming_window(self.taps), requires_grad=False)
 
         for i, band in enumerate(scale):
-            start = self.samplerate / band.start_hz
-            stop = self.samplerate / band.stop_hz
+            # cycles per filter length
+            start = band.start_hz * (taps - 1) / self.samplerate
+            stop = band.stop_hz * (taps - 1) / self.samplerate
             filter_parameters[i, 0] = start
             filter_parameters[i, 1] = stop
 
@@ -61,7 +62,7 @@ class SincLayer(nn.Module):
 
     def _sinc(self, frequency):
         x = self.linear[None, :] * frequency[:, None]
-        return torch.sin(x) / x
+        return torch.sinc(x / math.pi)
 
     def _start_frequencies(self):
         return torch.abs(self.filter_parameters[:, 0])
-- 
2.43.0


From 1a511f2843960f0a7ba13d636a6b201711249514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 077/102] fix: FilterBank.transform of a single band or frame

---
 zounds/learn/spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/spectral.py b/zounds/learn/spectral.py
index 2d08dbf..7d54154 100644
--- a/zounds/learn/spectral.py
+++ b/zounds/learn/spectral.py
@@ -97,7 +97,7 @@ class FilterBank(nn.Module):
 
         # convert back to an ArrayWithUnits instance
         samplerate = samples.samplerate
-        time_frequency = pooled.data.cpu().numpy().squeeze().T
+        time_frequency = pooled.data.cpu().numpy()[0].T
         time_frequency = ArrayWithUnits(time_frequency, [
             TimeDimension(
                 frequency=samplerate.frequency * pooling_stride,
-- 
2.43.0


From fec722b5a040761559369e0c74ba8460b6ab4921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:44 +0000
Subject: [PATCH 078/102] fix: versions of pipelines with networks and models
 were their addresses

---
 zounds/learn/preprocess.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 0d92a92..39d49b2 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -1,10 +1,12 @@
 from featureflow import Node, NotEnoughData
 import marshal
+import pickle
 import types
 from collections import OrderedDict
 import hashlib
 import numpy as np
 from .functional import hyperplanes
+from .util import model_hash
 from zounds.loudness import log_modulus, inverse_log_modulus
 
 
@@ -33,9 +35,18 @@ class Op(object):
             try:
                 h.update(v.version.encode())
             except AttributeError:
-                h.update(np.array(v, order='C'))
+                h.update(self._value_bytes(v))
         return h.hexdigest()
 
+    def _value_bytes(self, v):
+        if hasattr(v, 'state_dict'):
+            return model_hash(v).encode()
+        data = np.array(v, order='C')
+        if data.dtype != object:
+            return data
+        # the bytes of an array of objects are only their addresses
+        return pickle.dumps(v)
+
     def __getattr__(self, key):
         if key == '_kwargs':
             raise AttributeError()
-- 
2.43.0


From 95fa1ec97dbf295f696ac032dd3a38344592baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 079/102] fix: pipelines that learn from a stream couldn't be
 processed

---
 zounds/learn/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/learn/graph.py b/zounds/learn/graph.py
index b554cde..a298d63 100644
--- a/zounds/learn/graph.py
+++ b/zounds/learn/graph.py
@@ -52,7 +52,7 @@ def infinite_streaming_learning_pipeline(cls):
 
             raise RuntimeError('There is no network in the pipeline')
 
-    root.needs = InfiniteLearningPipeline.dataset
+    root.needs = dict(dataset=InfiniteLearningPipeline.dataset)
     InfiniteLearningPipeline.__name__ = cls.__name__
     InfiniteLearningPipeline.__module__ = cls.__module__
 
-- 
2.43.0


From 6ee8ae4a15c180d614d5b1e9ae6642b8d5e07779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:53 +0000
Subject: [PATCH 080/102] fix: samples drawn from several threads at once could
 be lost

---
 zounds/learn/random_samples.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index b2e111b..645eb69 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -3,6 +3,7 @@ from zounds.core import ArrayWithUnits, IdentityDimension
 import numpy as np
 from multiprocessing.pool import ThreadPool
 from os import cpu_count
+from threading import Lock
 
 
 class Reservoir(object):
@@ -159,6 +160,7 @@ class InfiniteSampler(Node):
         self.parallel = parallel
         self.feature_filter = feature_filter
         self.multiplexed = multiplexed
+        self._lock = Lock()
         self.reservoir = MultiplexedReservoir(nsamples, dtype=dtype) \
             if multiplexed else Reservoir(nsamples, dtype=dtype)
 
@@ -200,7 +202,11 @@ class InfiniteSampler(Node):
         # duration of the sound
         indices = np.random.randint(0, feature_size, nsamples)
 
-        self.reservoir.add(x[indices, ...])
+        samples = x[indices, ...]
+
+        # samples may be contributed from several threads at once
+        with self._lock:
+            self.reservoir.add(samples)
         return len(indices)
 
     def _process(self, data):
-- 
2.43.0


From d4f751af9715b98e058d2c5acb071fa709e1ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 081/102] fix: callbacks added or removed during a batch
 interrupted training

---
 zounds/learn/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index a49edef..7542be3 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -84,5 +84,6 @@ class Trainer(object):
             pass
 
     def on_batch_complete(self, *args, **kwargs):
-        for callback in self._batch_complete_callbacks.values():
+        # callbacks may be added and removed meanwhile
+        for callback in list(self._batch_complete_callbacks.values()):
             callback(*args, **kwargs)
-- 
2.43.0


From 0451a5f0c9ae707e2737d567d99459c9f0cc1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:39 +0000
Subject: [PATCH 082/102] fix: a browser that stopped watching could interrupt
 training

---
 zounds/ui/training_monitor.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4327c55..4457c9c 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -1,6 +1,7 @@
 from io import BytesIO
 
 from .api import ZoundsApp
+import tornado.ioloop
 import tornado.websocket
 import tornado.web
 import json
@@ -92,11 +93,21 @@ class TrainingMonitorApp(ZoundsApp):
                         except KeyError:
                             # there's no data to report for this key
                             pass
-                    self.write_message(json.dumps(data))
+                    # training usually happens in another thread, but only the
+                    # thread that runs the server may use its connections
+                    self.ioloop.add_callback(self._write, json.dumps(data))
 
                 return x
 
+            def _write(self, message):
+                try:
+                    self.write_message(message)
+                except tornado.websocket.WebSocketClosedError:
+                    # nobody is listening any longer
+                    pass
+
             def open(self):
+                self.ioloop = tornado.ioloop.IOLoop.current()
                 self.func = self._send_message()
                 app.trainer \
                     .register_batch_complete_callback(self.func)
-- 
2.43.0


From 54635a9d531c8512a49360a9e2a5c14e9aac843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:20 +0000
Subject: [PATCH 083/102] fix: streams of mu-law and a-law audio couldn't be
 decoded

---
 zounds/soundfile/byte_depth.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/soundfile/byte_depth.py b/zounds/soundfile/byte_depth.py
index f6f784e..550f4b8 100644
--- a/zounds/soundfile/byte_depth.py
+++ b/zounds/soundfile/byte_depth.py
@@ -6,6 +6,8 @@ _lookup = {
     'IMA_ADPCM': 1,
     'PCM_S8': 1,
     'PCM_U8': 1,
+    'ULAW': 1,
+    'ALAW': 1,
     'PCM_16': 2,
     'PCM_24': 3,
     'PCM_32': 4,
-- 
2.43.0


From 0045d71d8fdaf699ad3946db82df7c8767e0713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 084/102] fix: an application couldn't be stopped right after
 it was started

---
 zounds/ui/baseapp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/baseapp.py b/zounds/ui/baseapp.py
index fb33f33..8d7d738 100644
--- a/zounds/ui/baseapp.py
+++ b/zounds/ui/baseapp.py
@@ -78,6 +78,7 @@ class BaseZoundsApp(object):
         self._html_content = self._get_html(html)
         self.server = None
         self.thread = None
+        self.listening = threading.Event()
 
     SCRIPT_TAG = re.compile('<script\s+src="/(?P<filename>[^"]+)"></script>')
 
@@ -247,6 +248,8 @@ class BaseZoundsApp(object):
         self.thread = threading.Thread(target=self._start, args=(port,))
         self.thread.daemon = True
         self.thread.start()
+        # the server can only be stopped once there is one
+        self.listening.wait()
         print('Interactive REPL at http://localhost:{port}'.format(port=port))
         return self
 
@@ -261,8 +264,11 @@ class BaseZoundsApp(object):
 
     def _start(self, port):
         asyncio.set_event_loop(asyncio.new_event_loop())
-        app = self._make_app()
-        self.server = app.listen(port)
+        try:
+            app = self._make_app()
+            self.server = app.listen(port)
+        finally:
+            self.listening.set()
         tornado.ioloop.IOLoop.instance().start()
 
     def start(self, port=8888):
-- 
2.43.0


From 168d6430e1df1ce4874d8c7b5b5daa822faa3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:49 +0000
Subject: [PATCH 085/102] fix: training monitors referred to features at
 addresses that don't exist

---
 zounds/ui/training_monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zounds/ui/training_monitor.py b/zounds/ui/training_monitor.py
index 4457c9c..46a1d01 100644
--- a/zounds/ui/training_monitor.py
+++ b/zounds/ui/training_monitor.py
@@ -153,7 +153,7 @@ class SupervisedTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -184,7 +184,7 @@ class GanTrainingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
@@ -215,7 +215,7 @@ class TripletEmbeddingMonitorApp(TrainingMonitorApp):
             n_training_points=100,
             epoch_key='epoch',
             batch_key='batch',
-            base_path=r'/zounds',
+            base_path=r'/zounds/',
             model=None,
             visualization_feature=None,
             audio_feature=None,
-- 
2.43.0


From e40a45bf21ae46d2fcc537e6dc1f1c3095d17cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:19 +0000
Subject: [PATCH 086/102] fix: axes that change places take their dimensions
 along

arr.transpose(1, 0), np.swapaxes() and np.moveaxis() left the dimensions in
their original order.
---
 zounds/core/axis.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index e99fbb2..10ad254 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -73,6 +73,19 @@ class ArrayWithUnits(np.ndarray):
         arr = super(ArrayWithUnits, self).T
         return ArrayWithUnits(arr, self.dimensions[::-1])
 
+    def transpose(self, *axes):
+        result = super(ArrayWithUnits, self).transpose(*axes)
+        order = axes[0] if len(axes) == 1 else axes
+        if order is None or not axes:
+            order = range(self.ndim)[::-1]
+        return ArrayWithUnits(
+            result, [self.dimensions[axis] for axis in tuplify(order)])
+
+    def swapaxes(self, axis1, axis2):
+        axes = list(range(self.ndim))
+        axes[axis1], axes[axis2] = axes[axis2], axes[axis1]
+        return self.transpose(axes)
+
     def kwargs(self):
         return self.__dict__
 
-- 
2.43.0


From 0907603463c2bbee07b6b02d402af2b6ccb1cb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 087/102] fix: arrays that numpy makes of another shape don't
 inherit dimensions

Flattening, argmax(), diagonal() or broadcasting left the dimensions of the
original array on axes they don't describe.
---
 zounds/core/axis.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 10ad254..e0304b6 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -189,7 +189,16 @@ class ArrayWithUnits(np.ndarray):
     def __array_finalize__(self, obj):
         if obj is None:
             return
-        self.dimensions = getattr(obj, 'dimensions', None)
+        dims = getattr(obj, 'dimensions', None)
+        if dims is not None and self.shape != obj.shape:
+            # numpy made an array of another shape out of obj, e.g. by
+            # flattening, repeating or broadcasting it
+            same = self.ndim == len(dims) == len(obj.shape)
+            dims = tuple(
+                dims[i] if same and size == obj.shape[i]
+                else IdentityDimension()
+                for i, size in enumerate(self.shape))
+        self.dimensions = dims
 
     def __array_wrap__(self, obj, context=None):
         if len(self.dimensions) != obj.ndim:
-- 
2.43.0


From aa34b9d69223e53fd0d2263b2ba7737d9bb62435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:48 +0000
Subject: [PATCH 088/102] fix: the first sample of a late time slice is found
 exactly

The quotient of two durations is a float, which is rounded up to the next
sample when a slice starts just before it, hours into a time series.
---
 zounds/timeseries/timeseries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index 4d2f375..901bba9 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -257,8 +257,7 @@ class TimeDimension(Dimension):
             return ts
 
         diff = self.duration - self.frequency
-        start_index = \
-            max(0, np.floor((ts.start - diff) / self.frequency))
+        start_index = max(0, (ts.start - diff) // self.frequency)
         end = self.end if ts.duration is None else ts.end
 
 
-- 
2.43.0


From a8f425343a84feaf4c628fec74bdb523ad4af827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:03 +0000
Subject: [PATCH 089/102] fix: selecting no or descending bands of a frequency
 axis is not an error

arr[:, ::-1] or a band that no coefficient touches raised ValueError, as there
is no such scale.  These axes have no units.
---
 zounds/spectral/tfrepresentation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index d80379f..327a53c 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -49,6 +49,10 @@ class FrequencyDimension(Dimension):
         raise NotImplementedError()
 
     def metaslice(self, index, size):
+        step = getattr(index, 'step', None)
+        if size == 0 or (size > 1 and isinstance(step, int) and step < 0):
+            # there's no scale without bands, or with descending ones
+            return IdentityDimension()
         return FrequencyDimension(self.scale[index])
 
     def integer_based_slice(self, index):
-- 
2.43.0


From 8cd0516d64c0ea8a558ba5e9b351b53fab77fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:18 +0000
Subject: [PATCH 090/102] fix: several arrays in an index, and masks of several
 axes

numpy broadcasts index arrays and the integers next to them against each
other, and puts the resulting axes first if they are not adjacent.
---
 zounds/core/axis.py | 63 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index e0304b6..5c7ac83 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -10,6 +10,22 @@ def _is_integer(x):
            and not isinstance(x, np.timedelta64)
 
 
+def _is_array(x):
+    return isinstance(x, (list, np.ndarray))
+
+
+def _axes_used(x):
+    """
+    The number of axes of an array that one element of an index applies to
+    """
+    if x is None or x is Ellipsis:
+        return 0
+    if _is_array(x):
+        x = np.asarray(x)
+        return x.ndim if x.dtype == bool else 1
+    return 1
+
+
 class CustomSlice(object):
     def __init__(self):
         super(CustomSlice, self).__init__()
@@ -274,17 +290,16 @@ class ArrayWithUnits(np.ndarray):
 
     def _compute_indices(self, index):
         dims_pos = 0
-        not_ellipsis_or_none = len(
-            [x for x in index if x is not Ellipsis and x is not None])
+        not_ellipsis_or_none = sum(_axes_used(x) for x in index)
         for sl in index:
             if sl is None:
                 # additional dimension via np.newaxis
                 yield sl
             elif _is_integer(sl) \
                     or self._is_integer_based_slice(sl) \
-                    or isinstance(sl, (list, np.ndarray)):
-                # burn one
-                dims_pos += 1
+                    or _is_array(sl):
+                # burn one, or several for a boolean mask
+                dims_pos += _axes_used(sl)
                 yield sl
             elif sl is Ellipsis:
                 dims_pos += len(self.dimensions) - not_ellipsis_or_none
@@ -294,22 +309,46 @@ class ArrayWithUnits(np.ndarray):
                 yield dim.integer_based_slice(sl)
                 dims_pos += 1
 
+    def _advanced_dims(self, index):
+        """
+        When there are arrays in an index, numpy broadcasts them (and any
+        integers) against each other.  The resulting axes take their place if
+        they're all next to each other, and otherwise come first
+
+        Returns:
+            the positions of those arrays and integers, whether their axes come
+            first, and the dimensions of those axes
+        """
+        arrays = [np.asarray(x) for x in index if _is_array(x)]
+        if not arrays:
+            return [], False, []
+        positions = [
+            i for i, x in enumerate(index) if _is_array(x) or _is_integer(x)]
+        first = positions[-1] - positions[0] >= len(positions)
+        n_dims = max(1 if x.dtype == bool else x.ndim for x in arrays)
+        return positions, first, [IdentityDimension() for _ in range(n_dims)]
+
     def _new_dims(self, index, new_arr):
         dims_pos = 0
         shape_pos = 0
-        not_ellipsis_or_none = len([x for x in index if x is not Ellipsis and x is not None])
-        for sl in index:
-            if sl is None:
+        not_ellipsis_or_none = sum(_axes_used(x) for x in index)
+        advanced, advanced_first, advanced_dims = self._advanced_dims(index)
+        if advanced_first:
+            shape_pos += len(advanced_dims)
+            yield from advanced_dims
+        for i, sl in enumerate(index):
+            if i in advanced:
+                dims_pos += _axes_used(sl)
+                if i == advanced[0] and not advanced_first:
+                    shape_pos += len(advanced_dims)
+                    yield from advanced_dims
+            elif sl is None:
                 # additional dimension via np.newaxis
                 shape_pos += 1
                 yield IdentityDimension()
             elif _is_integer(sl):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, (list, np.ndarray)):
-                dims_pos += 1
-                shape_pos += 1
-                yield IdentityDimension()
             elif sl is Ellipsis:
                 ellipsis_size = len(self.dimensions) - not_ellipsis_or_none
                 for i in range(ellipsis_size):
-- 
2.43.0


From 76e348d239b86f5104050336c3c71106bcd00ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:24 +0000
Subject: [PATCH 091/102] fix: filter banks may have a band that starts at zero

firwin2 refuses frequencies that begin with zero twice.
---
 zounds/spectral/functional.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index 3429481..b3a3313 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -289,8 +289,11 @@ def fir_filter_bank(scale, taps, samplerate, window):
         stop_hz = min(nyq, band.stop_hz)
         freqs = np.linspace(
             start_hz / nyq, stop_hz / nyq, len(win), endpoint=False)
-        freqs = [0] + list(freqs) + [1]
-        gains = [0] + list(win) + [0]
+        freqs = list(freqs) + [1]
+        gains = list(win) + [0]
+        if start_hz > 0:
+            freqs = [0] + freqs
+            gains = [0] + gains
         basis[i] = firwin2(taps, freqs, gains)
 
     return basis
-- 
2.43.0


From 5ffa0a76469f52aed95e3ee45a3b77c11514c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:08 +0000
Subject: [PATCH 092/102] fix: streams of more than ten megabytes lose no audio

MemoryBuffer drops what has been read of long streams, but kept counting
positions from the start of what it still held. libsndfile seeks to
absolute positions after every read, so from then on whatever had not
been read yet was skipped.
---
 zounds/soundfile/audiostream.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 181fdfd..5963542 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_END, SEEK_SET
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -138,6 +138,9 @@ class MemoryBuffer(object):
         self._max_size = max_size
         self.tell = self._tell
 
+        # the number of bytes that were read and are no longer kept
+        self._discarded = 0
+
         self._total_bytes_written = 0
         self._total_bytes_read = 0
 
@@ -159,6 +162,7 @@ class MemoryBuffer(object):
             new_buf = BytesIO()
             new_buf.write(self._buf.read())
             self._buf = new_buf
+            self._discarded += read_pos
             read_pos = 0
         self._buf.seek(0, 2)
         self._buf.write(data)
@@ -166,7 +170,7 @@ class MemoryBuffer(object):
         return len(data)
 
     def _tell(self):
-        return self._buf.tell()
+        return self._discarded + self._buf.tell()
 
     def _tell_end(self):
         self.tell = self._tell
@@ -177,6 +181,9 @@ class MemoryBuffer(object):
             # KLUDGE: PySoundfile no longer supports __len__, which means that
             # this stateful garbage is required.
             self.tell = self._tell_end
+        elif whence == SEEK_SET:
+            # positions are counted from the start of the whole stream
+            offset = max(0, offset - self._discarded)
         self._buf.seek(offset, whence)
 
     def flush(self):
-- 
2.43.0


From a6f69d0194bf0e05e810f2970130d92533234c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:44 +0000
Subject: [PATCH 093/102] fix: methods can be unregistered from a trainer

Callbacks were told apart by their id, but looking up a method makes a
new object every time. Methods that were unregistered were still called,
and those registered twice were called twice.
---
 zounds/learn/trainer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/learn/trainer.py b/zounds/learn/trainer.py
index 7542be3..81491c8 100644
--- a/zounds/learn/trainer.py
+++ b/zounds/learn/trainer.py
@@ -74,11 +74,12 @@ class Trainer(object):
         return self.network
 
     def register_batch_complete_callback(self, callback):
-        self._batch_complete_callbacks[id(callback)] = callback
+        # methods are different objects whenever they're looked up, but equal
+        self._batch_complete_callbacks[callback] = callback
 
     def unregister_batch_complete_callback(self, callback):
         try:
-            del self._batch_complete_callbacks[id(callback)]
+            del self._batch_complete_callbacks[callback]
         except KeyError:
             # the callback was never registered
             pass
-- 
2.43.0


From 0cd99b51d6576fcafae1a996d8f7af8266564621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:11 +0000
Subject: [PATCH 094/102] fix: files of the internet archive may have any name

---
 zounds/datasets/internetarchive.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zounds/datasets/internetarchive.py b/zounds/datasets/internetarchive.py
index c5b1312..4e24a01 100644
--- a/zounds/datasets/internetarchive.py
+++ b/zounds/datasets/internetarchive.py
@@ -1,3 +1,4 @@
+import re
 import requests
 import urllib.parse
 from zounds.soundfile.audio_metadata import AudioMetaData
@@ -58,8 +59,13 @@ class InternetArchive(object):
 
         for k, v in all_files.items():
             if self.format_filter(v):
+                # these characters are part of the file's name, but would
+                # mean something else in a url
+                path = re.sub(
+                    '[%?#]', lambda m: urllib.parse.quote(m.group()), k)
                 sound_url = urllib.parse.urljoin(
-                    base_url, '/download/{archive_id}{k}'.format(**locals()))
+                    base_url,
+                    '/download/{archive_id}{path}'.format(**locals()))
                 request = requests.Request(method='GET', url=sound_url)
                 metadata = self._get_metadata(v, all_files)
                 metadata.update(self.attrs)
-- 
2.43.0


From 81c6e9bf5a210fbe832d4f1e0c2bda2b5e6ff54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:08 +0000
Subject: [PATCH 095/102] fix: time_stretch skipped a frame when a time step
 was just below a power of two

---
 zounds/spectral/functional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index b3a3313..b781707 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -134,7 +134,8 @@ def time_stretch(x, factor, frame_sample_rate=None):
     # we need a phase accumulator for every item in the batch
     phase_accum = coeffs_phases[:, :1, :]
 
-    sliding_indices = np.vstack([time_steps, time_steps + 1]).T.astype(np.int32)
+    first_indices = time_steps.astype(np.int32)
+    sliding_indices = np.vstack([first_indices, first_indices + 1]).T
 
     windowed_mags = coeffs_mags[:, sliding_indices, :]
     windowed_phases = coeffs_phases[:, sliding_indices, :]
-- 
2.43.0


From 972a6cb1a6ecc085d8db12813a01a0c898cfc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:25 +0000
Subject: [PATCH 096/102] fix: a single channel with an axis of its own could
 not be padded or made stereo

---
 zounds/timeseries/audiosamples.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 836b567..67b8d75 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -96,6 +96,8 @@ class AudioSamples(ArrayWithUnits):
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
             self.samplerate, silence_duration, self.dtype, self.channels)
+        # a single channel may have an axis of its own
+        silence = silence.reshape((-1,) + self.shape[1:])
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
@@ -159,7 +161,9 @@ class AudioSamples(ArrayWithUnits):
     def stereo(self):
         if self.channels == 2:
             return self
-        return AudioSamples(np.vstack([self, self]).T, self.samplerate)
+        if self.ndim == 1:
+            return AudioSamples(np.vstack([self, self]).T, self.samplerate)
+        return AudioSamples(np.hstack([self, self]), self.samplerate)
 
     def __getitem__(self, item):
         sliced = super(AudioSamples, self).__getitem__(item)
-- 
2.43.0


From 15b7741f11c27310a511e4b27d12d6d94d22d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:47 +0000
Subject: [PATCH 097/102] fix: weightings of frequency-adaptive representations
 ignored which axis the bands are on

---
 zounds/spectral/tfrepresentation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 327a53c..2a502da 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -115,7 +115,9 @@ class ExplicitFrequencyDimension(Dimension):
         w = np.zeros(self.slices[-1].stop - self.slices[0].start)
         for weight, sl in zip(weights, self.slices):
             w[sl] = weight
-        return w
+        shape = [1] * arr.ndim
+        shape[i] = w.size
+        return w.reshape(shape)
 
     def modified_dimension(self, size, windowsize, stepsize=None):
         raise NotImplementedError()
-- 
2.43.0


From 260470ec994a3e06303f21c6d8fe1f8e1d5fd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:34 +0000
Subject: [PATCH 098/102] fix: endless sampling failed when a document had no
 samples, or none that the filter keeps

---
 zounds/learn/random_samples.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zounds/learn/random_samples.py b/zounds/learn/random_samples.py
index 645eb69..3ce4157 100644
--- a/zounds/learn/random_samples.py
+++ b/zounds/learn/random_samples.py
@@ -188,6 +188,9 @@ class InfiniteSampler(Node):
         # compute the contribution this sample makes to the dataset at
         # large
         feature_size = len(x)
+        if feature_size == 0:
+            # there's nothing to draw from
+            return 0
         ratio = float(feature_size) / total_samples
 
         # determine the appropriate number of samples to contribute to
-- 
2.43.0


From af0beeeef3d20202b5b139970e2065f8cb8051cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:58 +0000
Subject: [PATCH 099/102] fix: arrays with units couldn't be reshaped to a
 single size, or to sizes given one by one

---
 zounds/core/axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 5c7ac83..b304650 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -111,7 +111,9 @@ class ArrayWithUnits(np.ndarray):
         else:
             raise ValueError('All dimensions must match to concatenate')
 
-    def reshape(self, shape, order='C'):
+    def reshape(self, *shape, order='C'):
+        # sizes can be given one by one, or as a single tuple (or integer)
+        shape = tuplify(shape[0]) if len(shape) == 1 else shape
         non_one = lambda x: abs(x) != 1
 
         if tuple(shape) == tuple(filter(non_one, self.shape)):
-- 
2.43.0


From e587faebdfbddcd6626cb5e44fe2d8d53b49ccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:18 +0000
Subject: [PATCH 100/102] fix: arrays with units couldn't be squeezed along
 given axes, or have the maximum of selected elements taken

---
 zounds/core/axis.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index b304650..ffd96fe 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -135,11 +135,15 @@ class ArrayWithUnits(np.ndarray):
             np.reshape(raw, shape, order),
             [IdentityDimension() for _ in shape])
 
-    def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
+    def squeeze(self, axis=None):
+        result = np.asarray(self).squeeze(axis)
+        if axis is None:
+            gone = [i for i, size in enumerate(self.shape) if size == 1]
+        else:
+            gone = [a % self.ndim for a in tuplify(axis)]
         return ArrayWithUnits(
-            super().reshape([s for s, _ in zipped]),
-            [d for _, d in zipped])
+            result,
+            [d for i, d in enumerate(self.dimensions) if i not in gone])
 
     @classmethod
     def concat(cls, arrs, axis=0):
@@ -187,9 +191,9 @@ class ArrayWithUnits(np.ndarray):
             axis, dtype, keepdims=keepdims, **kwargs)
         return self._apply_reduction_to_dimensions(result, axis, keepdims)
 
-    def max(self, axis=None, out=None, keepdims=False):
+    def max(self, axis=None, out=None, keepdims=False, **kwargs):
         result = super(ArrayWithUnits, self).max(
-            axis=axis, out=out, keepdims=keepdims)
+            axis=axis, out=out, keepdims=keepdims, **kwargs)
         return self._apply_reduction_to_dimensions(result, axis, keepdims)
 
     def dot(self, b):
-- 
2.43.0


From 507d104b46e99fb47b772c6d80d0de3e85610eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:03 +0000
Subject: [PATCH 101/102] fix: repeating the elements of an array with units
 along an axis kept the dimension of the shorter axis

---
 zounds/core/axis.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index ffd96fe..97f3722 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -212,12 +212,18 @@ class ArrayWithUnits(np.ndarray):
         if obj is None:
             return
         dims = getattr(obj, 'dimensions', None)
-        if dims is not None and self.shape != obj.shape:
+        if dims is not None:
+            # what the dimensions are for, since numpy changes the shape of obj
+            # itself for a moment when it repeats elements
+            shape = tuple(
+                getattr(dim, 'size', size)
+                for dim, size in zip(dims, obj.shape))
+        if dims is not None and self.shape != shape:
             # numpy made an array of another shape out of obj, e.g. by
             # flattening, repeating or broadcasting it
             same = self.ndim == len(dims) == len(obj.shape)
             dims = tuple(
-                dims[i] if same and size == obj.shape[i]
+                dims[i] if same and size == shape[i]
                 else IdentityDimension()
                 for i, size in enumerate(self.shape))
         self.dimensions = dims
-- 
2.43.0


From fa0bdf68dcbcdd149f1a948e3b83311697124cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:49 +0000
Subject: [PATCH 102/102] fix: an index couldn't follow a log that's still
 empty

---
 zounds/index/index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/index/index.py b/zounds/index/index.py
index d856c2d..c0e3c08 100644
--- a/zounds/index/index.py
+++ b/zounds/index/index.py
@@ -166,7 +166,7 @@ class HammingIndex(object):
         else:
             last_timestamp = b''
 
-        if not self.event_log:
+        if self.event_log is None:
             raise ValueError(
                 '{self.document} must have an event log configured'
                     .format(**locals()))
-- 
2.43.0

