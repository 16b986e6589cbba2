From 1f1c4a42bff92047fc83511cc9dafa061f01d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:09 +0000
Subject: [PATCH 01/33] fix: SignalInverter and SignalReverser no longer modify
 the caller's tensor

---
 ml4gw/augmentations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml4gw/augmentations.py b/ml4gw/augmentations.py
index e11f7d0..60bc6a6 100644
--- a/ml4gw/augmentations.py
+++ b/ml4gw/augmentations.py
@@ -27,6 +27,7 @@ class SignalInverter(torch.nn.Module):
         self, X: Float[Tensor, "*batch time"]
     ) -> Float[Tensor, "*batch time"]:
         mask = torch.rand(size=X.shape[:-1]) < self.prob
+        X = X.clone()
         X[mask] *= -1
         return X
 
@@ -50,5 +51,6 @@ class SignalReverser(torch.nn.Module):
         self, X: Float[Tensor, "*batch time"]
     ) -> Float[Tensor, "*batch time"]:
         mask = torch.rand(size=X.shape[:-1]) < self.prob
+        X = X.clone()
         X[mask] = X[mask].flip(-1)
         return X
-- 
2.43.0


From 25f5a8488b7e8bb85ebc84f384a1dad71dbd27e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 02/33] fix: SingleQTransform no longer overwrites the caller's
 frange list

---
 ml4gw/transforms/qtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..fe8588e 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,8 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        # copy, since the limits may be replaced below
+        self.frange = list(frange) if frange else [0, torch.inf]
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From c0fa007f34d28baadece942b193bbdbcbbab6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 03/33] fix: spline output coordinates given to one call no
 longer leak into later calls

---
 ml4gw/transforms/spline_interpolation.py | 29 ++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..8ef6dc8 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,19 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output x-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -310,12 +311,14 @@ class SplineInterpolate1D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
+            Bx_out = self.bspline_basis_natural(
                 x_clamped, self.kx, self.tx
             )
+        else:
+            Bx_out = self.Bx_out
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +435,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self, C: Tensor, Bx_out: Tensor, By_out: Tensor
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix of the output x-coordinates.
+            By_out: Basis matrix of the output y-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -514,18 +521,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
+            Bx_out = self.bspline_basis_natural(
                 x_clamped, self.kx, self.tx
             )
+        else:
+            Bx_out = self.Bx_out
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
+            By_out = self.bspline_basis_natural(
                 y_clamped, self.ky, self.ty
             )
+        else:
+            By_out = self.By_out
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From 0a489aad3b69f56daafb3652657681379d79204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 04/33] fix: truncate_inverse_power_spectrum accepts 1D and 2D
 PSDs as documented

---
 ml4gw/spectral.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ml4gw/spectral.py b/ml4gw/spectral.py
index b0dabea..e3d910e 100644
--- a/ml4gw/spectral.py
+++ b/ml4gw/spectral.py
@@ -405,13 +405,13 @@ def truncate_inverse_power_spectrum(
     df = sample_rate / N
     if highpass is not None:
         idx = int(highpass / df)
-        inv_asd[:, :, :idx] = 0
+        inv_asd[..., :idx] = 0
     if lowpass is not None:
         idx = int(lowpass / df)
-        inv_asd[:, :, idx:] = 0
+        inv_asd[..., idx:] = 0
 
     if inv_asd.size(-1) % 2:
-        inv_asd[:, :, -1] = 0
+        inv_asd[..., -1] = 0
 
     # now convert to time domain representation
     q = torch.fft.irfft(inv_asd, n=N, norm="forward", dim=-1)
@@ -426,10 +426,10 @@ def truncate_inverse_power_spectrum(
         window = window.to(q.device)
 
     # 0 out anything else between the tapering regions
-    q[:, :, :pad] *= window[-pad:]
-    q[:, :, -pad:] *= window[:pad]
+    q[..., :pad] *= window[-pad:]
+    q[..., -pad:] *= window[:pad]
     if 2 * pad < q.size(-1):
-        q[:, :, pad : q.size(-1) - pad] = 0
+        q[..., pad : q.size(-1) - pad] = 0
 
     # convert back to the frequency domain
     # to build the desired PSD
-- 
2.43.0


From 5610c089b6ed46138234b9be90acda37b2221dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 05/33] fix: ChunkedTimeSeriesDataset indexes each chunk by its
 own shape

---
 ml4gw/dataloading/chunked_dataset.py | 48 ++++++++++++++--------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..6378252 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -65,31 +65,31 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         chunk = next(it)
         num_chunks, num_channels, chunk_size = chunk.shape
 
-        # if we're sampling coincidentally, we only need
-        # to sample indices on a per-batch-element basis.
-        # Otherwise, we'll need indices for both each
-        # batch sample _and_ each channel with each sample
-        if self.coincident:
-            sample_size = (self.batch_size,)
-        else:
-            sample_size = (self.batch_size, num_channels)
-
-        # slice kernels out a flattened chunk tensor
-        # index-for-index. We'll account for batch/
-        # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
-
-        # this will just be a set of aranged channel indices
-        # repeated to offset the kernel indices in the
-        # flattened chunk tensor
-        channel_idx = torch.arange(num_channels, device=self.device)
-        channel_idx = channel_idx.view(1, -1, 1)
-        channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
-
         while True:
+            # if we're sampling coincidentally, we only need
+            # to sample indices on a per-batch-element basis.
+            # Otherwise, we'll need indices for both each
+            # batch sample _and_ each channel with each sample
+            if self.coincident:
+                sample_size = (self.batch_size,)
+            else:
+                sample_size = (self.batch_size, num_channels)
+
+            # slice kernels out a flattened chunk tensor
+            # index-for-index. We'll account for batch/
+            # channel indices by introducing offsets later on
+            idx = torch.arange(self.kernel_size, device=self.device)
+            idx = idx.view(1, 1, -1)
+            idx = idx.repeat(self.batch_size, num_channels, 1)
+
+            # this will just be a set of aranged channel indices
+            # repeated to offset the kernel indices in the
+            # flattened chunk tensor
+            channel_idx = torch.arange(num_channels, device=self.device)
+            channel_idx = channel_idx.view(1, -1, 1)
+            channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
+            idx += channel_idx * chunk_size
+
             # record the number of rows in the chunk, then
             # flatten it to make it easier to slice
             if chunk_size < self.kernel_size:
-- 
2.43.0


From 7317f7b3ac119a4feef4613bec4e158771b7d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 06/33] fix: ChunkedTimeSeriesDataset moves chunks to the
 requested device

---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 6378252..0481846 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -97,7 +97,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                     f"Can't sample kernels of size {self.kernel_size} from "
                     f"chunk with size {chunk_size}"
                 )
-            chunk = chunk.reshape(-1)
+            chunk = chunk.to(self.device).reshape(-1)
 
             # generate batches from the current chunk
             for _ in range(self.batches_per_chunk):
-- 
2.43.0


From 64c2fdf7f31e4fb9fea75a9945a24aea930a9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 07/33] fix: ChunkedTimeSeriesDataset can draw the last window
 of a chunk

---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 0481846..2e27273 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -117,7 +117,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    chunk_size - self.kernel_size + 1,
                     size=sample_size,
                     device=self.device,
                 )
-- 
2.43.0


From e538bbf83bc70a0306382f2a9333791000242699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 08/33] fix: Hdf5TimeSeriesDataset can draw the last window of
 a file

---
 ml4gw/dataloading/hdf5_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..2689b62 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,7 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            max_idx = size - self.kernel_size + 1
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From 24280ac26f47cdcafd9ed25eebca28796328af2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 09/33] fix: honour a zero overlap when estimating a PSD

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..dd78c45 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -54,7 +54,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From 39e266f01d64974d53583b879251ded4ff6d5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:19 +0000
Subject: [PATCH 10/33] fix: keep singleton batch and channel axes of Q
 transforms

---
 ml4gw/transforms/qtransform.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index fe8588e..c33835f 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -248,6 +248,7 @@ class SingleQTransform(torch.nn.Module):
             ]
         )
         self.qtiles = None
+        self.input_ndim = 3
 
         if self.interpolation_method == "spline":
             self._set_up_spline_interp()
@@ -362,6 +363,7 @@ class SingleQTransform(torch.nn.Module):
         for each ``QTile``
         """
         # Computing the FFT with the same normalization and scaling as GWpy
+        self.input_ndim = X.ndim
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
         self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
@@ -386,7 +388,8 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            resampled = self.interpolator(time_interped.mT).mT
+            return self._drop_added_axes(resampled)
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -402,7 +405,12 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        return self._drop_added_axes(resampled)
+
+    def _drop_added_axes(self, X: TimeSeries3d) -> TimeSeries3d:
+        # only remove the axes added by the Q-tiles, so that batch
+        # and channel dimensions of size 1 in the input are kept
+        return X.reshape(X.shape[3 - self.input_ndim :])
 
     def forward(
         self,
-- 
2.43.0


From 75105cdba303a4671e46ff0978c45a2144057749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 11/33] fix: Heterodyne keeps the last sample of inputs of odd
 length

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..15f2252 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.shape[-1], dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From 99249917f1154da219c22cb310219c2126132c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 12/33] fix: LeakyIntegrator clamps to lower_bound, not to
 twice its value

---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..f7603f9 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.minimum(offset, torch.zeros_like(offset))
 
         return raw_sum - offset
-- 
2.43.0


From 34d10993a913cdc7c3fdb60bff7da93d34b875b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 13/33] fix: Decimator schedules that start after zero, have
 gaps or one-sample segments

---
 ml4gw/transforms/decimator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..6ab3ca0 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -154,13 +154,12 @@ class Decimator(torch.nn.Module):
                 1D tensor of indices used to decimate the input.
         """
         idx = torch.tensor([], dtype=torch.long)
+        # the input starts when the first segment of the schedule does
+        t0 = self.schedule[0, 0]
 
         for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
+            start = int((s[0] - t0) * self.sample_rate)
+            stop = int((s[1] - t0) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             new_idx = torch.arange(start, stop, step, dtype=torch.long)
             idx = torch.cat((idx, new_idx))
@@ -185,10 +184,11 @@ class Decimator(torch.nn.Module):
                 the corresponding schedule row.
         """
         segments = []
+        t0 = self.schedule[0, 0]
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
+            start = int((s[0] - t0) * self.sample_rate)
+            stop = int((s[1] - t0) * self.sample_rate)
             step = int(self.sample_rate // s[2])
             idx = torch.arange(
                 start,
-- 
2.43.0


From 3175402fa6d8a873d1fc3fc3e2971f9decbbb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 14/33] fix: Ringdown cross polarization follows
 cos(inclination)

---
 ml4gw/waveforms/adhoc/ringdown.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..a47143e 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -90,14 +90,13 @@ class Ringdown(torch.nn.Module):
         # calculate cosines with inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-pi * frequency * self.times / quality)
         phase_term = 2 * pi * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0


From ec6ad52255bac12829ec422ce91e0964778502b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:08 +0000
Subject: [PATCH 15/33] fix: Ringdown amplitude grows with the square root of
 the radiated energy fraction

---
 ml4gw/waveforms/adhoc/ringdown.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index a47143e..0a309b6 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -1,4 +1,3 @@
-import numpy as np
 import torch
 
 from ml4gw.constants import PI, C, G, m_per_Mpc
@@ -79,8 +78,7 @@ class Ringdown(torch.nn.Module):
         F_Q = 1 + ((7 / 24) / quality**2)
         g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)
         amplitude = (
-            np.sqrt(5 / 2)
-            * epsilon
+            torch.sqrt(5 / 2 * epsilon)
             * (G * mass / (C) ** 2)
             * quality ** (-0.5)
             * F_Q ** (-0.5)
-- 
2.43.0


From 01b475195f572ab045fede9c759a2b7c00bde1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 16/33] fix: the derivative IMRPhenomD returns with its phase
 includes the shifts that join its pieces

---
 ml4gw/waveforms/cbc/phenom_d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml4gw/waveforms/cbc/phenom_d.py b/ml4gw/waveforms/cbc/phenom_d.py
index 482df88..db07bb9 100644
--- a/ml4gw/waveforms/cbc/phenom_d.py
+++ b/ml4gw/waveforms/cbc/phenom_d.py
@@ -438,10 +438,12 @@ class IMRPhenomD(TaylorF2):
         int_phase = (int_phase.mT / eta).mT
         int_phase += C1Int
         int_phase += Mf * C2Int
+        int_Dphase += C2Int
 
         mrd_phase = (mrd_phase.mT / eta).mT
         mrd_phase += C1MRD
         mrd_phase += Mf * C2MRD
+        mrd_Dphase += C2MRD
 
         # construct full IMR phase
         theta_minus_f1 = (Mf <= PHI_fJoin_INS).type_as(Mf)
-- 
2.43.0


From a6f7817a5758bf519e87cb61f33acb2abc28884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 17/33] fix: IMRPhenomPv2 stays finite when rounding puts the
 symmetric mass ratio above a quarter

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..ad9eb0d 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,7 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         chi22 = chi2_l * chi2_l
         chi12 = chi1_l * chi1_l
@@ -213,7 +213,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
-- 
2.43.0


From cea9088cd29556749907c180662a6b6e61519bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:57 +0000
Subject: [PATCH 18/33] fix: IMRPhenomPv2 shifts the waveform by tc seconds

---
 ml4gw/waveforms/cbc/phenom_p.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index ad9eb0d..75582de 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -183,10 +183,7 @@ class IMRPhenomPv2(IMRPhenomD):
         phase_corr = torch.cos(2 * PI * fs * (t0)) - 1j * torch.sin(
             2 * PI * fs * (t0)
         )
-        M_s = (m1 + m2) * MTSUN_SI
-        phase_corr_tc = torch.exp(
-            -1j * fs * M_s.unsqueeze(1) * tc.unsqueeze(1)
-        )
+        phase_corr_tc = torch.exp(-2j * PI * fs * tc.unsqueeze(1))
         hp *= phase_corr * phase_corr_tc
         hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 010c27dd1bd399a754bbcbe559b836380fe301a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:56 +0000
Subject: [PATCH 19/33] fix: IMRPhenomPv2 pairs each squared spin with its own
 body in the amplitude

---
 ml4gw/waveforms/cbc/phenom_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 75582de..38db37d 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -157,8 +157,8 @@ class IMRPhenomPv2(IMRPhenomD):
             Seta,
             chi2_l,
             chi1_l,
-            chi12,
             chi22,
+            chi12,
             chip,
             phic,
             M,
-- 
2.43.0


From b0341f958ccd128e01e9dc81fb9dd51c32d33ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 20/33] fix: the log density of Cosine is normalised

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..ce6d562 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (self.norm * value.cos() * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From 4645f1835bf28d3d6aba0148469988f1d446eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 21/33] fix: match_size keeps the centre of a tensor longer
 than the target

---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From b0e3dbaa9239082cd690df1d899385345a55745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 22/33] fix: Autoencoder.decode joins each state with the
 output of its own block, and runs without states

---
 ml4gw/nn/autoencoder/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..a63c98a 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -64,7 +64,9 @@ class Autoencoder(torch.nn.Module):
                 )
 
             # Don't skip connect the output layer
-            states = states[::-1] + [None]
+            states = list(states[::-1]) + [None]
+        else:
+            states = [None] * len(self.blocks)
 
         for i, block in enumerate(self.blocks[::-1]):
             if isinstance(X, tuple):
@@ -72,7 +74,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
+            state = states[i]
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From 6eec825f399702396d53bfabd41ab7bcf5778905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 23/33] fix: ConvBlock instantiates the activation of its
 output

---
 ml4gw/nn/autoencoder/convolutional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..c8112ba 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -57,9 +57,9 @@ class ConvBlock(Autoencoder):
 
         self.activation = activation()
         if output_activation is not None:
-            self.output_activation = output_activation
+            self.output_activation = output_activation()
         else:
-            self.output_activation = activation
+            self.output_activation = activation()
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
-- 
2.43.0


From 25b02c10f8d2c2c76b6f0aa7341a8fcd708b22c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 24/33] fix: the innermost decoder takes the encoded channels
 only

---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index c8112ba..8dbfefd 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -118,11 +118,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the innermost decoder acts on the encoded vector
+            # itself, which no skip connection has widened
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From 8a04468b3d700b1157f976f464c6b2195fe6fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:51 +0000
Subject: [PATCH 25/33] fix: ConcatSkipConnect splits the channels into its
 number of groups

---
 ml4gw/nn/autoencoder/skip_connection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..d21a036 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,8 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        size = num_channels // self.groups
+        X = torch.split(X, size, dim=1)
+        state = torch.split(state, size, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From c5517f252541bfc5784426e69793604884810cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 26/33] fix: OnlineAverager accepts an offset of zero

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From fb6ccf3d45ed2b334c5e4c4cc7e3606e8678d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:11 +0000
Subject: [PATCH 27/33] fix: MultiResolutionSpectrogram orders the lengths of
 its options

---
 ml4gw/transforms/spectrogram.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..b327cd2 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -104,8 +104,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self.register_buffer("time_idxs", time_idxs)
 
     def _check_and_format_kwargs(self, kwargs: dict[str, list]) -> list:
-        lengths = sorted(len(v) for v in kwargs.values())
-        lengths = list(set(lengths))
+        lengths = sorted({len(v) for v in kwargs.values()})
 
         if lengths[-1] > 3:
             warnings.warn(
-- 
2.43.0


From 0ca057550182cba1d807fa1329fc40c0101dc0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 28/33] fix: spline bases are built on the device of their
 coordinates

---
 ml4gw/transforms/spline_interpolation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 8ef6dc8..0f35714 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -14,7 +14,7 @@ class SplineInterpolateBase(torch.nn.Module):
     def _compute_knots_and_basis_matrices(self, x, k, s):
         knots = self.generate_fitpack_knots(x, k)
         basis_matrix = self.bspline_basis_natural(x, k, knots)
-        identity = torch.eye(basis_matrix.shape[-1])
+        identity = torch.eye(basis_matrix.shape[-1], device=x.device)
         B_T_B = basis_matrix.T @ basis_matrix + s * identity
         return knots, basis_matrix, B_T_B
 
@@ -31,7 +31,7 @@ class SplineInterpolateBase(torch.nn.Module):
             Tensor of knot positions.
         """
         num_knots = x.shape[-1] + k + 1
-        knots = torch.zeros(num_knots, dtype=x.dtype)
+        knots = torch.zeros(num_knots, dtype=x.dtype, device=x.device)
         knots[: k + 1] = x[0]
         knots[-(k + 1) :] = x[-1]
 
@@ -112,7 +112,7 @@ class SplineInterpolateBase(torch.nn.Module):
         Returns:
             b: Tensor containing the zeroth-order B-spline basis functions.
         """
-        b = torch.zeros((n, m, k + 1))
+        b = torch.zeros((n, m, k + 1), device=x.device)
 
         mask_lower = t[: m + 1].unsqueeze(0)[:, :-1] <= x.unsqueeze(1)
         mask_upper = x.unsqueeze(1) < t[: m + 1].unsqueeze(0)[:, 1:]
@@ -145,7 +145,7 @@ class SplineInterpolateBase(torch.nn.Module):
         # calculate zeroth order basis funciton
         b = self.zeroth_order(x, k, t, n, m)
 
-        zeros_tensor = torch.zeros(b.shape[0], 1)
+        zeros_tensor = torch.zeros(b.shape[0], 1, device=x.device)
         # recursive de Boors formula for bspline basis functions
         for d in range(1, k + 1):
             L, R = self.compute_L_R(x, t, d, m)
-- 
2.43.0


From 141f94a7f462c5e4886120e8bd31dc159ca490d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 29/33] fix: normalize_psd windows the data on its own device

---
 ml4gw/transforms/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index dd78c45..309c494 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -58,7 +58,9 @@ class FittableSpectralTransform(FittableTransform):
                 overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
-            window = torch.hann_window(nperseg, dtype=torch.float64)
+            window = torch.hann_window(
+                nperseg, dtype=torch.float64, device=x.device
+            )
             scale = 1.0 / (sample_rate * (window**2).sum())
             x = spectral_density(
                 x,
-- 
2.43.0


From 148472bc8938d91d612ad15666e13bef11fe916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:39 +0000
Subject: [PATCH 30/33] fix: Snapshotter starts its state on the device of the
 update

---
 ml4gw/nn/streaming/snapshotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/snapshotter.py b/ml4gw/nn/streaming/snapshotter.py
index 0ca4893..50431d6 100644
--- a/ml4gw/nn/streaming/snapshotter.py
+++ b/ml4gw/nn/streaming/snapshotter.py
@@ -90,7 +90,7 @@ class Snapshotter(torch.nn.Module):
         snapshot: Float[Tensor, "channel time2"] | None = None,
     ) -> tuple[Tensor, ...]:
         if snapshot is None:
-            snapshot = self.get_initial_state()
+            snapshot = self.get_initial_state().to(update.device)
 
         # append new data to the snapshot
         snapshot = torch.cat([snapshot, update], axis=-1)
-- 
2.43.0


From 02cc654fb815fca24599e172e465502a7516632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:05 +0000
Subject: [PATCH 31/33] fix: a load with missing keys does not mark a transform
 as fitted

---
 ml4gw/transforms/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index 309c494..7aece75 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -27,14 +27,14 @@ class FittableTransform(torch.nn.Module):
         return super().__call__(*args, **kwargs)
 
     def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
+        # keep track of number of missing keys and error messages
+        # to see if trying to load these weights causes another
+        num_errs = len(args[-3]) + len(args[-1])
         ret = super()._load_from_state_dict(*args)
 
         # if we didn't create any new errors, then
         # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        if len(args[-3]) + len(args[-1]) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From 1d7c06a81dcb6364d3eefcc8f915833c1e717f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:44 +0000
Subject: [PATCH 32/33] fix: sample_kernels returns the indices of 1D data on
 the data's device

---
 ml4gw/utils/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 93b17dd..dbdb87b 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -313,7 +313,7 @@ def sample_kernels(
         )
 
     if X.ndim == 1:
-        idx = torch.randint(len(X) - kernel_size, size=(N,))
+        idx = torch.randint(len(X) - kernel_size, size=(N,)).to(X.device)
         if return_idx:
             return slice_kernels(X, idx, kernel_size), idx
         return slice_kernels(X, idx, kernel_size)
-- 
2.43.0


From fd91020416b9bf094e09da1f71aed1b8896b239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:26 +0000
Subject: [PATCH 33/33] fix: a ResNet of a single layer can be built

---
 ml4gw/nn/resnet/resnet_1d.py | 5 ++++-
 ml4gw/nn/resnet/resnet_2d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..9c51293 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -287,7 +287,10 @@ class ResNet1D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..66b03bd 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -287,7 +287,10 @@ class ResNet2D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
-- 
2.43.0

