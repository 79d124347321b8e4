From 642fe4753ce26c38ae55e5c83cfd8b9b323cb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:26 +0000
Subject: [PATCH 01/43] fix: Decimator keeps each schedule segment at its own
 start time

The flat index used the spacing of the previous segment to guess where the
next one starts, so gaps between segments were ignored, single-sample
segments raised IndexError, and split=False disagreed with split=True.
Schedules that do not start at zero always indexed out of range.
---
 ml4gw/transforms/decimator.py | 39 ++++++++++++++---------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..4ccd1f5 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -153,18 +153,21 @@ class Decimator(torch.nn.Module):
             torch.Tensor:
                 1D tensor of indices used to decimate the input.
         """
-        idx = torch.tensor([], dtype=torch.long)
-
-        for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
-            step = int(self.sample_rate // s[2])
-            new_idx = torch.arange(start, stop, step, dtype=torch.long)
-            idx = torch.cat((idx, new_idx))
-        return idx
+        return torch.cat([self._segment_indices(s) for s in self.schedule])
+
+    def _segment_indices(self, s: torch.Tensor) -> torch.Tensor:
+        # the first input sample corresponds to the start of the schedule
+        origin = self.schedule[0, 0]
+        start = int((s[0] - origin) * self.sample_rate)
+        stop = int((s[1] - origin) * self.sample_rate)
+        step = int(self.sample_rate // s[2])
+        return torch.arange(
+            start,
+            stop,
+            step,
+            dtype=torch.long,
+            device=self.schedule.device,
+        )
 
     def split_by_schedule(self, X: torch.Tensor) -> tuple[torch.Tensor, ...]:
         r"""
@@ -187,17 +190,7 @@ class Decimator(torch.nn.Module):
         segments = []
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
-            step = int(self.sample_rate // s[2])
-            idx = torch.arange(
-                start,
-                stop,
-                step,
-                dtype=torch.long,
-                device=self.schedule.device,
-            )
-            seg = X.index_select(dim=-1, index=idx)
+            seg = X.index_select(dim=-1, index=self._segment_indices(s))
             segments.append(seg)
 
         return segments
-- 
2.43.0


From 6cee1b356f0625453c8fb625d8babc4b2aecf888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 02/43] fix: spline x_out/y_out overrides no longer leak into
 later calls

A call with explicit output coordinates replaced the basis computed at
construction, so a later call without an override was evaluated on the
stale grid.
---
 ml4gw/transforms/spline_interpolation.py | 48 ++++++++++++++++--------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..23622a7 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -242,18 +242,23 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor | None = None):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out:
+                Basis matrix at the output coordinates. Defaults to
+                the one computed at initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        if Bx_out is None:
+            Bx_out = self.Bx_out
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -305,17 +310,17 @@ class SplineInterpolate1D(SplineInterpolateBase):
 
         Z = self._validate_inputs(Z, x_out)
 
+        # an override only applies to this call
+        Bx_out = None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -432,18 +437,33 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self,
+        C: Tensor,
+        Bx_out: Tensor | None = None,
+        By_out: Tensor | None = None,
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out:
+                Basis matrix at the output x-coordinates. Defaults to
+                the one computed at initialization.
+            By_out:
+                Basis matrix at the output y-coordinates. Defaults to
+                the one computed at initialization.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        if Bx_out is None:
+            Bx_out = self.Bx_out
+        if By_out is None:
+            By_out = self.By_out
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -509,23 +529,21 @@ class SplineInterpolate2D(SplineInterpolateBase):
 
         Z, y_out = self._validate_inputs(Z, x_out, y_out)
 
+        # overrides only apply to this call
+        Bx_out = By_out = None
         if x_out is not None:
             x_out = x_out.float()
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From ff71b9f4e96ea208cb3da05a11409466012f1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 03/43] fix: ChunkedTimeSeriesDataset follows the shape of each
 chunk

The channel offsets were computed from the first chunk only, so a later
chunk of another length was sliced across channel boundaries and one with
another number of channels failed or lost channels. Chunks are also moved
to the requested device, as documented.
---
 ml4gw/dataloading/chunked_dataset.py | 65 +++++++++++++---------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..af39b1c 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -61,35 +61,36 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         return len(self.chunk_it) * self.batches_per_chunk
 
     def __iter__(self) -> WaveformTensor:
-        it = iter(self.chunk_it)
-        chunk = next(it)
-        num_chunks, num_channels, chunk_size = chunk.shape
-
-        # if we're sampling coincidentally, we only need
-        # to sample indices on a per-batch-element basis.
-        # Otherwise, we'll need indices for both each
-        # batch sample _and_ each channel with each sample
-        if self.coincident:
-            sample_size = (self.batch_size,)
-        else:
-            sample_size = (self.batch_size, num_channels)
-
-        # slice kernels out a flattened chunk tensor
-        # index-for-index. We'll account for batch/
-        # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
-
-        # this will just be a set of aranged channel indices
-        # repeated to offset the kernel indices in the
-        # flattened chunk tensor
-        channel_idx = torch.arange(num_channels, device=self.device)
-        channel_idx = channel_idx.view(1, -1, 1)
-        channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
-
-        while True:
+        for chunk in self.chunk_it:
+            chunk = chunk.to(self.device)
+            num_chunks, num_channels, chunk_size = chunk.shape
+
+            # if we're sampling coincidentally, we only need
+            # to sample indices on a per-batch-element basis.
+            # Otherwise, we'll need indices for both each
+            # batch sample _and_ each channel with each sample
+            if self.coincident:
+                sample_size = (self.batch_size,)
+            else:
+                sample_size = (self.batch_size, num_channels)
+
+            # slice kernels out a flattened chunk tensor
+            # index-for-index. We'll account for batch/
+            # channel indices by introducing offsets later on
+            idx = torch.arange(self.kernel_size, device=self.device)
+            idx = idx.view(1, 1, -1)
+            idx = idx.repeat(self.batch_size, num_channels, 1)
+
+            # this will just be a set of aranged channel indices
+            # repeated to offset the kernel indices in the
+            # flattened chunk tensor
+            channel_idx = torch.arange(num_channels, device=self.device)
+            channel_idx = channel_idx.view(1, -1, 1)
+            channel_idx = channel_idx.repeat(
+                self.batch_size, 1, self.kernel_size
+            )
+            idx += channel_idx * chunk_size
+
             # record the number of rows in the chunk, then
             # flatten it to make it easier to slice
             if chunk_size < self.kernel_size:
@@ -128,9 +129,3 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
 
                 # now slice this 3D tensor from our flattened chunk
                 yield chunk[chunk_idx]
-
-            try:
-                chunk = next(it)
-            except StopIteration:
-                break
-            num_chunks, num_channels, chunk_size = chunk.shape
-- 
2.43.0


From aadc2f0b81c3470b549c8f5b681a3752e0d9c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 04/43] fix: ChunkedTimeSeriesDataset can sample the last
 window of a chunk

The exclusive upper bound was one too small: the last window was never
drawn and a chunk exactly one kernel long raised RuntimeError.
---
 ml4gw/dataloading/chunked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index af39b1c..a4d67fa 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -118,7 +118,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    chunk_size - self.kernel_size + 1,
                     size=sample_size,
                     device=self.device,
                 )
-- 
2.43.0


From ff0b92fd56e26c6591e8ea78defdbb31854cbd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/43] fix: Hdf5TimeSeriesDataset can sample the last window
 of a file

The exclusive upper bound was one too small: the last window was never
drawn and a file exactly one kernel long raised ValueError.
---
 ml4gw/dataloading/hdf5_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..2689b62 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,7 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            max_idx = size - self.kernel_size + 1
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From 184d39a0c714045e2e8844e06f0eef6df5576c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 06/43] fix: OnlineAverager(offset=0) discards no samples

end = -0 made the slice empty, so forward failed.
---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From 310e436e9a04e03fb358131a74385c2713594f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 07/43] fix: loading an incomplete state dict does not mark a
 transform as fit

Missing keys were ignored when deciding whether a load provided the fit
parameters, so an unfit transform became callable with default buffers.
---
 ml4gw/transforms/transform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..8b19a68 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -27,14 +27,16 @@ class FittableTransform(torch.nn.Module):
         return super().__call__(*args, **kwargs)
 
     def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
+        # keep track of number of missing keys and error
+        # messages to see if trying to load these weights
+        # causes another
+        missing_keys, error_msgs = args[-3], args[-1]
+        num_errs = len(missing_keys) + len(error_msgs)
         ret = super()._load_from_state_dict(*args)
 
         # if we didn't create any new errors, then
         # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        if len(missing_keys) + len(error_msgs) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From 7417705eeea9d83b3977b2709e9b63acdf4e8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 08/43] fix: FixedWhiten keeps fduration in double precision

Rounding fduration to float32 made the crop one sample short for values
such as 0.9 s at 20 Hz, disagreeing with Whiten and with the filter.
---
 ml4gw/transforms/whitening.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..3421bc3 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -158,7 +158,7 @@ class FixedWhiten(FittableSpectralTransform):
         self.register_buffer("psd", psd)
 
         # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +249,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From 2dfaca9720ea7af619e79f40ede8bb7ea110c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 09/43] fix: LeakyIntegrator honours a non-zero lower bound

The correction has to vanish while the sum stays above the bound; it was
clamped at the bound itself, which shifts the output for any other bound.
---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..f7603f9 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.minimum(offset, torch.zeros_like(offset))
 
         return raw_sum - offset
-- 
2.43.0


From ac021adb6afba3ab6d20fbcea05cc2a7888412a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 10/43] fix: Heterodyne returns timeseries of the input length
 for odd lengths

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..15f2252 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.shape[-1], dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From e1645375b168414619a3e4260ba84d5bf5ea1bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 11/43] fix: MultiResolutionSpectrogram accepts any valid list
 and kernel length

list(set(...)) does not keep the sorted order, so e.g. eight n_fft values
with one win_length were rejected, and comparing an integer number of
samples with a float product rejected e.g. 1.1 s at 10 Hz.
---
 ml4gw/transforms/spectrogram.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..1ec10ab 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -46,7 +46,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self, kernel_length: float, sample_rate: float, **kwargs
     ) -> None:
         super().__init__()
-        self.kernel_size = kernel_length * sample_rate
+        self.kernel_size = int(kernel_length * sample_rate)
         # This method of combination makes sense only when
         # the spectrograms are normalized, so enforce this
         if "normalized" in kwargs.keys():
@@ -64,7 +64,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
             [Spectrogram(**k) for k in self.kwargs]
         )
 
-        dummy_input = torch.ones(int(kernel_length * sample_rate))
+        dummy_input = torch.ones(self.kernel_size)
         self.shapes = torch.tensor(
             [t(dummy_input).shape for t in self.transforms]
         )
@@ -104,8 +104,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self.register_buffer("time_idxs", time_idxs)
 
     def _check_and_format_kwargs(self, kwargs: dict[str, list]) -> list:
-        lengths = sorted(len(v) for v in kwargs.values())
-        lengths = list(set(lengths))
+        lengths = sorted({len(v) for v in kwargs.values()})
 
         if lengths[-1] > 3:
             warnings.warn(
-- 
2.43.0


From 611db1c30cedf272c029a94da58ef4433a34752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 12/43] fix: autoencoder blocks instantiate their output
 activation

The activation class itself was called on the decoded tensor, so decode
returned a Module instead of a Tensor.
---
 ml4gw/nn/autoencoder/convolutional.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..baa7a4a 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -56,10 +56,12 @@ class ConvBlock(Autoencoder):
         )
 
         self.activation = activation()
-        if output_activation is not None:
-            self.output_activation = output_activation
+        if output_activation is None:
+            self.output_activation = self.activation
+        elif isinstance(output_activation, type):
+            self.output_activation = output_activation()
         else:
-            self.output_activation = activation
+            self.output_activation = output_activation
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
-- 
2.43.0


From dce67d3ac16f7e22e28a251f13d44d42b73487d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 13/43] fix: autoencoder decode pairs each block with its own
 encoder state

The states are already reversed, so indexing from the end connected the
outermost state to the innermost block (and skipped the first), and a
decode without states raised TypeError.
---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..d3acacc 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -72,7 +72,7 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
+            state = states[i] if states is not None else None
             if state is not None:
                 X = self.skip_connection(X, state)
         return X
-- 
2.43.0


From b38a791708b5552f16abf9d6f899453a56c2e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 14/43] fix: innermost autoencoder block does not expect skip
 channels

With a channel-concatenating skip connection the innermost decoder was
built for twice the channels it receives, so forward always failed.
---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index baa7a4a..4fe6efc 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -120,11 +120,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the innermost block decodes the encoded vector
+            # itself, to which nothing has been skip connected
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From b6fb3a8e306595d0917698c4c8e8457862080aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 15/43] fix: ConcatSkipConnect interleaves the requested number
 of groups

torch.split takes the size of the pieces, not their number.
---
 ml4gw/nn/autoencoder/skip_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..0aee825 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,7 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        X = torch.split(X, num_channels // self.groups, dim=1)
+        state = torch.split(state, num_channels // self.groups, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From efa81c45c1338c7193e965d5a5d6f845518d64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 16/43] fix: match_size crops both ends

The sign of the right edge was flipped, so cropping two or more samples
returned the wrong (usually empty) slice.
---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From f32392019c1e0b15b7555d5c99416c08e14963e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 17/43] fix: Cosine and Sine log_prob are normalised densities

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..69e52ce 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (value.cos() * self.norm * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From bb1bc484f7705632fa2d7d36ab097e614194ff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 18/43] fix: SingleQTransform does not modify the frange list
 it is given

---
 ml4gw/transforms/qtransform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..df74e78 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,7 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From a9746d03377e69f8ae28cdae109f328b40f34e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 19/43] fix: get_max_energy accepts a search range up to the
 highest tile

---
 ml4gw/transforms/qtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index df74e78..4365b66 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -331,8 +331,8 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
+            start = int((self.freqs <= fsearch_range[0]).sum())
+            stop = int((self.freqs <= fsearch_range[1]).sum())
             qtiles = self.qtiles[start:stop]
         else:
             qtiles = self.qtiles
-- 
2.43.0


From 6eb7a2c83d4d79c8372c7f35ebaed2d38a646812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 20/43] fix: Q-transform output has one more dimension than its
 input

---
 ml4gw/transforms/qtransform.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 4365b66..10061eb 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -247,6 +247,7 @@ class SingleQTransform(torch.nn.Module):
             ]
         )
         self.qtiles = None
+        self.input_ndim = None
 
         if self.interpolation_method == "spline":
             self._set_up_spline_interp()
@@ -361,6 +362,7 @@ class SingleQTransform(torch.nn.Module):
         for each ``QTile``
         """
         # Computing the FFT with the same normalization and scaling as GWpy
+        self.input_ndim = X.ndim
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
         self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
@@ -385,7 +387,7 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            return self._match_ndim(self.interpolator(time_interped.mT).mT)
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -401,7 +403,11 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        return self._match_ndim(resampled)
+
+    def _match_ndim(self, X: Tensor) -> Tensor:
+        # drop the leading dimensions that were added to the input
+        return X.reshape(X.shape[-(self.input_ndim + 1) :])
 
     def forward(
         self,
-- 
2.43.0


From caa9dea54d06b856cf56b5c63f9362c66a5a0cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 21/43] fix: UniformComovingVolume.log_prob is finite next to
 zero distance

Interpolating the log density from -inf at zero gave nan for every value
in the first grid bin.
---
 ml4gw/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 69e52ce..3138872 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -347,9 +347,9 @@ class UniformComovingVolume(dist.Distribution):
         return self._linear_interp_1d(self.cdf, self.distance_grid, u)
 
     def log_prob(self, value: Tensor) -> Tensor:
-        log_prob = self._linear_interp_1d(
-            self.distance_grid, self.log_pdf, value
-        )
+        # interpolate the density, not its log, which is infinite at zero
+        pdf = self._linear_interp_1d(self.distance_grid, self.pdf, value)
+        log_prob = pdf.clamp(min=0).log()
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
-- 
2.43.0


From f15f0ef714997a8dde34a8d481015df62b7fc6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 22/43] fix: spin conversion is defined when J, L or N are
 aligned

The cosines passed to acos can exceed one by rounding (e.g. for aligned or
vanishing spins), which turned every output into NaN.
---
 ml4gw/waveforms/conversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/conversion.py b/ml4gw/waveforms/conversion.py
index e9efd36..6083e12 100644
--- a/ml4gw/waveforms/conversion.py
+++ b/ml4gw/waveforms/conversion.py
@@ -138,7 +138,7 @@ def bilby_spins_to_lalsim(
     Jhatx = Jx / Jnorm
     Jhaty = Jy / Jnorm
     Jhatz = Jz / Jnorm
-    theta0 = torch.acos(Jhatz)
+    theta0 = torch.acos(Jhatz.clamp(-1, 1))
     phi0 = torch.atan2(Jhaty, Jhatx)
 
     # Rotation 1: Rotate about z-axis by -phi0 to put Jhat in x-z plane
@@ -165,12 +165,13 @@ def bilby_spins_to_lalsim(
     Nx = 0.0
     Ny = torch.sin(theta_jn)
     Nz = torch.cos(theta_jn)
-    incl = torch.acos(Nx * lnh_x + Ny * lnh_y + Nz * lnh_z)
+    cos_incl = Nx * lnh_x + Ny * lnh_y + Nz * lnh_z
+    incl = torch.acos(cos_incl.clamp(-1, 1))
 
     # Rotation 4-5: Now J is along z and N in y-z plane, inclined from J
     # by thetaJN and with >ve component along y.
     # Now we bring L into the z axis to get spin components.
-    thetalj = torch.acos(lnh_z)
+    thetalj = torch.acos(lnh_z.clamp(-1, 1))
     phil = torch.atan2(lnh_y, lnh_x)
 
     s1hatx, s1haty, s1hatz = rotate_z(-phil, s1hatx, s1haty, s1hatz)
-- 
2.43.0


From 43c6648cf8363ed6d696c1abacfb2183da0f6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 23/43] fix: Ringdown cross polarization is proportional to the
 cosine of the inclination

The l = m = 2 mode is circularly polarised face on and has no cross
polarization edge on; the sine did the opposite.
---
 ml4gw/waveforms/adhoc/ringdown.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..a47143e 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -90,14 +90,13 @@ class Ringdown(torch.nn.Module):
         # calculate cosines with inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-pi * frequency * self.times / quality)
         phase_term = 2 * pi * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0


From a0b0a08ab5d3cce3af69e618fe97bbe80be7dfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 24/43] fix: Ringdown radiates the requested fraction of the
 black hole mass

The radiated energy is quadratic in the amplitude, so the amplitude goes as
the square root of epsilon; it radiated epsilon squared.
---
 ml4gw/waveforms/adhoc/ringdown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index a47143e..d7cca5e 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -80,7 +80,7 @@ class Ringdown(torch.nn.Module):
         g_a = 1 - 0.63 * (1 - spin) ** (3 / 10)
         amplitude = (
             np.sqrt(5 / 2)
-            * epsilon
+            * epsilon**0.5
             * (G * mass / (C) ** 2)
             * quality ** (-0.5)
             * F_Q ** (-0.5)
-- 
2.43.0


From 232e689fd42176db7695ed866b1f6201ff03ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 25/43] fix: residual networks accept a single layer

block_size was only assigned from the second layer on.
---
 ml4gw/nn/resnet/resnet_1d.py | 5 ++++-
 ml4gw/nn/resnet/resnet_2d.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..9c51293 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -287,7 +287,10 @@ class ResNet1D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..66b03bd 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -287,7 +287,10 @@ class ResNet2D(nn.Module):
         # layer, but downsample in all the rest (either by
         # striding or dilating depending on the stride_type
         # argument)
-        residual_layers = [self._make_layer(64, layers[0], kernel_size)]
+        block_size = 64
+        residual_layers = [
+            self._make_layer(block_size, layers[0], kernel_size)
+        ]
         it = zip(layers[1:], stride_type, strict=True)
         for i, (num_blocks, stride) in enumerate(it):
             block_size = 64 * 2 ** (i + 1)
-- 
2.43.0


From f45e9d8416a023f6f66b5047a54a17e490d4a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 26/43] fix: GroupNorm1D is finite for inputs far from zero

The variance from E[x**2] - E[x]**2 can round to less than -eps, e.g. for a
constant channel, giving nan.
---
 ml4gw/nn/norm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/nn/norm.py b/ml4gw/nn/norm.py
index 2606de1..9c7112e 100644
--- a/ml4gw/nn/norm.py
+++ b/ml4gw/nn/norm.py
@@ -64,7 +64,9 @@ class GroupNorm1D(torch.nn.Module):
         # roll the mean and variance into the
         # weight and bias so that we have to do
         # fewer computations along the full time axis
-        std = (sq_mean - mean**2 + self.eps) ** 0.5
+        # (rounding can push the variance below 0)
+        var = (sq_mean - mean**2).clamp(min=0)
+        std = (var + self.eps) ** 0.5
         scale = self.weight / std
         shift = self.bias - scale * mean
         return shift + x * scale
-- 
2.43.0


From c2c18e3ab0e1452eb2117ea57425b2ab6129731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 27/43] fix: IMRPhenomPv2 is defined for equal masses and
 aligned spins

1 - 4 eta can round below zero and the cosines of the angles between J, L
and N above one, which turned the waveform into NaN for some masses.
---
 ml4gw/waveforms/cbc/phenom_p.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..94e6796 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,7 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         chi22 = chi2_l * chi2_l
         chi12 = chi1_l * chi1_l
@@ -213,7 +213,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
@@ -507,7 +508,7 @@ class IMRPhenomPv2(IMRPhenomD):
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
         J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-        thetaJ_sf = torch.arccos(J0z_sf / J0)
+        thetaJ_sf = torch.arccos(torch.clamp(J0z_sf / J0, -1.0, 1.0))
 
         phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
 
@@ -543,7 +544,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
         Nx_Jf, Nz_Jf = tmp_x, tmp_z
-        thetaJN = torch.arccos(Nz_Jf)
+        thetaJN = torch.arccos(torch.clamp(Nz_Jf, -1.0, 1.0))
 
         # Finally, we need to redefine the polarizations:
         # PhenomP's polarizations are defined following Arun et al
-- 
2.43.0


From 8d3c5f4a62ba8e77fb85f38eedd80f89d6e35f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 28/43] fix: IMRPhenomPv2 takes LAL's aligned-spin limit when J
 is parallel to L

---
 ml4gw/waveforms/cbc/phenom_p.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 94e6796..72dca48 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -510,7 +510,10 @@ class IMRPhenomPv2(IMRPhenomD):
 
         thetaJ_sf = torch.arccos(torch.clamp(J0z_sf / J0, -1.0, 1.0))
 
+        # J is parallel to L: take the aligned spin limit, as in LAL
+        aligned = (J0x_sf.abs() < 1e-15) & (J0y_sf.abs() < 1e-15)
         phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
+        phiJ_sf = torch.where(aligned, PI / 2.0 - phic, phiJ_sf)
 
         phi_aligned = -phiJ_sf
 
@@ -536,7 +539,10 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
 
+        # alpha0 is pi in the aligned spin limit
+        aligned = (tmp_x.abs() < 1e-15) & (tmp_y.abs() < 1e-15)
         alpha0 = torch.arctan2(tmp_y, tmp_x)
+        alpha0 = torch.where(aligned, PI, alpha0)
 
         # Finally we determine thetaJ, by rotating N
         tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From 380f2d59a378f60f7f3ac9fd7392e5a3ee9d3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 29/43] fix: IIRFilter filters with second-order sections so
 that low cutoffs stay stable

---
 ml4gw/transforms/iirfilter.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ml4gw/transforms/iirfilter.py b/ml4gw/transforms/iirfilter.py
index 6b16bce..b0d6dec 100644
--- a/ml4gw/transforms/iirfilter.py
+++ b/ml4gw/transforms/iirfilter.py
@@ -1,6 +1,6 @@
 import torch
 from scipy.signal import iirfilter
-from torchaudio.functional import filtfilt
+from torchaudio.functional import lfilter
 
 
 class IIRFilter(torch.nn.Module):
@@ -70,20 +70,24 @@ class IIRFilter(torch.nn.Module):
         if isinstance(rp, torch.Tensor):
             rp = rp.numpy()
 
-        b, a = iirfilter(
-            N,
-            Wn,
-            rs=rs,
-            rp=rp,
-            btype=btype,
-            analog=analog,
-            ftype=ftype,
-            output="ba",
-            fs=fs,
+        kwargs = dict(
+            rs=rs, rp=rp, btype=btype, analog=analog, ftype=ftype, fs=fs
         )
+        b, a = iirfilter(N, Wn, output="ba", **kwargs)
         self.register_buffer("b", torch.tensor(b))
         self.register_buffer("a", torch.tensor(a))
 
+        # filter with second-order sections: the transfer function of
+        # a high-order filter with a cutoff far below the sample rate
+        # is unstable once its coefficients are rounded
+        sos = iirfilter(N, Wn, output="sos", **kwargs)
+        self.register_buffer("sos", torch.tensor(sos), persistent=False)
+
+    def _filter(self, x: torch.Tensor) -> torch.Tensor:
+        for section in self.sos:
+            x = lfilter(x, section[3:], section[:3], clamp=False)
+        return x
+
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         r"""
         Apply the filter to the input signal.
@@ -95,4 +99,4 @@ class IIRFilter(torch.nn.Module):
         Returns:
             The filtered signal.
         """
-        return filtfilt(x, self.a, self.b, clamp=False)
+        return self._filter(self._filter(x).flip(-1)).flip(-1)
-- 
2.43.0


From 73c5ee535372aa5caef4d9e74668bdb37fba4cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 30/43] fix: generator frequency grid spans exactly the chirp
 length at every sample rate

---
 ml4gw/waveforms/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 15e9d3b..7469275 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -110,7 +110,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
 
     def get_frequencies(self, df: float):
         """Get the frequencies from 0 to nyquist for corresponding df"""
-        num_freqs = int(self.nyquist / df) + 1
+        num_freqs = round(float(self.nyquist / df)) + 1
         return torch.linspace(0, self.nyquist, num_freqs)
 
     def generate_conditioned_fd_waveform(
-- 
2.43.0


From 28cbf00fe9cf7e6847ae35a001dd4f9701f39b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 31/43] fix: generator leaves room for right_pad so that the
 waveform does not wrap around

---
 ml4gw/waveforms/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 7469275..e9ace7a 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -184,9 +184,12 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
             fstart, mass_1, mass_2, s1z, s2z
         )
 
-        # chirp length in samples
+        # chirp length in samples; the extra time after the coalescence
+        # must also hold ``right_pad``, or the time translation below
+        # would wrap the start of the waveform around
+        textra_end = torch.clamp(textra, min=self.right_pad)
         chirplen = torch.round(
-            (tchirp_fstart + tmerge + 2.0 * textra) * self.sample_rate
+            (tchirp_fstart + tmerge + textra + textra_end) * self.sample_rate
         )
 
         # pad to next power of 2
-- 
2.43.0


From 433826dbefaead4fd8109cb96f995f6aec9e8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 32/43] fix: spline interpolators moved to another precision
 accept new output coordinates

---
 ml4gw/transforms/spline_interpolation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 23622a7..6a82ea7 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -112,7 +112,7 @@ class SplineInterpolateBase(torch.nn.Module):
         Returns:
             b: Tensor containing the zeroth-order B-spline basis functions.
         """
-        b = torch.zeros((n, m, k + 1))
+        b = torch.zeros((n, m, k + 1), dtype=t.dtype, device=t.device)
 
         mask_lower = t[: m + 1].unsqueeze(0)[:, :-1] <= x.unsqueeze(1)
         mask_upper = x.unsqueeze(1) < t[: m + 1].unsqueeze(0)[:, 1:]
@@ -145,7 +145,7 @@ class SplineInterpolateBase(torch.nn.Module):
         # calculate zeroth order basis funciton
         b = self.zeroth_order(x, k, t, n, m)
 
-        zeros_tensor = torch.zeros(b.shape[0], 1)
+        zeros_tensor = b.new_zeros(b.shape[0], 1)
         # recursive de Boors formula for bspline basis functions
         for d in range(1, k + 1):
             L, R = self.compute_L_R(x, t, d, m)
@@ -313,7 +313,7 @@ class SplineInterpolate1D(SplineInterpolateBase):
         # an override only applies to this call
         Bx_out = None
         if x_out is not None:
-            x_out = x_out.float()
+            x_out = x_out.to(self.tx)
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
@@ -532,13 +532,13 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # overrides only apply to this call
         Bx_out = By_out = None
         if x_out is not None:
-            x_out = x_out.float()
+            x_out = x_out.to(self.tx)
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
             Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
         if y_out is not None:
-            y_out = y_out.float()
+            y_out = y_out.to(self.ty)
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-- 
2.43.0


From 8acc782a57cb8d68195d75da7e35e39581a86ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 33/43] fix: spline-interpolated Q-transform stays usable when
 moved to double

---
 ml4gw/transforms/qtransform.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 10061eb..d9c79b6 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -374,7 +374,11 @@ class SingleQTransform(torch.nn.Module):
             )
         if self.interpolation_method == "spline":
             qtiles = [
-                torch.stack([self.qtiles[i] for i in idx], dim=-2)
+                # tiles are interpolated in the precision of the interpolators,
+                # which need not be the one they were computed in
+                torch.stack([self.qtiles[i] for i in idx], dim=-2).to(
+                    self.interpolator.x_in.dtype
+                )
                 for idx in self.stack_idx
             ]
             time_interped = torch.cat(
-- 
2.43.0


From f1843d2f2c979ca58dfbfece407fc94b00951fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 34/43] fix: Pearson coefficients of strain-sized single
 precision series no longer underflow

---
 ml4gw/transforms/pearson.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ml4gw/transforms/pearson.py b/ml4gw/transforms/pearson.py
index 8f75dd8..8e9493b 100644
--- a/ml4gw/transforms/pearson.py
+++ b/ml4gw/transforms/pearson.py
@@ -81,6 +81,11 @@ class ShiftedPearsonCorrelation(torch.nn.Module):
         x = x - x.mean(-1, keepdims=True)
         y = y - y.mean(-1, keepdims=True)
 
+        # the coefficient doesn't depend on the scale of either
+        # series, but their squares may under- or overflow
+        x = x / x.abs().amax(-1, keepdims=True)
+        y = y / y.abs().amax(-1, keepdims=True)
+
         # apply formula and sum along time dimension to give final shape
         # num_windows x batch x channels
         corr = (x * y).sum(axis=-1)
-- 
2.43.0


From 16092921cec1068bf6e51c980f1db7b5333f99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 35/43] fix: normalized Q-tiles of strain-sized single
 precision series no longer underflow

---
 ml4gw/transforms/qtransform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index d9c79b6..cb75787 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -140,6 +140,10 @@ class QTile(torch.nn.Module):
         wenergy = torch.fft.ifftshift(padded, dim=-1)
 
         tdenergy = torch.fft.ifft(wenergy)
+        if norm:
+            # the scale drops out of the normalized energy, but
+            # squaring small amplitudes could underflow
+            tdenergy = tdenergy / tdenergy.abs().amax(dim=-1, keepdim=True)
         energy = tdenergy.real**2.0 + tdenergy.imag**2.0
         if norm:
             norm = norm.lower() if isinstance(norm, str) else norm
-- 
2.43.0


From d7a4dca0cc4f58f59bf2f9dbd0af3ee3a3d54c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 36/43] fix: fit spectral transforms on background held on any
 device

The Welch window was always made on the CPU, so fitting FixedWhiten or
SnrRescaler to a time-domain background on an accelerator failed.
---
 ml4gw/transforms/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index 8b19a68..ef779b6 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -59,7 +59,9 @@ class FittableSpectralTransform(FittableTransform):
             overlap = overlap or fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
-            window = torch.hann_window(nperseg, dtype=torch.float64)
+            window = torch.hann_window(
+                nperseg, dtype=torch.float64, device=x.device
+            )
             scale = 1.0 / (sample_rate * (window**2).sum())
             x = spectral_density(
                 x,
-- 
2.43.0


From 3ee7a94c09c1a7a2371579ddfd4c32a2110aef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 37/43] fix: start a Snapshotter stream on the device of its
 first update

Without an explicit snapshot the initial state was made on the CPU and could
not be joined to an update that lives on an accelerator.
---
 ml4gw/nn/streaming/snapshotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/snapshotter.py b/ml4gw/nn/streaming/snapshotter.py
index 0ca4893..50431d6 100644
--- a/ml4gw/nn/streaming/snapshotter.py
+++ b/ml4gw/nn/streaming/snapshotter.py
@@ -90,7 +90,7 @@ class Snapshotter(torch.nn.Module):
         snapshot: Float[Tensor, "channel time2"] | None = None,
     ) -> tuple[Tensor, ...]:
         if snapshot is None:
-            snapshot = self.get_initial_state()
+            snapshot = self.get_initial_state().to(update.device)
 
         # append new data to the snapshot
         snapshot = torch.cat([snapshot, update], axis=-1)
-- 
2.43.0


From 5539d191a83bc5dfaf5533ad29100ed3b068ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 38/43] fix: Heterodyne gradients were nan

The phase is nan at zero frequency. The output is zeroed there, but the
gradient of that product is still nan and the inverse transforms spread it
over every sample.
---
 ml4gw/transforms/heterodyne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 15f2252..d92a825 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -103,6 +103,10 @@ class Heterodyne(torch.nn.Module):
                 Tensor of shape `(M, F)` containing complex phase factors.
         """
         phase = torch.exp((3j / 128) * (self.pi_m_f ** (-5 / 3)))
+        # the phase is undefined at zero frequency, which is
+        # removed from the transform: a nan there would still
+        # turn every gradient into nan
+        phase[..., 0] = 0
         return phase
 
     def forward(
-- 
2.43.0


From 2961cacb2e1ee103e515b41078ad88746be86163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 39/43] fix: fitting a spectral transform with overlap=0 no
 longer overlaps segments by half

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index ef779b6..a56b941 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -56,7 +56,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(
-- 
2.43.0


From e436021541e568f9b89118f1114f2f141375fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:18 +0000
Subject: [PATCH 40/43] fix: sample_kernels samples no kernels when asked for
 none

---
 ml4gw/utils/slicing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 93b17dd..e637465 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -357,7 +357,7 @@ def sample_kernels(
     if X.ndim == 3 or coincident:
         # sampling coincidentally, so just need a single
         # index for each element in the output batch
-        N = N or len(X)
+        N = len(X) if N is None else N
         shape = (N,)
     else:
         # otherwise, each channel in each batch sample
-- 
2.43.0


From c54b9e97b7ad90fa15ac3a9fd77d0a08dbde101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 41/43] fix: Decimator takes schedules with times that are not
 exact in floating point

---
 ml4gw/transforms/decimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 4ccd1f5..f2c60e1 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -110,10 +110,8 @@ class Decimator(torch.nn.Module):
         idx = self.build_variable_indices()
         self.register_buffer("idx", idx)
 
-        self.expected_len = int(
-            (self.schedule[:, 1][-1] - self.schedule[:, 0][0])
-            * self.sample_rate
-        )
+        duration = self.schedule[:, 1][-1] - self.schedule[:, 0][0]
+        self.expected_len = int(torch.round(duration * self.sample_rate))
 
     def _validate_inputs(self) -> None:
         r"""
@@ -158,8 +156,9 @@ class Decimator(torch.nn.Module):
     def _segment_indices(self, s: torch.Tensor) -> torch.Tensor:
         # the first input sample corresponds to the start of the schedule
         origin = self.schedule[0, 0]
-        start = int((s[0] - origin) * self.sample_rate)
-        stop = int((s[1] - origin) * self.sample_rate)
+        # times needn't be exact in floating point
+        start = int(torch.round((s[0] - origin) * self.sample_rate))
+        stop = int(torch.round((s[1] - origin) * self.sample_rate))
         step = int(self.sample_rate // s[2])
         return torch.arange(
             start,
-- 
2.43.0


From dff9656e5be7447d7b4bc5541c242775ca690ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 42/43] fix: LeakyIntegrator does not lose precision over long
 timeseries

---
 ml4gw/transforms/integrator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index f7603f9..cdd4c38 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -106,11 +106,13 @@ class LeakyIntegrator(torch.nn.Module):
         )
         # Compute how much the output changes at each step
         score_delta = torch.where(x >= self.threshold, increment, -self.decay)
-        # Calculate the raw sum, not accounting for the lower bound
-        raw_sum = torch.cumsum(score_delta, dim=-1)
+        # Calculate the raw sum, not accounting for the lower bound.
+        # Over a long timeseries this may get much larger than the
+        # output, so sum in double precision
+        raw_sum = torch.cumsum(score_delta.double(), dim=-1)
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
         offset = torch.minimum(offset, torch.zeros_like(offset))
 
-        return raw_sum - offset
+        return (raw_sum - offset).to(score_delta.dtype)
-- 
2.43.0


From c270309b6ceffccb1b18e9adc3913247edf20e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:07 +0000
Subject: [PATCH 43/43] fix: failed compute_qtiles no longer changes the shape
 of the previous tiles' transform

---
 ml4gw/transforms/qtransform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index cb75787..39948a2 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -366,10 +366,12 @@ class SingleQTransform(torch.nn.Module):
         for each ``QTile``
         """
         # Computing the FFT with the same normalization and scaling as GWpy
-        self.input_ndim = X.ndim
+        input_ndim = X.ndim
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
         self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        # only now, so that a failure above leaves the previous tiles usable
+        self.input_ndim = input_ndim
 
     def interpolate(self) -> TimeSeries3d:
         if self.qtiles is None:
-- 
2.43.0

