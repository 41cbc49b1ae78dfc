From 5c29c3852acb33fc9b3b3fffc81220a52fc23c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 01/46] fix: return the lagged value with the state from
 Lag(return_state=True)

---
 src/wax/modules/lag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wax/modules/lag.py b/src/wax/modules/lag.py
index 36c724f..e762c22 100644
--- a/src/wax/modules/lag.py
+++ b/src/wax/modules/lag.py
@@ -29,6 +29,9 @@ class Lag(Buffer):
         self.lag = lag
 
     def __call__(self, x):
+        if self.return_state:
+            buffer, buffer_state = super().__call__(x)
+            return buffer[0], buffer_state
         buffer = super().__call__(x)
         return buffer[0]
 
-- 
2.43.0


From e0b72e60d0a31e4011a574dec81048876a16c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 02/46] fix: pass the input to Lag in PctChange without forward
 fill

---
 src/wax/modules/pct_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 7525485..11259fb 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -54,7 +54,7 @@ class PctChange(hk.Module):
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
-            previous_x = Lag(self.periods)()
+            previous_x = Lag(self.periods)(x)
         pct_change = x / previous_x - 1.0
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
-- 
2.43.0


From 47b571ebb3fea6f00a769275d94f3ba461123f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 03/46] fix: subtract the mean along the reduced axis in
 MaskStd

---
 src/wax/modules/mask_std.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/modules/mask_std.py b/src/wax/modules/mask_std.py
index 8d32888..3bfcf98 100644
--- a/src/wax/modules/mask_std.py
+++ b/src/wax/modules/mask_std.py
@@ -56,6 +56,8 @@ class MaskStd(hk.Module):
             if self.assume_centered:
                 diff = x
             else:
+                if self.axis is not None:
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x - mean
 
             diff = ApplyMask()(mask, diff)
-- 
2.43.0


From 7f79ac37ef9782c70737a19be667f46874b4ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 04/46] fix: divide by the std along the reduced axis in
 MaskNormalize

---
 src/wax/flax/modules/mask_normalize.py | 2 ++
 src/wax/modules/mask_normalize.py      | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index f8a8498..fae405c 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -52,6 +52,8 @@ class MaskNormalize(nn.Module):
         def normalize_fn(x):
             # Compute standard deviation over masked regions
             x_std = self.mask_std(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
 
             # Normalize by dividing by standard deviation
             x_normalized = x / x_std
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index e7067df..f7d6fd1 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -14,6 +14,7 @@
 """Normalize data by its standard deviation computed with a mask."""
 
 import haiku as hk
+import jax.numpy as jnp
 from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
@@ -45,6 +46,8 @@ class MaskNormalize(hk.Module):
 
         def normalize(x):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
+            if self.axis is not None:
+                x_std = jnp.expand_dims(x_std, self.axis)
             x_normalized = FillNanInf()(x / x_std)
             return x_normalized
 
-- 
2.43.0


From a01dbd21b68a8b2092b768520ee6ab497ab0616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 05/46] fix: use the NaN-filled data for the deviations in the
 Flax MaskStd

---
 src/wax/flax/modules/mask_std.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 967b86b..22c19c6 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -74,7 +74,7 @@ class MaskStd(nn.Module):
                         mean = mean[None, ...] if x.ndim > 1 else mean
                     elif self.axis == 1:
                         mean = mean[..., None] if x.ndim > 1 else mean
-                diff = x - mean
+                diff = x_masked - mean
 
                 # Re-mask the differences
                 diff = self.apply_mask(mask, diff)
-- 
2.43.0


From 3e13e6a92988a9d94d46be58e31d253dff263e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 06/46] fix: ignore missing values in the bars of the Flax OHLC

---
 src/wax/flax/modules/ohlc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 6786b26..31c54e8 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -75,7 +75,7 @@ class OHLC(nn.Module):
         current_open = open_val.value
         current_high = high_val.value
         current_low = low_val.value
-        # The previous close is never needed: CLOSE is always the latest input.
+        current_close = close_val.value
 
         # Determine if this is the first valid input or a reset
         is_first_or_reset = should_reset | jnp.isnan(current_open)
@@ -84,13 +84,13 @@ class OHLC(nn.Module):
         new_open = jnp.where(is_first_or_reset, input, current_open)
 
         # Update HIGH: max of current high and input, or input if first/reset
-        new_high = jnp.where(is_first_or_reset, input, jnp.maximum(current_high, input))
+        new_high = jnp.where(is_first_or_reset, input, jnp.fmax(current_high, input))
 
         # Update LOW: min of current low and input, or input if first/reset
-        new_low = jnp.where(is_first_or_reset, input, jnp.minimum(current_low, input))
+        new_low = jnp.where(is_first_or_reset, input, jnp.fmin(current_low, input))
 
-        # Update CLOSE: always set to current input
-        new_close = input
+        # Update CLOSE: set to current input, unless it is missing
+        new_close = jnp.where(should_reset | ~jnp.isnan(input), input, current_close)
 
         # Update state variables
         open_val.value = new_open
-- 
2.43.0


From ce9fac22b306d3e4b21bf44e84b7088856b2f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 07/46] fix: do not repeat the first secondary observation in
 lookback buffers

---
 src/wax/stream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f45c037..8f409f5 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -634,6 +634,12 @@ class Stream:
 
         original_streams = streams.copy()
         local_time = self.get_local_time(streams)
+
+        # a stream repeats its first observation after having yield it for initialization.
+        for time_dim, stream in streams.items():
+            if time_dim != local_time:
+                stream_obs[time_dim] = next(stream)
+
         while True:
             # local loop
             streams = original_streams.copy()
-- 
2.43.0


From f62d7ac6429371ad7cc49a2dab4616bead71b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 08/46] fix: mark missing rows of multi-dimensional data read
 through a lookback buffer

---
 src/wax/stream.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 8f409f5..f50fb03 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -357,11 +357,13 @@ def access_data(step: int, x: Any, idx: Any):
         idx : predifined access index.
     """
     step_idx = idx[step]
-    # output = x[step_idx]
+    output = jnp.atleast_1d(x)[step_idx]
+    # indices run over the first dimensions of the accessed data
+    is_missing = jnp.reshape(step_idx < 0, step_idx.shape + (1,) * (output.ndim - step_idx.ndim))
     output = jnp.where(
-        step_idx < 0,
-        jnp.full_like(jnp.atleast_1d(x)[step_idx], DTYPE_INIT_VALUES[x.dtype.type]),
-        jnp.atleast_1d(x)[step_idx],
+        is_missing,
+        jnp.full_like(output, DTYPE_INIT_VALUES[x.dtype.type]),
+        output,
     )
     return output
 
-- 
2.43.0


From 375ba7a42ceaff49b91004ead19e6ce85fa2938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 09/46] fix: read variables without time dimension in full at
 every step

---
 src/wax/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index f50fb03..212c447 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -224,10 +224,10 @@ def get_dataset_index(dataset: xr.Dataset, time_dataset_index: xr.Dataset) -> xr
                 dataset_index[dim] = xr.DataArray(onp.arange(n_steps), dims=("step",))
             else:
                 values_atleast_1d = onp.atleast_1d(var.values)
-                # grid = onp.indices(values_atleast_1d.shape)
-                flat_idx = onp.arange(len(values_atleast_1d.ravel()))
+                # select all the elements of the first dimension at each step
+                flat_idx = onp.arange(len(values_atleast_1d))
                 dataset_index[dim] = xr.DataArray(
-                    onp.outer(onp.arange(n_steps), flat_idx),
+                    onp.tile(flat_idx, (n_steps, 1)),
                     dims=("step", cast(str, dim) + "_flat_idx"),
                 )
     return dataset_index
-- 
2.43.0


From 8c6fe3fd3780b3d25f76458edcf2b0a981a998e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 10/46] fix: collect each output separately in
 unroll_stream(skip_first=True)

---
 src/wax/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/stream.py b/src/wax/stream.py
index 212c447..fc953a4 100644
--- a/src/wax/stream.py
+++ b/src/wax/stream.py
@@ -303,7 +303,7 @@ def unroll_stream(
     # stream_scan
     def _init_outputs():
         if skip_first:
-            return [[]] * num_leaves
+            return [[] for _ in range(num_leaves)]
         else:
             return [[x] for x in obs_flat]
 
-- 
2.43.0


From adc99164fb351655ecbb27fe435adf2cf6629474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 11/46] fix: keep the first output of
 gym_static_unroll(skip_first=False)

---
 src/wax/unroll.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index b7f7dec..9d06e47 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -417,8 +417,7 @@ def gym_static_unroll(gym_fun, params, state, seq, skip_first, data_generator, p
     if not skip_first:
         y, state = gym_fun.apply(params, state, next(seq), obs)
         y, treedef = tree_flatten(y)
-        if ys is None:
-            ys = tuple([] for _ in y)
+        ys = tuple([y_] for y_ in y)
 
     if pbar:
         data_generator = tqdm(data_generator, desc="gym_static_unroll")
-- 
2.43.0


From 42d23c5db05ca7e2286c4222e9a7d8cfdb3e31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 12/46] fix: use the given rng key in
 transform_batch_with_state

---
 src/wax/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/transform.py b/src/wax/transform.py
index dd8037a..588c8aa 100644
--- a/src/wax/transform.py
+++ b/src/wax/transform.py
@@ -54,10 +54,11 @@ def transform_batch_with_state(fun, skip_first=False):
     def apply(params, state, key, xs):
         # params is not used ... (and is empty)
         # replace state rng_key by given rng_key
+        init_state = BatchState(state.fun_params, state.fun_state, key)
         # we drop the first observation because it has been used in initialization....
         if skip_first:
             xs = tree_map(lambda x: x[1:], xs)
-        final_state, output_sequence = jax.lax.scan(scan_f, init=state, xs=xs)
+        final_state, output_sequence = jax.lax.scan(scan_f, init=init_state, xs=xs)
         assert isinstance(final_state, BatchState)
         return output_sequence, final_state
 
-- 
2.43.0


From 4f2879c403ae2377cc4dba4d9ee99acf39ec95de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 13/46] fix: support static_scan without a sequence

---
 src/wax/unroll.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wax/unroll.py b/src/wax/unroll.py
index 9d06e47..244a2c9 100644
--- a/src/wax/unroll.py
+++ b/src/wax/unroll.py
@@ -257,11 +257,10 @@ def static_scan(scan_f, init, xs=None, length=None, pbar=False):
     Note:  Python implementation of jax.lax.scan
     See https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.scan.html#jax-lax-scan
     """
-    if xs is None:
-        xs = [None] * length
+    steps = [None] * length if xs is None else iter_first_axis(xs, pbar=pbar)
     carry = init
     ys = None
-    for x in iter_first_axis(xs, pbar=pbar):
+    for x in steps:
         carry, y = scan_f(carry, x)
 
         y, treedef = tree_flatten(y)
-- 
2.43.0


From 63eb5327025f03586c1213583605bd5cf69f8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 14/46] fix: accept an rng key in the scan of streaming_scan

---
 src/wax/flax/core/streaming_transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 6583ab4..5d37c25 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -671,7 +671,8 @@ def streaming_scan(
             if params is None or state is None:
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
-                params, state = streaming_fn.init(rng or jax.random.PRNGKey(0), sample_input)
+                init_rng = jax.random.PRNGKey(0) if rng is None else rng
+                params, state = streaming_fn.init(init_rng, sample_input)
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From cf0faecba9d39588ece93f98a7f9a1df6ba6d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 15/46] fix: leave the state given to the numba ewma unchanged

---
 src/wax/numba/ewma_numba.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 4bdca13..6fde574 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -115,9 +115,10 @@ def ewma(
 
         if state is None:
             state = init_ewma_state(values)
-        mean = state.mean
-        old_wt = state.old_wt
-        nobs = state.nobs
+        # numba_apply works in place: keep the given state unchanged
+        mean = np.copy(state.mean)
+        old_wt = np.copy(state.old_wt)
+        nobs = np.copy(state.nobs)
 
         res, mean, old_wt, nobs = numba_apply(values, mean, old_wt, nobs)
         state = EWMAState(mean, old_wt, nobs)
-- 
2.43.0


From 20d3f4246ffde596ad2df92359db2dde82640851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 16/46] fix: support stateful models in FuncOptimizer

Initialise with transform_with_state and use hk.value_and_grad, so that the state updated by the model does not leak out of the gradient computation.
---
 src/wax/modules/func_optimizer.py | 3 +--
 src/wax/modules/update_params.py  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wax/modules/func_optimizer.py b/src/wax/modules/func_optimizer.py
index 309b82d..fe18ba6 100644
--- a/src/wax/modules/func_optimizer.py
+++ b/src/wax/modules/func_optimizer.py
@@ -14,7 +14,6 @@
 from collections.abc import Callable
 
 import haiku as hk
-import jax
 import jax.numpy as jnp
 
 from wax.modules import FillNanInf
@@ -64,7 +63,7 @@ class FuncOptimizer(hk.Module):
             ),
         )
         func = UpdateParams(self.func, params_predicate=self.params_predicate)
-        results, grads = jax.value_and_grad(func, has_aux=self.has_aux)(
+        results, grads = hk.value_and_grad(func, has_aux=self.has_aux)(
             trainable_params, *args, **kwargs
         )
         if self.grads_fill_nan_inf:
diff --git a/src/wax/modules/update_params.py b/src/wax/modules/update_params.py
index d7397f2..869dd4a 100644
--- a/src/wax/modules/update_params.py
+++ b/src/wax/modules/update_params.py
@@ -71,8 +71,8 @@ def get_init_params(
     **kwargs,
 ):
     init_rng = hk.next_rng_key() if hk.running_init() else None
-    init, _ = hk.transform(func)
-    params = init(init_rng, *args, **kwargs)
+    init, _ = hk.transform_with_state(func)
+    params, _ = init(init_rng, *args, **kwargs)
 
     if params_predicate:
         trainable_params: Any
-- 
2.43.0


From 58f6018354d3d5bd5d5c2341e2ec89fe62f42148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 17/46] fix: pass the parameters to the optax transformation in
 OptaxOptimizer

---
 src/wax/modules/optax_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/modules/optax_optimizer.py b/src/wax/modules/optax_optimizer.py
index d342bf6..1917cc4 100644
--- a/src/wax/modules/optax_optimizer.py
+++ b/src/wax/modules/optax_optimizer.py
@@ -29,7 +29,7 @@ class OptaxOptimizer(hk.Module):
 
     def __call__(self, params, grads):
         opt_state = hk.get_state("opt_state", [], init=lambda *_: self.opt.init(params))
-        updates, opt_state = self.opt.update(grads, opt_state)
+        updates, opt_state = self.opt.update(grads, opt_state, params)
         params = optax.apply_updates(params, updates)
         hk.set_state("opt_state", opt_state)
         return params
-- 
2.43.0


From cac5760b069d3eefa7eff97bafb27f374a8e5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 18/46] fix: apply the ARMA coefficients to the lags in order

The first coefficient applies to the most recent value, as in the reference reproduced by the documentation.
---
 src/wax/modules/arma.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wax/modules/arma.py b/src/wax/modules/arma.py
index 4648ef6..6b3c77c 100644
--- a/src/wax/modules/arma.py
+++ b/src/wax/modules/arma.py
@@ -38,7 +38,8 @@ class ARMA(hk.Module):
             init=lambda shape, dtype: jnp.zeros(((len(self.alpha),) + shape), dtype=dtype),
         )
 
-        y = self.alpha @ y_buffer + self.beta @ eps_buffer + eps
+        # buffers are sorted from the oldest to the newest value
+        y = self.alpha @ y_buffer[::-1] + self.beta @ eps_buffer[::-1] + eps
 
         y = FillNanInf()(y)
 
-- 
2.43.0


From 14e61ad7f3129779890fbee2a77ae425e0894043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 19/46] fix: feed past outputs to the autoregressive part of
 the Flax ARMA

The history was filled with zeros at each step, and coefficients were broadcast against the wrong axis for vector inputs.
---
 src/wax/flax/modules/arma.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/wax/flax/modules/arma.py b/src/wax/flax/modules/arma.py
index 777aa23..31dbc1d 100644
--- a/src/wax/flax/modules/arma.py
+++ b/src/wax/flax/modules/arma.py
@@ -29,7 +29,7 @@ class ARMA(nn.Module):
     moving average (MA) components for time-series processing.
 
     The ARMA model is defined as:
-    y[t] = sum(alpha[i] * y[t-i]) + sum(beta[j] * eps[t-j])
+    y[t] = eps[t] + sum(alpha[i] * y[t-1-i]) + sum(beta[j] * eps[t-1-j])
 
     where:
     - alpha: AR coefficients
@@ -55,11 +55,12 @@ class ARMA(nn.Module):
 
         # MA buffer stores previous inputs (noise terms)
         if len(self.beta) > 0:
-            self.ma_buffer = Buffer(maxlen=len(self.beta), fill_value=0.0)
+            self.ma_buffer = Buffer(maxlen=len(self.beta) + 1, fill_value=0.0)
 
         # Module for handling NaN/Inf values
         self.fill_nan_inf = FillNanInf()
 
+    @nn.compact
     def __call__(self, eps: jnp.ndarray) -> jnp.ndarray:
         """Apply ARMA filter to input noise term.
 
@@ -77,31 +78,35 @@ class ARMA(nn.Module):
 
         # Autoregressive component: sum(alpha[i] * y[t-i])
         if len(self.alpha) > 0:
-            # Get previous outputs from AR buffer (placeholder initialization)
-            # Get current state; the buffer is built with return_state left at
-            # its default (False), so the call yields the array alone.
-            ar_history = cast(jnp.ndarray, self.ar_buffer(jnp.zeros_like(output)))
+            # Previous outputs, from the oldest to the newest
+            y_history = self.variable(
+                "state",
+                "y_history",
+                lambda: jnp.zeros((len(self.alpha),) + eps.shape, eps.dtype),
+            )
 
             # Compute AR contribution
-            ar_contribution = jnp.sum(self.alpha * ar_history)
+            ar_contribution = jnp.tensordot(self.alpha[::-1], y_history.value, axes=1)
             output = output + ar_contribution
 
         # Moving average component: sum(beta[j] * eps[t-j])
         if len(self.beta) > 0:
-            # Get previous inputs from MA buffer
-            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))
+            # Get previous inputs from MA buffer, without the current one. The buffer
+            # is built with return_state left at its default (False), so the call
+            # yields the array alone.
+            ma_history = cast(jnp.ndarray, self.ma_buffer(eps))[:-1]
 
             # Compute MA contribution
-            ma_contribution = jnp.sum(self.beta * ma_history)
+            ma_contribution = jnp.tensordot(self.beta[::-1], ma_history, axes=1)
             output = output + ma_contribution
 
-        # Update AR buffer with current output
-        if len(self.alpha) > 0:
-            self.ar_buffer(output)  # Store current output for next iteration
-
         # Handle NaN/Inf values
         output = self.fill_nan_inf(output)
 
+        # Update AR buffer with current output
+        if len(self.alpha) > 0:
+            y_history.value = self.ar_buffer(output)
+
         return output
 
 
-- 
2.43.0


From 07263323ec2086997e5c6ddd796d00160abfc537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 20/46] fix: accept the default predicate in the Flax
 UpdateParams and OnlineOptimizer

Module attributes cannot be assigned in setup, so every use without a predicate raised.
---
 src/wax/flax/modules/online_optimizer.py | 9 +++++----
 src/wax/flax/modules/update_params.py    | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index b09e228..5743faa 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -52,10 +52,11 @@ class OnlineOptimizer(nn.Module):
     def setup(self):
         """Setup the OnlineOptimizer module."""
         # Set default predicate if none provided
-        if self.params_predicate is None:
-            from wax.predicate import pass_all_predicate
+        from wax.predicate import pass_all_predicate
 
-            self.params_predicate = pass_all_predicate
+        self.is_trainable = (
+            self.params_predicate if self.params_predicate is not None else pass_all_predicate
+        )
 
         # Wrap optimizer if it's not already an OptaxOptimizer
         if not isinstance(self.opt, OptaxOptimizer):
@@ -134,7 +135,7 @@ class OnlineOptimizer(nn.Module):
 
             for key, value in flat_params.items():
                 path = key.split("/")
-                if self.params_predicate(path[0] if path else "", path[-1] if path else "", value):
+                if self.is_trainable(path[0] if path else "", path[-1] if path else "", value):
                     trainable[key] = value
                 else:
                     non_trainable[key] = value
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7d39d2e..7021598 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -34,10 +34,9 @@ class UpdateParams(nn.Module):
     def setup(self):
         """Setup the UpdateParams module."""
         # Set default predicate if none provided
-        if self.predicate is None:
-            from wax.predicate import pass_all_predicate
+        from wax.predicate import pass_all_predicate
 
-            self.predicate = pass_all_predicate
+        self.is_trainable = self.predicate if self.predicate is not None else pass_all_predicate
 
     @nn.compact
     def __call__(self, *args, **kwargs) -> Any:
@@ -80,7 +79,7 @@ class UpdateParams(nn.Module):
         """
         if not isinstance(params, dict):
             # If params is not a dict, treat as single parameter
-            if self.predicate("", "", params):
+            if self.is_trainable("", "", params):
                 return params, {}
             else:
                 return {}, params
@@ -98,7 +97,7 @@ class UpdateParams(nn.Module):
             param_name = path_parts[-1] if len(path_parts) > 0 else ""
 
             # Apply predicate to determine if parameter is trainable
-            if self.predicate(module_name, param_name, value):
+            if self.is_trainable(module_name, param_name, value):
                 trainable[key] = value
             else:
                 non_trainable[key] = value
-- 
2.43.0


From 237bb9af7bdfacb83164f789d150fc389f9b1154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 21/46] fix: merge parameters of partly trained modules in the
 Flax optimizers

A module with both kinds of parameters lost its non trainable ones.
---
 src/wax/flax/modules/online_optimizer.py | 17 +++++++++--------
 src/wax/flax/modules/update_params.py    |  7 +++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/wax/flax/modules/online_optimizer.py b/src/wax/flax/modules/online_optimizer.py
index 5743faa..64bf275 100644
--- a/src/wax/flax/modules/online_optimizer.py
+++ b/src/wax/flax/modules/online_optimizer.py
@@ -125,12 +125,12 @@ class OnlineOptimizer(nn.Module):
             state = {}
 
         # Partition parameters into trainable and non-trainable
+        from flax.traverse_util import flatten_dict, unflatten_dict
+
         def partition_params(params):
             trainable = {}
             non_trainable = {}
 
-            from flax.traverse_util import flatten_dict, unflatten_dict
-
             flat_params = flatten_dict(params, sep="/")
 
             for key, value in flat_params.items():
@@ -142,14 +142,17 @@ class OnlineOptimizer(nn.Module):
 
             return unflatten_dict(trainable, sep="/"), unflatten_dict(non_trainable, sep="/")
 
+        def merge_params(trainable, non_trainable):
+            merged = flatten_dict(non_trainable, sep="/")
+            merged.update(flatten_dict(trainable, sep="/"))
+            return unflatten_dict(merged, sep="/")
+
         trainable_params, non_trainable_params = partition_params(params)
 
         # Define loss function for gradient computation
         def loss_fn(trainable_params):
             # Merge trainable and non-trainable params
-            merged_params = {}
-            merged_params.update(non_trainable_params)
-            merged_params.update(trainable_params)
+            merged_params = merge_params(trainable_params, non_trainable_params)
 
             # Compute model output
             result = model_fn(merged_params, state, *args, **kwargs)
@@ -185,9 +188,7 @@ class OnlineOptimizer(nn.Module):
             updated_trainable_params = self.project_params(updated_trainable_params)
 
         # Merge back updated parameters
-        updated_params = {}
-        updated_params.update(non_trainable_params)
-        updated_params.update(updated_trainable_params)
+        updated_params = merge_params(updated_trainable_params, non_trainable_params)
 
         # Update model variables
         if "params" in current_vars:
diff --git a/src/wax/flax/modules/update_params.py b/src/wax/flax/modules/update_params.py
index 7021598..cf0b85b 100644
--- a/src/wax/flax/modules/update_params.py
+++ b/src/wax/flax/modules/update_params.py
@@ -129,10 +129,9 @@ class UpdateParams(nn.Module):
 
         # For dictionaries, merge recursively
         if isinstance(trainable_params, dict) and isinstance(non_trainable_params, dict):
-            result = {}
-            result.update(non_trainable_params)
-            result.update(trainable_params)
-            return result
+            result = flatten_dict(non_trainable_params, sep="/")
+            result.update(flatten_dict(trainable_params, sep="/"))
+            return unflatten_dict(result, sep="/")
 
         # For other types, prefer trainable parameters
         return trainable_params
-- 
2.43.0


From cfc1120b4463af7ead4038e7f52cf9111ac886e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 22/46] fix: train the parameters of Flax modules in the Flax
 OnlineSupervisedLearner

The function optimizer was given a closure without parameters, so nothing was learned.
---
 .../flax/modules/online_supervised_learner.py  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/online_supervised_learner.py b/src/wax/flax/modules/online_supervised_learner.py
index 38651a7..90bb39e 100644
--- a/src/wax/flax/modules/online_supervised_learner.py
+++ b/src/wax/flax/modules/online_supervised_learner.py
@@ -22,6 +22,17 @@ import jax.numpy as jnp
 from .func_optimizer import FuncOptimizer
 
 
+class _ModelWithLoss(nn.Module):
+    """A model with its loss. It returns the loss and the predictions."""
+
+    model: nn.Module
+    loss_fn: Callable
+
+    def __call__(self, x: jnp.ndarray, y: jnp.ndarray) -> tuple[jnp.ndarray, jnp.ndarray]:
+        predictions = self.model(x)
+        return self.loss_fn(predictions, y), predictions
+
+
 class OnlineSupervisedLearner(nn.Module):
     """Flax-based online supervised learning module.
 
@@ -49,9 +60,14 @@ class OnlineSupervisedLearner(nn.Module):
             # Return loss and predictions as auxiliary data
             return loss, predictions
 
+        # The parameters of a module are trained, so they belong to the optimizer
+        fun = model_loss_fn
+        if isinstance(self.model, nn.Module):
+            fun = _ModelWithLoss(model=self.model, loss_fn=self.loss_fn)
+
         # Create function optimizer
         self.func_optimizer = FuncOptimizer(
-            fun=model_loss_fn,
+            fun=fun,
             opt=self.opt,
             has_aux=True,  # Returns predictions as auxiliary data
             params_predicate=self.params_predicate,
-- 
2.43.0


From 385a44bb4101890f0fc7f74046c5dd7af95efcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:01 +0000
Subject: [PATCH 23/46] fix: use the Sherman-Morrison denominator of non
 symmetric matrices

---
 src/wax/optim/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wax/optim/newton.py b/src/wax/optim/newton.py
index 0349d5f..cecfaec 100644
--- a/src/wax/optim/newton.py
+++ b/src/wax/optim/newton.py
@@ -54,7 +54,7 @@ class ScaleByNewtonState(NamedTuple):
 
 
 def sherman_morrison(A_inv, u, v):
-    den = 1.0 + (u @ A_inv) @ v
+    den = 1.0 + (v @ A_inv) @ u
     A_inv -= A_inv @ jnp.outer(u, v) @ A_inv / den
     return A_inv
 
-- 
2.43.0


From a8b0859d857de0a6ce5a5a54939b5dabab4d3812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 24/46] fix: accept callback objects in the callbacks argument
 of gym_unroll

A Callback given explicitly raised since it was not converted to a tuple of functions.
---
 src/wax/gym/callbacks/callbacks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wax/gym/callbacks/callbacks.py b/src/wax/gym/callbacks/callbacks.py
index 0d6ea68..c999d06 100644
--- a/src/wax/gym/callbacks/callbacks.py
+++ b/src/wax/gym/callbacks/callbacks.py
@@ -126,6 +126,8 @@ def local_callbacks(callbacks=None):
     global_callbacks = callbacks is None
     if global_callbacks:
         callbacks, Callback.active = Callback.active, set()
+    else:
+        callbacks = [normalize_callback(cb) for cb in callbacks]
     try:
         yield callbacks or ()
     finally:
-- 
2.43.0


From f76c67b78f0904085c0dbc47867bd7edcd4f36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 25/46] fix: keep the agent's modules apart from the
 environment's in GymFeedback

---
 src/wax/modules/gym_feedback.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wax/modules/gym_feedback.py b/src/wax/modules/gym_feedback.py
index 34e012a..3b4ab9a 100644
--- a/src/wax/modules/gym_feedback.py
+++ b/src/wax/modules/gym_feedback.py
@@ -99,17 +99,23 @@ class GymFeedback(hk.Module):
                 Use return_action=True to aslo return agent actions.
         """
 
+        def call_agent(obs):
+            # the agent has its own name scope so that the additional call made at
+            # initialization does not shift the names of the modules of the environment
+            with hk.name_scope("agent"):
+                return self.agent(obs)
+
         def init_action(shape, dtype):
             if self.init_action is not None:
                 return self.GymState(self.init_action)
             else:
                 # call
-                return self.GymState(self.agent(raw_obs)[0])
+                return self.GymState(call_agent(raw_obs)[0])
 
         action = hk.get_state("action", shape=[], init=init_action)
 
         rw, obs, info_env = self.env(action.action, raw_obs)
-        action, info_agent = self.agent(obs)
+        action, info_agent = call_agent(obs)
 
         info = GymInfo(info_env, info_agent)
         outputs = self.GymOutput.format(rw, obs, action)
-- 
2.43.0


From cff815c550278c645b7de31ea03642192ad6b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:39 +0000
Subject: [PATCH 26/46] fix: keep parameters or state given alone to
 streaming_scan

---
 src/wax/flax/core/streaming_transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/core/streaming_transforms.py b/src/wax/flax/core/streaming_transforms.py
index 5d37c25..23c88ba 100644
--- a/src/wax/flax/core/streaming_transforms.py
+++ b/src/wax/flax/core/streaming_transforms.py
@@ -672,7 +672,9 @@ def streaming_scan(
                 # Initialize if needed
                 sample_input = jax.tree_util.tree_map(lambda x: x[0], inputs)
                 init_rng = jax.random.PRNGKey(0) if rng is None else rng
-                params, state = streaming_fn.init(init_rng, sample_input)
+                init_params, init_state = streaming_fn.init(init_rng, sample_input)
+                params = init_params if params is None else params
+                state = init_state if state is None else state
 
             # Create scan function that applies streaming function element by element
             def scan_body(carry_state, x):
-- 
2.43.0


From 985f163eddd037fa7b9d67dc8c521dba5353c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 27/46] fix: do not update a state given as numpy arrays in
 place

---
 src/wax/modules/counter.py          | 2 +-
 src/wax/modules/online_optimizer.py | 2 +-
 src/wax/optim/newton.py             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/modules/counter.py b/src/wax/modules/counter.py
index e5b9f5d..d594e65 100644
--- a/src/wax/modules/counter.py
+++ b/src/wax/modules/counter.py
@@ -19,6 +19,6 @@ from jax.numpy import uint32
 class Counter(hk.Module):
     def __call__(self):
         count = hk.get_state("count", [], init=lambda shape, dtype: DeviceArray(0, dtype=uint32))
-        count += 1
+        count = count + 1
         hk.set_state("count", count)
         return count
diff --git a/src/wax/modules/online_optimizer.py b/src/wax/modules/online_optimizer.py
index ab165a9..ea80daf 100644
--- a/src/wax/modules/online_optimizer.py
+++ b/src/wax/modules/online_optimizer.py
@@ -143,7 +143,7 @@ class OnlineOptimizer(hk.Module):
             updated_trainable_params = self.project_params(updated_trainable_params, self.opt)
 
         updated_params = hk.data_structures.merge(updated_trainable_params, non_trainable_params)
-        step += 1
+        step = step + 1
         hk.set_state("step", step)
         hk.set_state(
             "model_params_and_state",
diff --git a/src/wax/optim/newton.py b/src/wax/optim/newton.py
index cecfaec..8d5a8a5 100644
--- a/src/wax/optim/newton.py
+++ b/src/wax/optim/newton.py
@@ -55,7 +55,7 @@ class ScaleByNewtonState(NamedTuple):
 
 def sherman_morrison(A_inv, u, v):
     den = 1.0 + (v @ A_inv) @ u
-    A_inv -= A_inv @ jnp.outer(u, v) @ A_inv / den
+    A_inv = A_inv - A_inv @ jnp.outer(u, v) @ A_inv / den
     return A_inv
 
 
-- 
2.43.0


From 2f28f128f1bbc37695f6c001f087593e61ce4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 28/46] fix: order the codes of dates before 1970 in less

---
 src/wax/encode.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/wax/encode.py b/src/wax/encode.py
index ce6c11d..190356d 100644
--- a/src/wax/encode.py
+++ b/src/wax/encode.py
@@ -199,17 +199,8 @@ def datetime64_encoder(values: Any) -> Encoder:
 
 
 def less(t1, t2):
-    h1, l1 = t1
-    h2, l2 = t2
-    if h1 < h2:
-        return True
-    elif h1 > h2:
-        return False
-    else:
-        if l1 < l2:
-            return True
-        else:
-            return False
+    # the high part of the code is the one of a signed integer
+    return decode_int64(t1) < decode_int64(t2)
 
 
 def floor_jax_datekey(datekey):
-- 
2.43.0


From 9c1f8ae1875dd734ff5af0907fdf1bf40420fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 29/46] fix: keep the dates without any value of multi-level
 dataframes

---
 src/wax/accessors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index b11eb73..4856263 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -197,7 +197,9 @@ class StreamDataFrame(Stream):
             # avoid to stack the dataframe : its faster!
             dataarray = xr.DataArray(dataframe)
         else:
-            dataarray = dataframe.stack(list(range(dataframe.columns.nlevels))).to_xarray()
+            # (the future implementation keeps the missing values, hence all the dates)
+            levels = list(range(dataframe.columns.nlevels))
+            dataarray = dataframe.stack(levels, future_stack=True).to_xarray()
         dataset = dataarray.to_dataset(name="dataarray")
         schema = self.get_dataset_schema(dataset)
 
-- 
2.43.0


From 39790c47650a5370665138de23ba6dc8bf24cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 30/46] fix: label each output of a program by its own
 dimensions

---
 src/wax/accessors.py | 30 ++++++++++++++++++++++++------
 src/wax/format.py    | 22 +++++++++++++++-------
 2 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/wax/accessors.py b/src/wax/accessors.py
index 4856263..3194a96 100644
--- a/src/wax/accessors.py
+++ b/src/wax/accessors.py
@@ -30,6 +30,15 @@ from wax.stream import Stream
 DTypeLike = str
 
 
+def _default_format_dims(outputs, dims):
+    """Dims of each output: all the dims, or only the first one if it has been reduced."""
+
+    def leaf_dims(x):
+        return onp.array(dims if x.ndim == len(dims) else dims[:1], dtype=object)
+
+    return tree_map(leaf_dims, outputs)
+
+
 @dataclass(frozen=True)
 class StreamDataset(Stream):
     """
@@ -137,12 +146,15 @@ class StreamDataArray(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _default_format_dims(outputs, dataarray.dims)
 
             try:
                 outputs = format_dataarray(schema.coords, outputs, format_dims)
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataarray(schema.coords, outputs, format_dims)
@@ -218,8 +230,9 @@ class StreamDataFrame(Stream):
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
 
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _default_format_dims(outputs, dataarray.dims)
 
             try:
                 outputs = format_dataframe(
@@ -229,6 +242,8 @@ class StreamDataFrame(Stream):
                     index_nlevels=dataframe.index.nlevels,
                 )
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_dataframe(
@@ -294,12 +309,15 @@ class StreamSeries(Stream):
 
         if self.format_outputs:
             outputs = tree_map(lambda x: onp.array(x), outputs)
-            if format_dims is None:
-                format_dims = dataarray.dims
+            default_dims = format_dims is None
+            if default_dims:
+                format_dims = _default_format_dims(outputs, dataarray.dims)
 
             try:
                 outputs = format_series(schema.coords, outputs, format_dims)
             except ValueError:
+                if default_dims:
+                    raise
                 # try with reduced dims
                 format_dims = (format_dims[0],)
                 outputs = format_series(schema.coords, outputs, format_dims)
diff --git a/src/wax/format.py b/src/wax/format.py
index 88ad843..3e5e98f 100644
--- a/src/wax/format.py
+++ b/src/wax/format.py
@@ -63,6 +63,15 @@ def _get_dims_from_data(data):
     return dims
 
 
+def _has_leaf_dims(data_flat, treedef, format_dims):
+    """Whether format_dims specifies the dims of each leaf (otherwise the dims of all leaves)."""
+    if isinstance(format_dims, tuple) and all(isinstance(dim, str) for dim in format_dims):
+        # a tuple of names is also a nested data structure.
+        if all(onp.ndim(x) == len(format_dims) for x in data_flat):
+            return False
+    return str(treedef) == str(tree_flatten(format_dims)[1])
+
+
 def format_dataarray(ref_coords: DatasetCoordinates | None, data: Any, format_dims: Any) -> Any:
     """Format data following a given data schema
 
@@ -76,9 +85,8 @@ def format_dataarray(ref_coords: DatasetCoordinates | None, data: Any, format_di
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
-    if str(treedef) == str(treedef_format):
-        format_dims_flat = tree_leaves(format_dims_flat)
+    if _has_leaf_dims(data_flat, treedef, format_dims):
+        format_dims_flat = tree_leaves(format_dims)
         vals = tuple(
             _to_dataarray(ref_coords, dataarray, dims)
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
@@ -129,8 +137,8 @@ def format_dataframe(
     if ref_coords is None:
         ref_coords = cast(DatasetCoordinates, {})
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
-    if str(treedef) == str(treedef_format):
+    if _has_leaf_dims(data_flat, treedef, format_dims):
+        format_dims_flat = tree_leaves(format_dims)
         vals = tuple(
             _to_dataframe(ref_coords, dataarray, dims, index_nlevels)
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
@@ -159,8 +167,8 @@ def format_series(ref_coords: DatasetCoordinates | None, data: Any, format_dims:
         Nested data structure with same treedef as input data and leaves converted in DataArrays.
     """
     data_flat, treedef = tree_flatten(data)
-    format_dims_flat, treedef_format = tree_flatten(format_dims)
-    if str(treedef) == str(treedef_format):
+    if _has_leaf_dims(data_flat, treedef, format_dims):
+        format_dims_flat = tree_leaves(format_dims)
         vals = tuple(
             _to_series(ref_coords, dataarray, dims)
             for dataarray, dims in zip(data_flat, format_dims_flat, strict=False)
-- 
2.43.0


From c69d456af3179e7b7e0ab64af0d907c45fd14608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 31/46] fix: keep the state of every lifted function when
 several are lifted in a program

---
 src/wax/stateful.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/wax/stateful.py b/src/wax/stateful.py
index 65fccd1..a147e73 100644
--- a/src/wax/stateful.py
+++ b/src/wax/stateful.py
@@ -15,10 +15,20 @@ from collections.abc import Callable
 
 import haiku as hk
 import jax
-from haiku.experimental import lift_with_state
+from haiku.experimental import transparent_lift_with_state
 from jax.tree_util import tree_map
 
 
+class _LiftScope(hk.Module):
+    """Scope of a lifted function.
+
+    A second lift of the same name gets another unique name: its state must be updated under it.
+    """
+
+    def __call__(self, init_fn):
+        return transparent_lift_with_state(init_fn)
+
+
 def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
     if split_rng and not init_rng:
         raise ValueError("split_rng=True requires init_rng=True")
@@ -33,9 +43,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(*args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _LiftScope(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(*args, **kwargs)
 
             @jax.vmap
@@ -55,9 +63,7 @@ def vmap_lift_with_state(fun: Callable, split_rng=False, init_rng=True):
             def init_fn(rng, *args, **kwargs):
                 return tfun.init(rng, *args, **kwargs)
 
-            params_and_state_fn, updater = hk.experimental.lift_with_state(
-                init_fn, name="vmap_lift"
-            )
+            params_and_state_fn, updater = _LiftScope(name="vmap_lift")(init_fn)
             params, state = params_and_state_fn(rng, *args, **kwargs)
 
             @jax.vmap
@@ -80,7 +86,7 @@ def unroll_lift_with_state(fn: Callable, skip_first=False, split_rng=False, init
 
     def apply_fn(*args, **kwargs):
         tfn = hk.transform_with_state(fn)
-        params_and_state_fn, updater = lift_with_state(tfn.init, name="unroll_lift")
+        params_and_state_fn, updater = _LiftScope(name="unroll_lift")(tfn.init)
 
         def init(xs):
             args_0, kwargs_0 = tree_map(lambda x: x[0], xs)
-- 
2.43.0


From 7eab03f5d52f4d08b27386a16561b86aad183432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 32/46] fix: keep the last summary of compressed memories
 between updates, oldest first

---
 src/wax/flax/modules/compressed_buffer.py | 33 +++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/wax/flax/modules/compressed_buffer.py b/src/wax/flax/modules/compressed_buffer.py
index b43effa..47d6889 100644
--- a/src/wax/flax/modules/compressed_buffer.py
+++ b/src/wax/flax/modules/compressed_buffer.py
@@ -253,9 +253,7 @@ class CompressedBuffer(nn.Module):
             downsampled_data = cast(jnp.ndarray, self.downsampled_buffer(x))
         else:
             # Return current buffer state without update
-            downsampled_data = cast(
-                jnp.ndarray, self.downsampled_buffer.variables["state"]["buffer"]
-            )
+            downsampled_data = self._ordered(self.downsampled_buffer)
 
         self.sample_counter.value = counter + 1
         return downsampled_data
@@ -284,6 +282,25 @@ class CompressedBuffer(nn.Module):
         """Update without compression."""
         return cast(jnp.ndarray, self.uncompressed_buffer(x))
 
+    @staticmethod
+    def _ordered(buffer: Buffer) -> jnp.ndarray:
+        """Current contents of a buffer in logical order (oldest first), without update."""
+        state = buffer.variables["state"]
+        return jnp.roll(state["buffer"], -(state["write_idx"] % buffer.maxlen), axis=0)
+
+    def current(self) -> jnp.ndarray:
+        """Return the current compressed representation, without update."""
+        if self.compression == "ewma":
+            return cast(jnp.ndarray, self.compressed_state.value)
+        elif self.compression == "quantile":
+            return self.quantile_estimates.value
+        elif self.compression == "downsample":
+            return self._ordered(self.downsampled_buffer)
+        elif self.compression == "sketching":
+            return jnp.min(self.sketch.value, axis=0)
+        else:
+            return self._ordered(self.uncompressed_buffer)
+
     def get_memory_usage(self) -> dict[str, int]:
         """Get estimated memory usage in bytes."""
         # Use compression params or defaults for calculations
@@ -400,10 +417,7 @@ class HierarchicalBuffer(nn.Module):
             # Return current medium buffer state
             # Step 0 always updates (0 % 5 == 0), so the stored state is an array
             # by the time this branch is reached, never the initial Python scalar.
-            if hasattr(self.medium_buffer, "compressed_state"):
-                medium_data = cast(jnp.ndarray, self.medium_buffer.compressed_state.value)
-            else:
-                medium_data = jnp.array(0.0)
+            medium_data = self.medium_buffer.current()
 
         # Update long buffer every many steps
         long_counter = self.long_update_counter.value
@@ -412,10 +426,7 @@ class HierarchicalBuffer(nn.Module):
         else:
             # Return current long buffer state
             # Same reasoning as the medium level: step 0 always updates.
-            if hasattr(self.long_buffer, "compressed_state"):
-                long_data = cast(jnp.ndarray, self.long_buffer.compressed_state.value)
-            else:
-                long_data = jnp.array(0.0)
+            long_data = self.long_buffer.current()
 
         # Update counters
         self.medium_update_counter.value = medium_counter + 1
-- 
2.43.0


From 227d44d081973f1a53f6046daab5fc4f6943b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 33/46] fix: use numpy values in attention and hierarchical
 coordination

---
 src/wax/flax/core/advanced_state_patterns.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/core/advanced_state_patterns.py b/src/wax/flax/core/advanced_state_patterns.py
index d769df6..bd5e530 100644
--- a/src/wax/flax/core/advanced_state_patterns.py
+++ b/src/wax/flax/core/advanced_state_patterns.py
@@ -24,6 +24,7 @@ from collections.abc import Callable, Mapping
 from typing import Any, TypeVar
 
 import jax.numpy as jnp
+import numpy as np
 from flax import linen as nn
 
 from .streaming_transforms import StreamingTransform, streaming_transform_with_state
@@ -33,6 +34,9 @@ StateModule = TypeVar("StateModule", bound=nn.Module)
 StateName = str
 StateValue = Any
 
+# Values taken as numbers by the coordination and attention mechanisms
+_NUMERIC = (int, float, np.ndarray, np.generic, jnp.ndarray)
+
 
 class HierarchicalStateMachine(nn.Module):
     """Hierarchical state machine for coordinated multi-level state management.
@@ -192,7 +196,7 @@ class HierarchicalStateMachine(nn.Module):
 
             influenced = lower_output.copy()
             for key in influenced:
-                if key in higher_output and isinstance(influenced[key], int | float | jnp.ndarray):
+                if key in higher_output and isinstance(influenced[key], _NUMERIC):
                     # Blend with higher-level signal
                     influenced[key] = (1 - influence_factor) * influenced[
                         key
@@ -297,7 +301,7 @@ class AttentionBasedStateSelector(nn.Module):
             state_vector = jnp.concatenate(
                 [
                     jnp.atleast_1d(v)
-                    if isinstance(v, int | float | jnp.ndarray)
+                    if isinstance(v, _NUMERIC)
                     else jnp.array([0.0])
                     for v in current_state.values()
                 ]
@@ -350,7 +354,7 @@ class AttentionBasedStateSelector(nn.Module):
             state_vector = jnp.concatenate(
                 [
                     jnp.atleast_1d(v)
-                    if isinstance(v, int | float | jnp.ndarray)
+                    if isinstance(v, _NUMERIC)
                     else jnp.array([0.0])
                     for v in current_state.values()
                 ]
-- 
2.43.0


From 1d912eb10a04039de56fb226df50ac3a324e9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 34/46] fix: record snapshots of the data in the debugger

---
 src/wax/flax/debug/debugger.py | 49 +++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/wax/flax/debug/debugger.py b/src/wax/flax/debug/debugger.py
index 85de486..4f37605 100644
--- a/src/wax/flax/debug/debugger.py
+++ b/src/wax/flax/debug/debugger.py
@@ -35,12 +35,29 @@ import threading
 import time
 import traceback
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any, Protocol
 
 import jax
 import jax.numpy as jnp
+import numpy as np
+
+
+def _copy_data(data: Any) -> Any:
+    """Copy nested data, so that it can be recorded at a point in time."""
+    if isinstance(data, jnp.ndarray):
+        return jnp.copy(data)
+    elif isinstance(data, np.ndarray):
+        return np.copy(data)
+    elif isinstance(data, tuple) and hasattr(data, "_fields"):
+        return type(data)(*(_copy_data(item) for item in data))
+    elif isinstance(data, (list, tuple)):
+        return type(data)(_copy_data(item) for item in data)
+    elif isinstance(data, dict):
+        return {k: _copy_data(v) for k, v in data.items()}
+    else:
+        return data
 
 
 class DebugCondition(Protocol):
@@ -131,26 +148,17 @@ class DebugHook:
     def _deep_copy_state(self, state: Any) -> Any:
         """Create a deep copy of state for debugging."""
         try:
-            if hasattr(state, "copy"):
+            if hasattr(state, "copy") and not isinstance(state, (dict, list)):
                 return state.copy()
-            elif isinstance(state, dict):
-                return {k: self._safe_copy(v) for k, v in state.items()}
             else:
-                return state
+                return _copy_data(state)
         except Exception:
             return str(state)  # Fallback to string representation
 
     def _safe_copy(self, data: Any) -> Any:
         """Safely copy data for event storage."""
         try:
-            if isinstance(data, jnp.ndarray):
-                return jnp.copy(data)
-            elif isinstance(data, (list, tuple)):
-                return type(data)(self._safe_copy(item) for item in data)
-            elif isinstance(data, dict):
-                return {k: self._safe_copy(v) for k, v in data.items()}
-            else:
-                return data
+            return _copy_data(data)
         except Exception:
             return str(data)
 
@@ -325,14 +333,7 @@ class StreamingDebugger:
     def _safe_copy_tree(self, tree: Any) -> Any:
         """Safely copy a tree structure."""
         try:
-            if isinstance(tree, jnp.ndarray):
-                return jnp.copy(tree)
-            elif isinstance(tree, dict):
-                return {k: self._safe_copy_tree(v) for k, v in tree.items()}
-            elif isinstance(tree, (list, tuple)):
-                return type(tree)(self._safe_copy_tree(item) for item in tree)
-            else:
-                return tree
+            return _copy_data(tree)
         except Exception:
             return str(tree)
 
@@ -515,13 +516,13 @@ def state_change_detector(field: str, tolerance: float = 1e-6) -> DebugCondition
         nonlocal last_value
 
         try:
-            if isinstance(state, dict) and field in state:
+            if isinstance(state, Mapping) and field in state:
                 current_value = state[field]
             else:
                 return False
 
             if last_value is None:
-                last_value = current_value
+                last_value = _copy_data(current_value)
                 return False
 
             if hasattr(current_value, "__len__"):
@@ -531,7 +532,7 @@ def state_change_detector(field: str, tolerance: float = 1e-6) -> DebugCondition
 
             significant_change = change > tolerance
             if significant_change:
-                last_value = current_value
+                last_value = _copy_data(current_value)
 
             return significant_change
 
-- 
2.43.0


From 557f5d047788d8d7de8ad4c0e99da362b7caca98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 35/46] fix: record each call once in the profiler, with its
 data sizes

---
 src/wax/flax/debug/profiler.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/wax/flax/debug/profiler.py b/src/wax/flax/debug/profiler.py
index f229222..e9ebbf2 100644
--- a/src/wax/flax/debug/profiler.py
+++ b/src/wax/flax/debug/profiler.py
@@ -37,12 +37,13 @@ import statistics
 import threading
 import time
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass, field
 from typing import Any
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 import psutil
 
 
@@ -266,11 +267,11 @@ class StreamingProfiler:
         try:
             if data is None:
                 return 0
-            elif isinstance(data, jnp.ndarray):
+            elif isinstance(data, (jnp.ndarray, np.ndarray, np.generic)):
                 return data.nbytes
             elif isinstance(data, (list, tuple)):
                 return sum(self._calculate_data_size(item) for item in data)
-            elif isinstance(data, dict):
+            elif isinstance(data, Mapping):
                 return sum(self._calculate_data_size(v) for v in data.values())
             elif isinstance(data, (int, float)):
                 return 8  # Approximate size
@@ -480,6 +481,8 @@ class ProfilerContext:
         self.module_name = module_name
         self.start_time = None
         self.jit_compilation = False
+        self.input_data = None
+        self.output_data = None
 
     def __enter__(self):
         self.start_time = time.time()
@@ -491,9 +494,16 @@ class ProfilerContext:
             self.profiler.record_metrics(
                 module_name=self.module_name,
                 execution_time=execution_time,
+                input_data=self.input_data,
+                output_data=self.output_data,
                 jit_compilation=self.jit_compilation,
             )
 
+    def set_data(self, input_data: Any = None, output_data: Any = None):
+        """Set the data processed by this step."""
+        self.input_data = input_data
+        self.output_data = output_data
+
     def set_jit_compilation(self, occurred: bool):
         """Mark whether JIT compilation occurred during this step."""
         self.jit_compilation = occurred
@@ -551,13 +561,8 @@ def profile_streaming(
                         # Track output data if detailed tracking enabled
                         output_data = result if enable_detailed_tracking else None
 
-                        # Record additional context
-                        ctx.profiler.record_metrics(
-                            module_name=actual_module_name,
-                            execution_time=0,  # Will be set by context manager
-                            input_data=input_data,
-                            output_data=output_data,
-                        )
+                        # Recorded by the context manager, with the execution time
+                        ctx.set_data(input_data, output_data)
 
                         return result
 
-- 
2.43.0


From a8cde4a870e376eb0300185d664a3e9fe2f76e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 36/46] fix: growth per step of the memory tracker, state of
 Mapping collections

---
 src/wax/flax/debug/memory_tracker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wax/flax/debug/memory_tracker.py b/src/wax/flax/debug/memory_tracker.py
index 2ec8a9d..5643897 100644
--- a/src/wax/flax/debug/memory_tracker.py
+++ b/src/wax/flax/debug/memory_tracker.py
@@ -40,7 +40,7 @@ import time
 import tracemalloc
 import weakref
 from collections import defaultdict, deque
-from collections.abc import Callable
+from collections.abc import Callable, Mapping
 from dataclasses import dataclass
 from typing import Any
 
@@ -323,7 +323,7 @@ class MemoryTracker:
         buffers_mb = 0.0
 
         try:
-            if isinstance(state, dict):
+            if isinstance(state, Mapping):
                 # Handle Flax variable collections
                 if "params" in state:
                     parameters_mb = self._calculate_tree_memory(state["params"])
@@ -402,7 +402,7 @@ class MemoryTracker:
 
             if denominator > 0:
                 slope = numerator / denominator  # MB per snapshot
-                growth_rate = slope * self.snapshot_interval  # MB per step
+                growth_rate = slope / self.snapshot_interval  # MB per step
 
                 if growth_rate > self.leak_detection_threshold_mb / 100:  # Threshold per step
                     total_growth = memory_values[-1] - memory_values[0]
-- 
2.43.0


From 02e3857d47be8fcb2322d93d823c23e256c999ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 37/46] fix: honour the tracking flags and bounds of the data
 flow tracker

---
 src/wax/flax/visualization/data_flow_visualizer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/visualization/data_flow_visualizer.py b/src/wax/flax/visualization/data_flow_visualizer.py
index 26becc9..6df6338 100644
--- a/src/wax/flax/visualization/data_flow_visualizer.py
+++ b/src/wax/flax/visualization/data_flow_visualizer.py
@@ -121,6 +121,15 @@ class DataFlowTracker:
             value: The actual data value
             metadata: Optional metadata about the data
         """
+        tracked = {
+            "input": self.track_inputs,
+            "output": self.track_outputs,
+            "state": self.track_states,
+            "gradient": self.track_gradients,
+        }
+        if not tracked.get(data_type, True):
+            return
+
         data_point = DataPoint(
             timestamp=time.time() - self.start_time,
             step=self.step_count,
@@ -157,7 +166,7 @@ class DataFlowTracker:
 
     def get_recent_data(self, n_points: int = 100) -> list[DataPoint]:
         """Get the most recent n data points."""
-        return list(self.data_history)[-n_points:]
+        return list(self.data_history)[-n_points:] if n_points > 0 else []
 
     def clear_history(self) -> None:
         """Clear all tracking history."""
@@ -359,7 +368,7 @@ class DataFlowVisualizer:
         """Format a value for text display."""
         if isinstance(value, jnp.ndarray):
             if value.size == 1:
-                return f"{float(value):.3f}"
+                return f"{float(value.item()):.3f}"
             else:
                 return f"array{value.shape}"
         elif isinstance(value, int | float):
-- 
2.43.0


From 8416f0a623a233f892f68f3a9b7dca4875d8d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 38/46] fix: escape names in renderings of computation graphs

---
 .../flax/visualization/computation_graph.py   | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/wax/flax/visualization/computation_graph.py b/src/wax/flax/visualization/computation_graph.py
index 136e6e2..83b7889 100644
--- a/src/wax/flax/visualization/computation_graph.py
+++ b/src/wax/flax/visualization/computation_graph.py
@@ -35,6 +35,7 @@ import tempfile
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass, field
+from html import escape
 from typing import Any, Protocol, cast
 
 import jax
@@ -98,6 +99,11 @@ class PipelineNode:
                 break
 
 
+def _quote_dot(text: str) -> str:
+    """Escape the quotes of a text put in a quoted DOT string."""
+    return text.replace('"', '\\"')
+
+
 class FlaxTransformed(Protocol):
     """Structural type of an object exposing the Flax ``init``/``apply`` pair."""
 
@@ -514,9 +520,9 @@ class ComputationGraphRenderer:
 
         # Add nodes
         for node_id, node in self.nodes.items():
-            label = self._create_node_label(node)
+            label = _quote_dot(self._create_node_label(node))
             lines.append(
-                f'  "{node_id}" [label="{label}", '
+                f'  "{_quote_dot(node_id)}" [label="{label}", '
                 f'color="{node.color}", style="{node.style}", '
                 f'shape="{node.shape}"];'
             )
@@ -527,14 +533,15 @@ class ComputationGraphRenderer:
         for edge in self.edges:
             edge_attrs = []
             if edge.label:
-                edge_attrs.append(f'label="{edge.label}"')
+                edge_attrs.append(f'label="{_quote_dot(edge.label)}"')
             if edge.color != "#424242":
                 edge_attrs.append(f'color="{edge.color}"')
             if edge.style != "solid":
                 edge_attrs.append(f'style="{edge.style}"')
 
             attrs_str = f" [{', '.join(edge_attrs)}]" if edge_attrs else ""
-            lines.append(f'  "{edge.source}" -> "{edge.target}"{attrs_str};')
+            source, target = _quote_dot(edge.source), _quote_dot(edge.target)
+            lines.append(f'  "{source}" -> "{target}"{attrs_str};')
 
         lines.append("}")
 
@@ -601,13 +608,13 @@ class ComputationGraphRenderer:
         for node_id, node in self.nodes.items():
             html += f"""
         <div class="node" style="background-color: {node.color}20;">
-            <strong>{node.name}</strong> ({node.module_type})
-            <br>ID: {node_id}
+            <strong>{escape(node.name)}</strong> ({escape(node.module_type)})
+            <br>ID: {escape(node_id)}
 """
             if self.include_shapes and node.input_shapes:
-                html += f"<br>Input shapes: {node.input_shapes}"
+                html += f"<br>Input shapes: {escape(str(node.input_shapes))}"
             if self.include_parameters and node.parameters:
-                html += f"<br>Parameters: {node.parameters}"
+                html += f"<br>Parameters: {escape(str(node.parameters))}"
             html += "</div>"
 
         html += f"""
@@ -619,7 +626,8 @@ class ComputationGraphRenderer:
 
         for edge in self.edges:
             label = f" [{edge.label}]" if edge.label else ""
-            html += f'<div class="edge">{edge.source} → {edge.target}{label}</div>'
+            text = escape(f"{edge.source} → {edge.target}{label}")
+            html += f'<div class="edge">{text}</div>'
 
         html += """
     </div>
-- 
2.43.0


From 38dae67c3e6f10e1d8a993d62e854b1f71cd91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 39/46] fix: moving averages of integer data

---
 src/wax/flax/modules/ewma.py | 3 +++
 src/wax/modules/ewma.py      | 3 +++
 src/wax/numba/ewma_numba.py  | 3 +++
 src/wax/utils.py             | 9 +++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 646b0ad..716b96b 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from wax.utils import as_inexact
+
 
 class EWMA(nn.Module):
     """Flax-based Exponential Moving Average module.
@@ -64,6 +66,7 @@ class EWMA(nn.Module):
             info: Optional dictionary with additional variables (if return_info=True)
         """
         info = {}
+        x = as_inexact(x)
 
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 60f3a89..7f22e3a 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -18,6 +18,8 @@ from typing import cast
 import haiku as hk
 from jax import numpy as jnp
 
+from wax.utils import as_inexact
+
 
 class EWMA(hk.Module):
     """Compute exponential moving average."""
@@ -114,6 +116,7 @@ class EWMA(hk.Module):
             info: A dictionnary with additionnal variables. It is returned if `return_info` is true.
         """
         info = {}
+        x = as_inexact(x)
 
         logcom = hk.get_parameter(
             "logcom",
diff --git a/src/wax/numba/ewma_numba.py b/src/wax/numba/ewma_numba.py
index 6fde574..13c96ba 100644
--- a/src/wax/numba/ewma_numba.py
+++ b/src/wax/numba/ewma_numba.py
@@ -112,6 +112,9 @@ def ewma(
         if values.ndim == 1:
             values = values.reshape(-1, 1)
             is_1d = True
+        if not np.issubdtype(values.dtype, np.inexact):
+            # integers cannot represent missing values
+            values = values.astype(float)
 
         if state is None:
             state = init_ewma_state(values)
diff --git a/src/wax/utils.py b/src/wax/utils.py
index c95ffac..4cb2ee0 100644
--- a/src/wax/utils.py
+++ b/src/wax/utils.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 """Some utils functions used in WAX-ML."""
 
+from jax import numpy as jnp
 from jax.tree_util import tree_flatten
 
 
@@ -20,6 +21,14 @@ def dict_map(fun, col):
     return {key: fun(val) for key, val in col.items()}
 
 
+def as_inexact(x):
+    """Convert integer and boolean data to floats, so that missing values can be represented."""
+    x = jnp.asarray(x)
+    if jnp.issubdtype(x.dtype, jnp.inexact):
+        return x
+    return x.astype(float)
+
+
 def get_unique_dtype(current_values_):
     # check of unique dtype
     # TODO remove onece multi-dtype is supported
-- 
2.43.0


From 6f94a4e3a2115e08b67a3c7ff21b17c121c7b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 40/46] fix: moving variances and covariances of integer data

---
 src/wax/flax/modules/ewmcov.py | 6 ++++--
 src/wax/flax/modules/ewmvar.py | 4 ++++
 src/wax/modules/ewmcov.py      | 2 ++
 src/wax/modules/ewmvar.py      | 3 +++
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index 33d6fae..6dc2878 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -18,6 +18,8 @@ import warnings
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 from .ewma import EWMA
 
 
@@ -93,8 +95,8 @@ class EWMCov(nn.Module):
             raise ValueError("Expected either (x, y) or ((x, y),)")
 
         # Ensure inputs are arrays (handle scalar inputs)
-        x = jnp.asarray(x)
-        y = jnp.asarray(y)
+        x = as_inexact(x)
+        y = as_inexact(y)
 
         # Compute outer product for XY term
         xy = jnp.outer(x, y)
diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index 5da9b89..c37ee00 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -17,6 +17,8 @@ import flax.linen as nn
 import jax.numpy as jnp
 from flax.linen import initializers
 
+from wax.utils import as_inexact
+
 
 class EWMVar(nn.Module):
     """Flax-based Exponentially Weighted Moving Variance module.
@@ -59,6 +61,8 @@ class EWMVar(nn.Module):
         Returns:
             Exponentially weighted variance
         """
+        x = as_inexact(x)
+
         # Trainable parameter for com (log-space for numerical stability)
         logcom = self.param(
             "logcom",
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index 2fb6a05..e2304e1 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.ewma import EWMA
+from wax.utils import as_inexact
 
 
 class EWMCov(hk.Module):
@@ -121,6 +122,7 @@ class EWMCov(hk.Module):
                 stacklevel=2,
             )
             x, y = x
+        x, y = as_inexact(x), as_inexact(y)
         mean_xy = EWMA(
             com=self.com,
             min_periods=self.min_periods,
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index c00ec1f..d3e4e7e 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -16,6 +16,8 @@
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 
 class EWMVar(hk.Module):
     """Compute exponentially weighted variance.
@@ -69,6 +71,7 @@ class EWMVar(hk.Module):
             mean := mean + incr
             variance := (1 - alpha) * (variance + diff * incr)
         """
+        x = as_inexact(x)
 
         logcom = hk.get_parameter(
             "logcom",
-- 
2.43.0


From 472c3f569ba339045135a623b2b29f661e8c0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 41/46] fix: rolling means and percentage changes of integer
 data

---
 src/wax/flax/modules/pct_change.py   | 4 ++++
 src/wax/flax/modules/rolling_mean.py | 4 +++-
 src/wax/modules/pct_change.py        | 2 ++
 src/wax/modules/rolling_mean.py      | 3 ++-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 541246e..4b3bfee 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -16,6 +16,8 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 from .ffill import Ffill
 from .lag import Lag
 
@@ -49,6 +51,8 @@ class PctChange(nn.Module):
         Returns:
             Percentage change: (current / previous) - 1.0
         """
+        x = as_inexact(x)
+
         # Get previous value, with optional forward-filling
         if self.fill_method in ["ffill", "pad"]:
             # Forward fill NaN values before computing lag
diff --git a/src/wax/flax/modules/rolling_mean.py b/src/wax/flax/modules/rolling_mean.py
index 1fad9f5..4909ddb 100644
--- a/src/wax/flax/modules/rolling_mean.py
+++ b/src/wax/flax/modules/rolling_mean.py
@@ -16,6 +16,8 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 from .buffer import Buffer
 
 
@@ -45,7 +47,7 @@ class RollingMean(nn.Module):
             Rolling mean over the window, or NaN if insufficient data
         """
         # Get buffer with current window of values
-        buffer, attrs = self.buffer(x)
+        buffer, attrs = self.buffer(as_inexact(x))
 
         # Sum valid (non-NaN) values in the buffer
         # Replace NaN with 0.0 for proper summation
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 11259fb..6053111 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules import Ffill, Lag
+from wax.utils import as_inexact
 
 
 class PctChange(hk.Module):
@@ -51,6 +52,7 @@ class PctChange(hk.Module):
         assert periods == 1, "periods > 1 not implemented."
 
     def __call__(self, x):
+        x = as_inexact(x)
         if self.fill_method in ["ffill", "pad"]:
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
diff --git a/src/wax/modules/rolling_mean.py b/src/wax/modules/rolling_mean.py
index bd501f0..9609e03 100644
--- a/src/wax/modules/rolling_mean.py
+++ b/src/wax/modules/rolling_mean.py
@@ -17,6 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.buffer import Buffer
+from wax.utils import as_inexact
 
 
 class RollingMean(hk.Module):
@@ -35,7 +36,7 @@ class RollingMean(hk.Module):
         self.min_periods = min_periods
 
     def __call__(self, x):
-        buffer, attrs = Buffer(self.horizon, return_state=True)(x)
+        buffer, attrs = Buffer(self.horizon, return_state=True)(as_inexact(x))
         sum = jnp.where(jnp.logical_not(jnp.isnan(buffer)), buffer, 0.0).sum(axis=0)
         count = jnp.where(jnp.logical_not(jnp.isnan(buffer)), 1, 0).sum(axis=0)
         mean = jnp.where(count >= self.min_periods, sum / count, jnp.nan)
-- 
2.43.0


From 8dbae96ed370edd7d0b7c286ca2620d4e1c4d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 42/46] fix: price bars of integer data

---
 src/wax/flax/modules/ohlc.py | 4 +++-
 src/wax/modules/ohlc.py      | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wax/flax/modules/ohlc.py b/src/wax/flax/modules/ohlc.py
index 31c54e8..04c09d4 100644
--- a/src/wax/flax/modules/ohlc.py
+++ b/src/wax/flax/modules/ohlc.py
@@ -18,6 +18,8 @@ from typing import NamedTuple
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 from .has_changed import HasChanged
 
 
@@ -53,7 +55,7 @@ class OHLC(nn.Module):
             OHLCData containing current OPEN, HIGH, LOW, CLOSE values
         """
         # Ensure input is an array
-        input = jnp.asarray(input)
+        input = as_inexact(input)
         reset_on = jnp.asarray(reset_on)
 
         # Use reset signal directly
diff --git a/src/wax/modules/ohlc.py b/src/wax/modules/ohlc.py
index 9a8ada1..360aa19 100644
--- a/src/wax/modules/ohlc.py
+++ b/src/wax/modules/ohlc.py
@@ -18,6 +18,8 @@ from typing import NamedTuple
 import haiku as hk
 import jax.numpy as jnp
 
+from wax.utils import as_inexact
+
 
 class OHLCData(NamedTuple):
     OPEN: jnp.ndarray
@@ -33,6 +35,8 @@ class OHLC(hk.Module):
         super().__init__(name=name)
 
     def __call__(self, input: jnp.ndarray, *, reset_on: bool):
+        input = as_inexact(input)
+
         def init_array(shape, dtype):
             return jnp.full(shape, fill_value=jnp.nan, dtype=dtype)
 
-- 
2.43.0


From ea411e9c8148c3b2a477d89f5d6d0164dd2ab5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:17 +0000
Subject: [PATCH 43/46] fix: centre the masked deviations along the given axis

---
 src/wax/flax/modules/mask_std.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wax/flax/modules/mask_std.py b/src/wax/flax/modules/mask_std.py
index 22c19c6..7ca7683 100644
--- a/src/wax/flax/modules/mask_std.py
+++ b/src/wax/flax/modules/mask_std.py
@@ -70,10 +70,7 @@ class MaskStd(nn.Module):
                 mean = x_masked.sum(axis=self.axis) / count
                 # Broadcast mean back to original shape for subtraction
                 if self.axis is not None:
-                    if self.axis == 0:
-                        mean = mean[None, ...] if x.ndim > 1 else mean
-                    elif self.axis == 1:
-                        mean = mean[..., None] if x.ndim > 1 else mean
+                    mean = jnp.expand_dims(mean, self.axis)
                 diff = x_masked - mean
 
                 # Re-mask the differences
-- 
2.43.0


From f2737d904f057a9176630897a5084d5dbc764c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 44/46] fix: finite gradients of moving averages and variances
 over missing data

---
 src/wax/flax/modules/ewma.py   |  2 +-
 src/wax/flax/modules/ewmvar.py | 19 ++++++++++++++-----
 src/wax/modules/ewma.py        |  2 +-
 src/wax/modules/ewmvar.py      | 19 ++++++++++++++-----
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/wax/flax/modules/ewma.py b/src/wax/flax/modules/ewma.py
index 716b96b..aed8e51 100644
--- a/src/wax/flax/modules/ewma.py
+++ b/src/wax/flax/modules/ewma.py
@@ -108,7 +108,7 @@ class EWMA(nn.Module):
         if self.adjust == "linear":
             # Linear adjustment for effective com
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / current_old_wt)
+                is_observation, 1.0, jnp.maximum(0.0, (current_old_wt - 1.0) / jnp.where(current_old_wt > 0.0, current_old_wt, 1.0))
             )
             updated_old_wt = jnp.minimum(current_old_wt, com)
         else:
diff --git a/src/wax/flax/modules/ewmvar.py b/src/wax/flax/modules/ewmvar.py
index c37ee00..1eacb2b 100644
--- a/src/wax/flax/modules/ewmvar.py
+++ b/src/wax/flax/modules/ewmvar.py
@@ -84,21 +84,27 @@ class EWMVar(nn.Module):
         current_variance = variance.value
         current_nobs = nobs.value
 
+        mask = jnp.logical_not(jnp.isnan(x))
+        updated_nobs = jnp.where(mask, current_nobs + 1, current_nobs)
+
+        # No observation yet
+        isnan_mean = jnp.logical_and(jnp.isnan(current_mean), ~mask)
+
+        # Fill NaN with zero to avoid NaNs in gradient computations
+        x = jnp.where(mask, x, 0.0)
+
         # Initialize on first non-nan value
         updated_mean = jnp.where(jnp.isnan(current_mean), x, current_mean)
         updated_variance = jnp.where(jnp.isnan(current_variance), 0.0, current_variance)
 
-        mask = jnp.logical_not(jnp.isnan(x))
-        updated_nobs = jnp.where(mask, current_nobs + 1, current_nobs)
-
         # Alpha adjustment scheme
         if self.adjust == "linear":
             tscale = 1.0 / alpha
             tscale = jnp.where(updated_nobs < tscale, updated_nobs, tscale)
-            alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
+            alpha = 1.0 / jnp.where(updated_nobs > 0, tscale, 1.0)
         elif self.adjust:
             # Exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** updated_nobs)
+            alpha = alpha / (1.0 - (1.0 - alpha) ** jnp.maximum(updated_nobs, 1.0))
 
         # Incremental variance update using Finch's formula
         diff = x - updated_mean
@@ -110,6 +116,9 @@ class EWMVar(nn.Module):
             mask, (1 - alpha) * (updated_variance + diff * incr), updated_variance
         )
 
+        # Restore NaN values
+        final_mean = jnp.where(isnan_mean, jnp.nan, final_mean)
+
         # Update state variables
         mean.value = final_mean
         variance.value = final_variance
diff --git a/src/wax/modules/ewma.py b/src/wax/modules/ewma.py
index 7f22e3a..a08d801 100644
--- a/src/wax/modules/ewma.py
+++ b/src/wax/modules/ewma.py
@@ -159,7 +159,7 @@ class EWMA(hk.Module):
             # com_eff grow linearly when there is observation but
             # decrease linearly when there is nans.
             old_wt_factor = jnp.where(
-                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / old_wt)
+                is_observation, 1.0, jnp.maximum(0.0, (old_wt - 1.0) / jnp.where(old_wt > 0.0, old_wt, 1.0))
             )
             old_wt = jnp.minimum(old_wt, com)
         else:
diff --git a/src/wax/modules/ewmvar.py b/src/wax/modules/ewmvar.py
index d3e4e7e..f9c8bda 100644
--- a/src/wax/modules/ewmvar.py
+++ b/src/wax/modules/ewmvar.py
@@ -101,21 +101,27 @@ class EWMVar(hk.Module):
             init=lambda shape, dtype: jnp.full(shape, 0.0, dtype),
         )
 
+        mask = jnp.logical_not(jnp.isnan(x))
+        nobs = jnp.where(mask, nobs + 1, nobs)
+
+        # no observation yet
+        isnan_mean = jnp.logical_and(jnp.isnan(mean), ~mask)
+
+        # fillna to avoid nans in gradient computations
+        x = jnp.where(mask, x, 0.0)
+
         # initialization on first non-nan value
         mean = jnp.where(jnp.isnan(mean), x, mean)
         variance = jnp.where(jnp.isnan(variance), 0.0, variance)
 
-        mask = jnp.logical_not(jnp.isnan(x))
-        nobs = jnp.where(mask, nobs + 1, nobs)
-
         # alpha adjustement scheme
         if self.adjust == "linear":
             tscale = 1.0 / alpha
             tscale = jnp.where(nobs < tscale, nobs, tscale)
-            alpha = jnp.where(tscale > 0, 1.0 / tscale, jnp.nan)
+            alpha = 1.0 / jnp.where(nobs > 0, tscale, 1.0)
         elif self.adjust:
             # exponential scheme (as in pandas)
-            alpha = alpha / (1.0 - (1.0 - alpha) ** (nobs))
+            alpha = alpha / (1.0 - (1.0 - alpha) ** jnp.maximum(nobs, 1.0))
 
         diff = x - mean
         incr = alpha * diff
@@ -124,6 +130,9 @@ class EWMVar(hk.Module):
         mean = jnp.where(mask, mean + incr, mean)
         variance = jnp.where(mask, (1 - alpha) * (variance + diff * incr), variance)
 
+        # restore nan
+        mean = jnp.where(isnan_mean, jnp.nan, mean)
+
         hk.set_state("mean", mean)
         hk.set_state("variance", variance)
         hk.set_state("nobs", nobs)
-- 
2.43.0


From 176bf10a23eac34e756105d6be04cb388ca32b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 45/46] fix: finite gradients of moving covariances over
 missing data

---
 src/wax/flax/modules/ewmcov.py |  6 +++---
 src/wax/modules/ewmcov.py      |  6 +++---
 src/wax/utils.py               | 10 ++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/ewmcov.py b/src/wax/flax/modules/ewmcov.py
index 6dc2878..ed78d0d 100644
--- a/src/wax/flax/modules/ewmcov.py
+++ b/src/wax/flax/modules/ewmcov.py
@@ -18,7 +18,7 @@ import warnings
 import flax.linen as nn
 import jax.numpy as jnp
 
-from wax.utils import as_inexact
+from wax.utils import as_inexact, where_observed
 
 from .ewma import EWMA
 
@@ -99,7 +99,7 @@ class EWMCov(nn.Module):
         y = as_inexact(y)
 
         # Compute outer product for XY term
-        xy = jnp.outer(x, y)
+        xy = where_observed(jnp.outer, x, y)
 
         # Compute exponentially weighted mean of XY
         mean_xy = self.mean_xy(xy)
@@ -113,7 +113,7 @@ class EWMCov(nn.Module):
             mean_y = self.mean_y(y)
 
             # Compute covariance: E[XY] - E[X]E[Y]
-            mean_x_mean_y = jnp.outer(mean_x, mean_y)
+            mean_x_mean_y = where_observed(jnp.outer, mean_x, mean_y)
             covariance = mean_xy - mean_x_mean_y
 
             return jnp.array(covariance)
diff --git a/src/wax/modules/ewmcov.py b/src/wax/modules/ewmcov.py
index e2304e1..8fc2ee1 100644
--- a/src/wax/modules/ewmcov.py
+++ b/src/wax/modules/ewmcov.py
@@ -17,7 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules.ewma import EWMA
-from wax.utils import as_inexact
+from wax.utils import as_inexact, where_observed
 
 
 class EWMCov(hk.Module):
@@ -130,7 +130,7 @@ class EWMCov(hk.Module):
             ignore_na=self.ignore_na,
             initial_value=self.initial_value,
             name="mean_xy",
-        )(jnp.outer(x, y))
+        )(where_observed(jnp.outer, x, y))
         if self.assume_centered:
             cov = mean_xy
         else:
@@ -150,5 +150,5 @@ class EWMCov(hk.Module):
                 initial_value=self.initial_value,
                 name="mean_y",
             )(y)
-            cov = mean_xy - jnp.outer(mean_x, mean_y)
+            cov = mean_xy - where_observed(jnp.outer, mean_x, mean_y)
         return cov
diff --git a/src/wax/utils.py b/src/wax/utils.py
index 4cb2ee0..e5fb26a 100644
--- a/src/wax/utils.py
+++ b/src/wax/utils.py
@@ -29,6 +29,16 @@ def as_inexact(x):
     return x.astype(float)
 
 
+def where_observed(fun, *args):
+    """Apply a function entry by entry, with missing values kept out of its derivatives.
+
+    The result is missing where it would be; no gradient flows through these entries.
+    """
+    missing = jnp.isnan(fun(*args))
+    filled = [jnp.where(jnp.isnan(x), 1.0, x) for x in args]
+    return jnp.where(missing, jnp.nan, fun(*filled))
+
+
 def get_unique_dtype(current_values_):
     # check of unique dtype
     # TODO remove onece multi-dtype is supported
-- 
2.43.0


From d8df580ca2713aef559aff2c6dcde871c581d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 46/46] fix: finite gradients of percentage changes and masked
 normalisation over missing data

---
 src/wax/flax/modules/mask_normalize.py | 6 +++++-
 src/wax/flax/modules/pct_change.py     | 4 ++--
 src/wax/modules/mask_normalize.py      | 5 ++++-
 src/wax/modules/pct_change.py          | 4 ++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/wax/flax/modules/mask_normalize.py b/src/wax/flax/modules/mask_normalize.py
index fae405c..1243ac0 100644
--- a/src/wax/flax/modules/mask_normalize.py
+++ b/src/wax/flax/modules/mask_normalize.py
@@ -18,6 +18,8 @@ from typing import Any
 import flax.linen as nn
 import jax.numpy as jnp
 
+from wax.utils import where_observed
+
 from .fill_nan_inf import FillNanInf
 from .mask_std import MaskStd
 
@@ -56,7 +58,9 @@ class MaskNormalize(nn.Module):
                 x_std = jnp.expand_dims(x_std, self.axis)
 
             # Normalize by dividing by standard deviation
-            x_normalized = x / x_std
+            # (fill NaN to avoid NaNs in gradient computations)
+            x_std = jnp.where(x_std > 0.0, x_std, jnp.nan)
+            x_normalized = where_observed(jnp.divide, x, x_std)
 
             # Handle NaN and infinity values that may result from division
             x_normalized = self.fill_nan_inf(x_normalized)
diff --git a/src/wax/flax/modules/pct_change.py b/src/wax/flax/modules/pct_change.py
index 4b3bfee..bdcfe37 100644
--- a/src/wax/flax/modules/pct_change.py
+++ b/src/wax/flax/modules/pct_change.py
@@ -16,7 +16,7 @@
 import flax.linen as nn
 import jax.numpy as jnp
 
-from wax.utils import as_inexact
+from wax.utils import as_inexact, where_observed
 
 from .ffill import Ffill
 from .lag import Lag
@@ -63,7 +63,7 @@ class PctChange(nn.Module):
             previous_x = self.lag(x)
 
         # Compute percentage change: (current / previous) - 1.0
-        pct_change = x / previous_x - 1.0
+        pct_change = where_observed(lambda a, b: a / b - 1.0, x, previous_x)
 
         # Handle special case: if current is NaN but previous is valid,
         # return 0.0 (pandas-compatible behavior when fillna_zero=True)
diff --git a/src/wax/modules/mask_normalize.py b/src/wax/modules/mask_normalize.py
index f7d6fd1..bea058f 100644
--- a/src/wax/modules/mask_normalize.py
+++ b/src/wax/modules/mask_normalize.py
@@ -19,6 +19,7 @@ from jax.tree_util import tree_map
 
 from wax.modules.fill_nan_inf import FillNanInf
 from wax.modules.mask_std import MaskStd
+from wax.utils import where_observed
 
 
 class MaskNormalize(hk.Module):
@@ -48,7 +49,9 @@ class MaskNormalize(hk.Module):
             x_std = MaskStd(axis=self.axis, assume_centered=self.assume_centered)(mask, x)
             if self.axis is not None:
                 x_std = jnp.expand_dims(x_std, self.axis)
-            x_normalized = FillNanInf()(x / x_std)
+            # fillna to avoid nans in gradient computations
+            x_std = jnp.where(x_std > 0.0, x_std, jnp.nan)
+            x_normalized = FillNanInf()(where_observed(jnp.divide, x, x_std))
             return x_normalized
 
         return tree_map(normalize, input)
diff --git a/src/wax/modules/pct_change.py b/src/wax/modules/pct_change.py
index 6053111..ef40c99 100644
--- a/src/wax/modules/pct_change.py
+++ b/src/wax/modules/pct_change.py
@@ -17,7 +17,7 @@ import haiku as hk
 import jax.numpy as jnp
 
 from wax.modules import Ffill, Lag
-from wax.utils import as_inexact
+from wax.utils import as_inexact, where_observed
 
 
 class PctChange(hk.Module):
@@ -57,7 +57,7 @@ class PctChange(hk.Module):
             previous_x = Lag(self.periods)(Ffill()(x))
         else:
             previous_x = Lag(self.periods)(x)
-        pct_change = x / previous_x - 1.0
+        pct_change = where_observed(lambda a, b: a / b - 1.0, x, previous_x)
         if self.fillna_zero:
             pct_change = jnp.where(jnp.isnan(x) & ~jnp.isnan(previous_x), 0.0, pct_change)
         return pct_change
-- 
2.43.0

