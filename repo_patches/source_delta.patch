From 24d38028dd28d46ab4f27897e1b82c23d90c050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 01/46] fix: AffineLinear log-density for negative scale

With transform_scale=None a negative scale is a valid bijection, but
log(scale) made every log-density NaN; use log|scale| as Scaling does.
---
 src/bijx/bijections/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 8334975..1477c5c 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -498,7 +498,7 @@ class AffineLinear(ScalarBijection):
         )
 
     def log_jac(self, x, y, **kwargs):
-        return jnp.broadcast_to(jnp.log(self.scale.get_value()), jnp.shape(x))
+        return jnp.broadcast_to(jnp.log(jnp.abs(self.scale.get_value())), jnp.shape(x))
 
     def fwd(self, x, **kwargs):
         return self.scale.get_value() * x + self.shift.get_value()
-- 
2.43.0


From 14d1912a3ceb5206825859b1c1fe511065634c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 02/46] fix: pass keyword arguments to ScalarBijection.log_jac

forward/reverse document that **kwargs are passed to fwd/rev and log_jac, but
log_jac never received them, so a conditional elementwise bijection reported
a density that ignored its condition.
---
 src/bijx/bijections/analytic.py | 6 +++---
 src/bijx/bijections/scalar.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 1a01bce..11a3d03 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -89,7 +89,7 @@ class CubicRational(ScalarBijection):
             transform=loc_transform,
         )
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         x = x - self.loc.get_value()
         bx1 = self.beta.get_value() * x**2 + 1
         return -jnp.log(bx1) + jnp.log(
@@ -281,7 +281,7 @@ class SinhConjugation(ScalarBijection):
         nu = self.nu.get_value()
         return alpha, beta, loc, mu, nu
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         alpha, beta, loc, mu, nu = self._params()
         a = (x - loc) / alpha
         return log_grad_sinh_nonlinearity(a, beta, mu, nu)
@@ -359,7 +359,7 @@ class CubicConjugation(ScalarBijection):
         b = self.b.get_value()
         return beta, loc, a, b
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         beta, loc, a, b = self._params()
         return log_grad_cubic_nonlinearity(x - loc, a, b, beta)
 
diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index 1477c5c..afc3826 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -155,7 +155,7 @@ class ScalarBijection(Bijection):
             Tuple of (transformed_data, updated_log_density).
         """
         y = self.fwd(x, **kwargs)
-        return y, sum_log_jac(x, log_density, -self.log_jac(x, y))
+        return y, sum_log_jac(x, log_density, -self.log_jac(x, y, **kwargs))
 
     def reverse(self, y, log_density, **kwargs):
         """Apply reverse transformation with log-density update.
@@ -172,7 +172,7 @@ class ScalarBijection(Bijection):
             Tuple of (inverse_transformed_data, updated_log_density).
         """
         x = self.rev(y, **kwargs)
-        return x, sum_log_jac(x, log_density, self.log_jac(x, y))
+        return x, sum_log_jac(x, log_density, self.log_jac(x, y, **kwargs))
 
 
 class GaussianCDF(ScalarBijection):
@@ -289,7 +289,7 @@ class Sigmoid(ScalarBijection):
         >>> y, log_det = bijection.forward(x, jnp.zeros(3))
     """
 
-    def log_jac(self, x, y):
+    def log_jac(self, x, y, **kwargs):
         return jnp.log(y) + jnp.log(1 - y)
 
     def fwd(self, x, **kwargs):
-- 
2.43.0


From 09d3a9866ffcfc2f1b6ca60eaab86300e8481ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:47 +0000
Subject: [PATCH 03/46] fix: MonotoneRQSpline honours its minimum bin and slope
 settings

The constructor stored min_bin_width, min_bin_height and min_slope but the
transform always used the defaults of rational_quadratic_spline.
---
 src/bijx/bijections/splines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/splines.py b/src/bijx/bijections/splines.py
index 13b39be..bf44e25 100644
--- a/src/bijx/bijections/splines.py
+++ b/src/bijx/bijections/splines.py
@@ -325,6 +325,9 @@ class MonotoneRQSpline(ApplyBijection):
             self.heights,
             self.slopes,
             inverse=reverse,
+            min_bin_width=self.min_bin_width,
+            min_bin_height=self.min_bin_height,
+            min_slope=self.min_slope,
         )
 
         return y, log_density - jnp.sum(log_jac, axis=si.event_axes)
-- 
2.43.0


From ce748c45faa81e3f32ff834366a2d1052c9cbae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 04/46] fix: RayTransform, meta layers and BinaryMask accept
 common keyword arguments

---
 src/bijx/bijections/coupling.py |  4 ++--
 src/bijx/bijections/meta.py     |  4 ++--
 src/bijx/bijections/radial.py   | 12 ++++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 07ceaf0..1927748 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -221,7 +221,7 @@ class BinaryMask(Bijection):
 
         return output
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         """Split input as bijection forward pass.
 
         When used as a bijection, forward pass splits the input into
@@ -236,7 +236,7 @@ class BinaryMask(Bijection):
         """
         return self.split(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         """Merge parts as bijection reverse pass.
 
         When used as a bijection, reverse pass merges the split parts
diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index be5beb0..0acba97 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -43,10 +43,10 @@ class MetaLayer(Bijection):
         self._forward = forward
         self._reverse = reverse
 
-    def forward(self, x, log_density):
+    def forward(self, x, log_density, **kwargs):
         return self._forward(x), log_density
 
-    def reverse(self, x, log_density):
+    def reverse(self, x, log_density, **kwargs):
         return self._reverse(x), log_density
 
 
diff --git a/src/bijx/bijections/radial.py b/src/bijx/bijections/radial.py
index 23c656d..897074a 100644
--- a/src/bijx/bijections/radial.py
+++ b/src/bijx/bijections/radial.py
@@ -31,14 +31,14 @@ class RayTransform(Bijection):
     def __init__(self, bijection: Bijection):
         self.bijection = bijection
 
-    def forward(self, x, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        y, ld = self.bijection.forward(x, ld)
+    def forward(self, x, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        y, ld = self.bijection.forward(x, ld, **kwargs)
         return y - offset, ld
 
-    def reverse(self, y, ld):
-        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()))
-        return self.bijection.reverse(y + offset, ld)
+    def reverse(self, y, ld, **kwargs):
+        offset, _ = self.bijection.forward(jnp.zeros(()), jnp.zeros(()), **kwargs)
+        return self.bijection.reverse(y + offset, ld, **kwargs)
 
 
 class Radial(ApplyBijection):
-- 
2.43.0


From 2dc76782759568a9127492ee48aa35d94b3e6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 05/46] fix: multiplicative coupling masks log-densities per
 bijection event

---
 src/bijx/bijections/coupling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index 1927748..d7c8a61 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -652,7 +652,7 @@ class GeneralCouplingLayer(Bijection):
         else:
             # assume passive was not modified; no need to mask again
             # active masked for safety (in case passive part was modified)
-            return self.mask * active + passive
+            return jnp.where(self.mask.boolean_mask, active, passive)
 
     def _apply(self, x, log_density, inverse=False, **kwargs):
         active, passive = self._split(x)
@@ -686,8 +686,12 @@ class GeneralCouplingLayer(Bijection):
         )
 
         if not self.split:
+            # one entry per vmap'd bijection event; select (not multiply), as the
+            # bijection may be singular at the zeros of the passive entries
+            event_axes = tuple(range(-active_rank, 0))
+            event_mask = jnp.any(self.mask.boolean_mask, axis=event_axes)
+            delta_log_density = jnp.where(event_mask, delta_log_density, 0)
             # sum over event axes that were vmap'd over
-            delta_log_density *= self.mask
             axes = tuple(range(-broadcast_rank, 0))
             delta_log_density = jnp.sum(delta_log_density, axis=axes)
         elif active_rank == 0:
-- 
2.43.0


From 01434291aadc32e40c6400fe0f34c7655b69995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 06/46] fix: CondInverse.invert() is not shadowed by its flag

---
 src/bijx/bijections/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/base.py b/src/bijx/bijections/base.py
index 36a727b..c08d9f0 100644
--- a/src/bijx/bijections/base.py
+++ b/src/bijx/bijections/base.py
@@ -154,12 +154,12 @@ class CondInverse(Bijection):
     """
 
     def __init__(self, bijection: Bijection, invert: bool = True):
-        self.invert = Const(jnp.array(invert, dtype=bool))
+        self.inverted = Const(jnp.array(invert, dtype=bool))
         self.bijection = bijection
 
     def forward(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             x,
@@ -169,7 +169,7 @@ class CondInverse(Bijection):
 
     def reverse(self, x, log_density, **kwargs):
         return jax.lax.cond(
-            self.invert,
+            self.inverted,
             lambda x, ld, kw: self.bijection.forward(x, ld, **kw),
             lambda x, ld, kw: self.bijection.reverse(x, ld, **kw),
             x,
@@ -178,7 +178,7 @@ class CondInverse(Bijection):
         )
 
     def invert(self):
-        return CondInverse(self.bijection, ~self.invert)
+        return CondInverse(self.bijection, ~self.inverted[...])
 
 
 class Inverse(Bijection):
-- 
2.43.0


From b49e75acf817ad66097e6b933f18acaa1aa2f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 07/46] fix: Reshape to and from scalar events

---
 src/bijx/bijections/meta.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/meta.py b/src/bijx/bijections/meta.py
index 0acba97..c71f2b2 100644
--- a/src/bijx/bijections/meta.py
+++ b/src/bijx/bijections/meta.py
@@ -138,15 +138,15 @@ class Reshape(MetaLayer):
 
     def _forward(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.from_shape)]
-        from_shape = shape[-len(self.from_shape) :]
+        batch_dim = len(shape) - len(self.from_shape)
+        batch_shape, from_shape = shape[:batch_dim], shape[batch_dim:]
         assert from_shape == self.from_shape
         return jnp.reshape(x, batch_shape + self.to_shape)
 
     def _reverse(self, x):
         shape = jnp.shape(x)
-        batch_shape = shape[: -len(self.to_shape)]
-        to_shape = shape[-len(self.to_shape) :]
+        batch_dim = len(shape) - len(self.to_shape)
+        batch_shape, to_shape = shape[:batch_dim], shape[batch_dim:]
         assert to_shape == self.to_shape
         return jnp.reshape(x, batch_shape + self.from_shape)
 
-- 
2.43.0


From 958a46dc812e9012e2762c02bb08c402429bb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 08/46] fix: sign of the log-density change of Fourier-space
 scalings

---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 98042f2..4edd204 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -89,7 +89,7 @@ class SpectrumScaling(ApplyBijection):
 
     def apply(self, x, log_density, reverse=False, **kwargs):
         x, delta = self.scale(x, reverse=reverse)
-        return x, log_density - delta if reverse else log_density + delta
+        return x, log_density + delta if reverse else log_density - delta
 
 
 class FreeTheoryScaling(SpectrumScaling):
-- 
2.43.0


From 7901a25433c176b34e0c8ffa08cce3cf1abc029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 09/46] fix: Fourier-space scalings with channel dimensions

---
 src/bijx/bijections/fourier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 4edd204..e91f540 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -79,11 +79,14 @@ class SpectrumScaling(ApplyBijection):
         _, shape_info = self.shape_info.process_event(r.shape)
         meta = FourierMeta.create(shape_info.space_shape)
         r = jnp.fft.rfftn(r, shape_info.space_shape, shape_info.space_axes)
-        r = r / self.scaling if reverse else r * self.scaling
+        scaling = self.scaling
+        scaling_channels = jnp.reshape(scaling, scaling.shape + (1,) * self.channel_dim)
+        r = r / scaling_channels if reverse else r * scaling_channels
         r = jnp.fft.irfftn(r, shape_info.space_shape, shape_info.space_axes)
 
         factor = meta.mr.astype(int) + meta.mi.astype(int)
-        delta_ld = jnp.sum(factor * jnp.log(jnp.abs(self.scaling)))
+        delta_ld = jnp.sum(factor * jnp.log(jnp.abs(scaling)))
+        delta_ld *= shape_info.channel_size
 
         return r, delta_ld
 
-- 
2.43.0


From 1e6170494d52d8b28b26c960ae1307ff27300096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 10/46] fix: FreeTheoryScaling without precomputed spectrum

---
 src/bijx/bijections/fourier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index e91f540..388b33f 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -56,7 +56,7 @@ class SpectrumScaling(ApplyBijection):
             scaling = Const(scaling)
         self.scaling_var = scaling
         self.shape_info = ShapeInfo(
-            space_dim=len(scaling.shape), channel_dim=channel_dim
+            space_dim=len(self.scaling.shape), channel_dim=channel_dim
         )
 
     @property
@@ -152,8 +152,8 @@ class FreeTheoryScaling(SpectrumScaling):
         if precompute_spectrum and not isinstance(m2, nnx.Variable):
             scaling = Const(self.spectrum_function(ks, m2))
         else:
+            self.ks = Const(ks)
             scaling = None
-
         super().__init__(scaling, channel_dim=channel_dim)
 
     def spectrum_function(self, ks, m2):
@@ -173,7 +173,7 @@ class FreeTheoryScaling(SpectrumScaling):
         """Multiplicative factor in Fourier space."""
         scaling_var = self.scaling_var.get_value()
         if scaling_var is None:
-            return self.spectrum_function(self.ks, self.m2)
+            return self.spectrum_function(self.ks[...], self.m2.get_value())
         return scaling_var
 
 
-- 
2.43.0


From bdccd85063b816d715fd0c484e9b58b54a6da157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 11/46] fix: fold continuum FFT momenta to the first Brillouin
 zone

---
 src/bijx/fourier.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index f52f1be..099616b 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -65,6 +65,10 @@ def fft_momenta(
     ks = np.mgrid[tuple(np.s_[:s] for s in shape)]
     if unit:
         return np.moveaxis(ks, 0, -1)
+    if not lattice:
+        # indices above the Nyquist frequency represent negative momenta
+        ks = np.where(2 * ks > shape_factor, ks - shape_factor, ks)
+
     ks = 2 * jnp.pi * ks / shape_factor
     if lattice:
         # with this true, (finite) lattice spectrum ~ 1 / m^2 + k^2
-- 
2.43.0


From e0472ab3089d7e5c7ae1ae5a2ba60a6e0fd7e6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 12/46] fix: momentum magnitudes of FourierMeta count negative
 momenta

---
 src/bijx/fourier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index 099616b..c329676 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -162,7 +162,9 @@ class FourierMeta(nnx.Pytree):
             FourierMeta instance with all symmetry constraints computed.
         """
         mr, mi, copy_from, copy_to = cls._get_fourier_info(real_shape)
-        ks_full = np.sum(fft_momenta(real_shape, unit=True) ** 2, axis=-1).astype(int)
+        ks = fft_momenta(real_shape, unit=True)
+        ks = np.where(2 * ks > real_shape, ks - real_shape, ks)
+        ks_full = np.sum(ks**2, axis=-1).astype(int)
         ks_reduced = ks_full[mr]
 
         # unique_idc -> assign to "k index" (could be used to add correlations)
-- 
2.43.0


From f178b55ec982c739c303b2e7d1fa12d4e07f55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 13/46] fix: Fourier representations with channel dimensions

---
 src/bijx/fourier.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bijx/fourier.py b/src/bijx/fourier.py
index c329676..7ca4829 100644
--- a/src/bijx/fourier.py
+++ b/src/bijx/fourier.py
@@ -173,7 +173,11 @@ class FourierMeta(nnx.Pytree):
         )
 
         return cls(
-            shape_info=ShapeInfo(event_shape=real_shape, channel_dim=channel_dim),
+            shape_info=ShapeInfo(
+                event_shape=real_shape if channel_dim == 0 else None,
+                space_shape=real_shape,
+                channel_dim=channel_dim,
+            ),
             mr=mr,
             mi=mi,
             copy_from=copy_from,
@@ -357,8 +361,7 @@ class FourierData(nnx.Pytree):
             channel_shape = xk.shape[-meta.shape_info.channel_dim :]
 
         rfft = jnp.zeros(batch_shape + meta.mr.shape + channel_shape, dtype=xk.dtype)
-        rfft = rfft.at[..., meta.mr].set(xk)
-
+        rfft = rfft.at[meta.idc_rfft_independent].set(xk)
         if len(meta.copy_to) > 0:
             rfft = rfft.at[meta.idc_copy_to].set(rfft[meta.idc_copy_from].conj())
 
-- 
2.43.0


From dfcbbb4cc790a517742454958649e027db515e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 14/46] fix: ContFlowRK4 integrates over the full time interval

---
 src/bijx/bijections/continuous.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 63e6336..0a8c658 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -219,13 +219,12 @@ class ContFlowRK4(Bijection):
         steps = steps if steps is not None else self.steps
 
         delta_t = t_end - t_start
-        sgn = jnp.where(delta_t < 0, -1.0, 1.0)
-
         def vf(s, state, args):
             x, log_density = state
             t = t_start + s * delta_t
+            # integrate over s in [0, 1], with dt/ds = delta_t
             dx_dt, dld_dt = jax.tree.map(
-                lambda x: sgn * x,
+                lambda x: delta_t * x,
                 self.vf(t, x, **args),
             )
             return dx_dt, dld_dt
-- 
2.43.0


From 29850e02d1cabe00ba61fc2cc7208cfbc51de5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 15/46] fix: reverse of continuous flows honours time overrides

---
 src/bijx/bijections/continuous.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/bijx/bijections/continuous.py b/src/bijx/bijections/continuous.py
index 0a8c658..b68bf19 100644
--- a/src/bijx/bijections/continuous.py
+++ b/src/bijx/bijections/continuous.py
@@ -130,7 +130,7 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(x, log_density, **kwargs)
         return jax.tree.map(lambda x: x[-1], sol.ys)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         """Solve the ODE flow in reverse and return the final state.
 
         Note that the same optional overrides as in :meth:`solve_flow`
@@ -142,8 +142,8 @@ class ContFlowDiffrax(Bijection):
         sol = self.solve_flow(
             x,
             log_density,
-            t_start=self.config.t_end,
-            t_end=self.config.t_start,
+            t_start=self.config.t_end if t_end is None else t_end,
+            t_end=self.config.t_start if t_start is None else t_start,
             **kwargs,
         )
         return jax.tree.map(lambda x: x[-1], sol.ys)
@@ -243,12 +243,12 @@ class ContFlowRK4(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
@@ -347,12 +347,12 @@ class ContFlowCG(Bijection):
     def forward(self, x, log_density, **kwargs):
         return self.solve_flow(x, log_density, **kwargs)
 
-    def reverse(self, x, log_density, **kwargs):
+    def reverse(self, x, log_density, *, t_start=None, t_end=None, **kwargs):
         return self.solve_flow(
             x,
             log_density,
-            t_start=self.t_end,
-            t_end=self.t_start,
+            t_start=self.t_end if t_end is None else t_end,
+            t_end=self.t_start if t_start is None else t_start,
             **kwargs,
         )
 
-- 
2.43.0


From 3c2b395af29536fb86e0648105663c663c550f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 16/46] fix: traceless projection of UnitaryDeriv subtracts a
 multiple of the identity

---
 src/bijx/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 50185ff..7f2b1cb 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -374,8 +374,8 @@ class UnitaryDeriv(ManifoldType):
     @autovmap(x=2)
     def project(self, x):
         if self.special:
-            trace = jnp.linalg.trace(x)
-            x = x - trace / x.shape[-1]
+            n = x.shape[-1]
+            x = x - jnp.trace(x) / n * jnp.eye(n, dtype=x.dtype)
         x = (x - x.mT.conj()) / 2
         return x
 
-- 
2.43.0


From 3185a6159c6e9c86453a392f2012f79001b65338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 17/46] fix: Crouch-Grossmann steps apply the requested
 manifold projections

---
 src/bijx/cg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 7f2b1cb..1f65f59 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -486,7 +486,7 @@ def cg_stage(y0, vect, manifold_types, ai, step_size):
     if len(deltas) == 0:
         return y0
     return jax.tree.map(
-        lambda state, mtype, *deltas: mtype.reduce(state, *deltas),
+        lambda state, mtype, *deltas: mtype.post_stage(mtype.reduce(state, *deltas)),
         y0,
         manifold_types,
         *deltas,
@@ -526,7 +526,10 @@ def crouch_grossmann_step(manifold_types, tableau, vector_field, step_size, t, y
         # evaluate vector field
         vectors[i] = vector_field(ti, intermediate)
 
-    return cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    y1 = cg_stage(y0, vectors, manifold_types, tableau.b, step_size)
+    return jax.tree.map(
+        lambda state, mtype: mtype.post_step(state), y1, manifold_types
+    )
 
 
 def crouch_grossmann(
-- 
2.43.0


From 64bcf842a175edb67cf8b29b00eae27e9cb7b8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:16 +0000
Subject: [PATCH 18/46] fix: transported adjoint of Crouch-Grossmann
 integration returns an ambient cotangent

---
 src/bijx/cg.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/bijx/cg.py b/src/bijx/cg.py
index 1f65f59..76aacf2 100644
--- a/src/bijx/cg.py
+++ b/src/bijx/cg.py
@@ -226,6 +226,20 @@ class ManifoldType(nnx.Pytree):
         """
         return adj
 
+    def restore_adjoint(self, x, adj):
+        """Convert integrated adjoint back to an ambient cotangent vector.
+
+        Inverse of :meth:`project_adjoint`.
+
+        Args:
+            x: Current state.
+            adj: Adjoint state as used during integration.
+
+        Returns:
+            Cotangent vector of x (identity by default).
+        """
+        return adj
+
 
 class Euclidean(ManifoldType):
     """Euclidean space with standard vector addition.
@@ -318,6 +332,11 @@ class Matrix(ManifoldType):
             return jnp.einsum("...ij,...kj->...ik", adj, x)
         return adj
 
+    def restore_adjoint(self, x, adj):
+        if self.transport_adjoint:
+            return jnp.linalg.solve(x, adj.mT).mT
+        return adj
+
     def post_adjoint_vjp(self, x, adj_vec, v, adj):
         # if transporting adjoint, add term to keep at origin
         if self.transport_adjoint:
@@ -728,7 +747,7 @@ def _crouch_grossmann_rev(
         jax.tree.map(lambda _, mtype: mtype.derivative_type(), args, args_types),
     )
 
-    _, y_bar, t0_bar, args_bar = _crouch_grossmann(
+    y0, y_bar, t0_bar, args_bar = _crouch_grossmann(
         state_types,
         args_types,
         tableau,
@@ -739,6 +758,13 @@ def _crouch_grossmann_rev(
         args,
     )
 
+    y_bar = jax.tree.map(
+        lambda y, adj, mtype: mtype.restore_adjoint(y, adj),
+        y0,
+        y_bar,
+        manifold_types,
+    )
+
     ts_bar = jnp.array([t0_bar, t_bar])
     return (ts_bar, y_bar, *args_bar)
 
-- 
2.43.0


From 39bc44c1e92595ce55bed7b7a39840a9f3988a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 19/46] fix: odeint_rk4 integrates backwards in time when
 end_time < start_time

---
 src/bijx/solvers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index 00c5ef3..e35f6ae 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -315,6 +315,8 @@ def _odeint_grid_wrapper(fun, step_size, y0, ts, *args):
 @partial(jax.custom_vjp, nondiff_argnums=(0, 1))
 def _rk4_odeint(fun, step_size, y0, ts, *args):
 
+    forward = ts[1] >= ts[0]
+
     def func_(y, t):
         return fun(y, t, *args)
 
@@ -329,12 +331,16 @@ def _rk4_odeint(fun, step_size, y0, ts, *args):
     def cond_fun(carry):
         """Check if we've reached the last timepoint."""
         cur_y, cur_t = carry
-        return cur_t < ts[1]
+        return jnp.where(forward, cur_t < ts[1], cur_t > ts[1])
 
     def body_fun(carry):
         """Take one step of RK4."""
         cur_y, cur_t = carry
-        next_t = jnp.minimum(cur_t + step_size, ts[1])
+        next_t = jnp.where(
+            forward,
+            jnp.minimum(cur_t + abs(step_size), ts[1]),
+            jnp.maximum(cur_t - abs(step_size), ts[1]),
+        )
         dt = next_t - cur_t
         dy = step_func(cur_t, dt, cur_y)
         return cur_y + dy, next_t
-- 
2.43.0


From bb0abcde924465b90701fc1091207221127d224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 20/46] fix: ConvVF divergence with more than one channel

---
 src/bijx/bijections/conv_cnf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index 82a015f..ebca48f 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -129,6 +129,9 @@ class ConvVF(nnx.Module):
         # contract with feature superposition
         w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
+        # features are ordered as (input channel, feature) when flattened
+        w00 = rearrange(w00, "(i f) o -> i o f", i=channel_size)
+
         features, div = self.feature_map(x, w00)
         features = jnp.einsum("fw,...w->...f", feature_superposition, features)
         grad_phi = conv(features)
-- 
2.43.0


From c5262bb68ede1d2f328000e2f442ab88b990e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 21/46] fix: ConvVF without feature reduction

---
 src/bijx/bijections/conv_cnf.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bijx/bijections/conv_cnf.py b/src/bijx/bijections/conv_cnf.py
index ebca48f..b9a4e61 100644
--- a/src/bijx/bijections/conv_cnf.py
+++ b/src/bijx/bijections/conv_cnf.py
@@ -120,20 +120,22 @@ class ConvVF(nnx.Module):
 
         conv = nnx.merge(conv_graph, conv_params)
 
-        feature_superposition = (
-            self.feature_superposition / self.feature_map.out_channel_size
-        )
-
         # extract the local-coupling weights; shape=(in features, out features)
         w00 = conv.kernel_params[0]
-        # contract with feature superposition
-        w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
+
+        if self.feature_superposition is not None:
+            feature_superposition = (
+                self.feature_superposition / self.feature_map.out_channel_size
+            )
+            # contract with feature superposition
+            w00 = jnp.einsum("if,io->fo", feature_superposition, w00)
 
         # features are ordered as (input channel, feature) when flattened
         w00 = rearrange(w00, "(i f) o -> i o f", i=channel_size)
 
         features, div = self.feature_map(x, w00)
-        features = jnp.einsum("fw,...w->...f", feature_superposition, features)
+        if self.feature_superposition is not None:
+            features = jnp.einsum("fw,...w->...f", feature_superposition, features)
         grad_phi = conv(features)
 
         grad_phi = grad_phi.reshape(*batch_shape, *shape_info.event_shape)
@@ -198,6 +200,7 @@ class ConvVF(nnx.Module):
         )
 
         conv_in_features = features.out_channel_size
+        feature_superposition = None
         if features_reduced is not None:
             feature_superposition = nnx.Param(
                 nnx.initializers.orthogonal()(
-- 
2.43.0


From d7d03290ec2f632fe8a497b8ff33e2215c8403a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 22/46] fix: KernelFourier.feature_count matches its output for
 even counts

---
 src/bijx/nn/embeddings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index eefa07a..78e3194 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -209,7 +209,8 @@ class KernelFourier(Embedding):
         val_range: tuple[float, float] | None = None,
         rngs: nnx.Rngs | None = None,
     ):
-        super().__init__(feature_count, rngs=rngs)
+        # sine/cosine pairs plus constant; one less than requested for even counts
+        super().__init__(2 * ((feature_count - 1) // 2) + 1, rngs=rngs)
         self.val_range = val_range
 
     @autovmap(val=0)
-- 
2.43.0


From 4a7f3ccdf6aeb87bcbf271af0ac650e219121e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 23/46] fix: PositionalEmbedding with two features

---
 src/bijx/nn/embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/nn/embeddings.py b/src/bijx/nn/embeddings.py
index 78e3194..23618f2 100644
--- a/src/bijx/nn/embeddings.py
+++ b/src/bijx/nn/embeddings.py
@@ -333,7 +333,7 @@ class PositionalEmbedding(Embedding):
         val = jnp.reshape(val, -1)
 
         half_dim = self.feature_count // 2
-        emb = np.log(self.max_positions) / (half_dim - 1)
+        emb = np.log(self.max_positions) / max(half_dim - 1, 1)
         emb = jnp.exp((-emb) * jnp.arange(half_dim, dtype=val.dtype))
         emb = val[:, None] * emb[None, :]
         emb = jnp.concatenate([jnp.sin(emb), jnp.cos(emb)], axis=1)
-- 
2.43.0


From d75e3b0216af90c6a52a678b2ed7c2be4bf88206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 24/46] fix: resize_kernel_weights keeps the kernel centred

---
 src/bijx/nn/conv.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/bijx/nn/conv.py b/src/bijx/nn/conv.py
index bc013c4..23211fd 100644
--- a/src/bijx/nn/conv.py
+++ b/src/bijx/nn/conv.py
@@ -392,22 +392,18 @@ def resize_kernel_weights(
 
     # divide copied values by two
     _slice = np.index_exp[:]
-    for dim, length in enumerate(shape):
-        if length % 2 == 0:
+    for dim, wrap in enumerate(wraps):
+        if wrap != (0, 0):
             kernel[_slice * dim + ([0, -1],)] /= 2
 
     # add zeros to reach desired shape
     padding = [
-        ((new - old - 1) // 2, (old % 2) + (new - old) // 2) if new > old else (0, 0)
+        ((new - 1) // 2 - old // 2, new // 2 - old // 2) if new > old else (0, 0)
         for new, old in zip(new_shape, shape)
     ]
-    w = np.pad(
-        kernel,
-        padding + [(0, 0)] * 2,
-        mode,
-        constant_values=constant_values,
-        **pad_args,
-    )
+    if mode == "constant":
+        pad_args["constant_values"] = constant_values
+    w = np.pad(kernel, padding + [(0, 0)] * 2, mode, **pad_args)
 
     # crop
     crop = ()
@@ -415,9 +411,8 @@ def resize_kernel_weights(
         if new >= old:
             crop += np.index_exp[:]
         else:
-            crop += np.index_exp[
-                (old - new + (old % 2)) // 2 : -(old - new + (new % 2)) // 2
-            ]
+            start = (old - 1) // 2 - (new - 1) // 2
+            crop += np.index_exp[start : start + new]
     return w[crop]
 
 
-- 
2.43.0


From cc2743abf5aa3a5293b0bc554555aa474cb1365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 25/46] fix: MultivariateNormal samples follow its density for
 negative Cholesky diagonals

---
 src/bijx/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 86d5253..1aefd79 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -440,7 +440,9 @@ class MultivariateNormal(ArrayDistribution):
         noise = jax.random.normal(rng, (*batch_shape, self.dim))
         cholesky = _cholesky_unfold(self.cholesky)
         # Apply epsilon regularization to ensure valid Cholesky decomposition
-        safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
+        # (the sign is kept: flipping it would change the covariance L L^T)
+        diagonal = cholesky.diagonal()
+        safe_diagonal = diagonal + jnp.where(diagonal < 0, -1, 1) * self.epsilon
         cholesky = cholesky.at[jnp.diag_indices(cholesky.shape[-1])].set(safe_diagonal)
         samples = self.mean + jnp.einsum("...ij,...j->...i", cholesky, noise)
         return samples, self.log_density(samples)
-- 
2.43.0


From e3757e1eb8d09a34447010256000ab69a6f37171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 26/46] fix: event shape of stacked DiagonalNormal components

---
 src/bijx/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 1aefd79..5b9cad6 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -510,7 +510,8 @@ class DiagonalNormal(ArrayDistribution):
             scales, cls=var_cls, rngs=rngs, init_fn=nnx.initializers.ones
         )
 
-        super().__init__(rngs=rngs, event_shape=(self.mean.size,))
+        # last axis only, as parameters may be stacked (e.g. for mixtures)
+        super().__init__(rngs=rngs, event_shape=(self.mean.shape or (1,))[-1:])
         self.epsilon = epsilon
         assert self.mean.size == self.scales.size
 
-- 
2.43.0


From cadf26f33237c82ecf3ae2f7393d267241ea1ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 27/46] fix: GaussianMixture without covariances

---
 src/bijx/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 5b9cad6..df80d22 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -702,7 +702,7 @@ class GaussianMixture(Distribution):
 
         cov_shape = covariances.shape if hasattr(covariances, "shape") else covariances
 
-        if len(mean_shape) == len(cov_shape):
+        if cov_shape is None or len(mean_shape) == len(cov_shape):
             stack = DiagonalNormal.given_variances(
                 mean=means,
                 variances=covariances,
-- 
2.43.0


From e93a38d37e79f760ad5eaa3e4910b2f0bbfca96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 28/46] fix: all distributions accept the keyword arguments of
 the base class

---
 src/bijx/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index df80d22..0c00b03 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -405,7 +405,7 @@ class MultivariateNormal(ArrayDistribution):
         cholesky = _cov_to_cholesky(cov)
         return cls(mean, cholesky, rngs=rngs, var_cls=var_cls, epsilon=epsilon)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -425,7 +425,7 @@ class MultivariateNormal(ArrayDistribution):
         safe_diagonal = jnp.abs(cholesky.diagonal()) + self.epsilon
         return log_density - jnp.log(safe_diagonal).sum(-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -583,7 +583,7 @@ class DiagonalNormal(ArrayDistribution):
     def scales(self):
         return jnp.abs(self.scales_bare) + self.epsilon
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         """Compute log probability density at given points.
 
         Args:
@@ -598,7 +598,7 @@ class DiagonalNormal(ArrayDistribution):
         log_density -= 0.5 * self.dim * jnp.log(2 * jnp.pi)
         return log_density - jnp.sum(jnp.log(self.scales), axis=-1)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Generate samples from the distribution.
 
         Args:
@@ -656,7 +656,7 @@ class MixtureStack(Distribution):
     def get_batch_shape(self, x):
         return self._dist(0).get_batch_shape(x)
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
@@ -670,7 +670,7 @@ class MixtureStack(Distribution):
         )
         return self._dist(component_indices).sample((), rng=rng_sample)[0]
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
         samples = self._sample(jax.random.split(rng, total))
@@ -739,8 +739,8 @@ class GaussianMixture(Distribution):
     def weights(self):
         return self.mixture.weights_normalized
 
-    def log_density(self, x):
+    def log_density(self, x, **kwargs):
         return self.mixture.log_density(x)
 
-    def sample(self, batch_shape=(), rng=None):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         return self.mixture.sample(batch_shape, rng)
-- 
2.43.0


From 4c3f758902659f03bf175ff6a26c87a3b96cad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 29/46] fix: Transformed.log_density passes keyword arguments
 to the bijection

---
 src/bijx/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index 982fc21..d234f9b 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -113,7 +113,7 @@ class Transformed(Distribution):
             Log density values at the input points.
         """
         log_density = jnp.zeros(self.get_batch_shape(x))
-        x, delta = self.bijection.reverse(x, log_density)
+        x, delta = self.bijection.reverse(x, log_density, **kwargs)
         return self.prior.log_density(x, **kwargs) - delta
 
 
-- 
2.43.0


From 4aac2f2a60b0a92c5478f6d6037cf20134f8d1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 30/46] fix: BufferedSampler hands out every buffered sample
 exactly once

---
 src/bijx/samplers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/samplers.py b/src/bijx/samplers.py
index d234f9b..da4e2fd 100644
--- a/src/bijx/samplers.py
+++ b/src/bijx/samplers.py
@@ -192,7 +192,11 @@ class BufferedSampler(Distribution):
                     **kwargs,
                 ),
             ),
-            lambda sampler: (sampler, self.buffer_index + 1, self.buffer.get_value()),
+            lambda sampler: (
+                sampler,
+                self.buffer_index.get_value(),
+                self.buffer.get_value(),
+            ),
             self.dist,
         )
 
-- 
2.43.0


From 4f5a8f5970d58f15ee050d26e16f953358829611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 31/46] fix: mixtures pass keyword arguments to their
 components

---
 src/bijx/distributions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 0c00b03..3c6e3f7 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -657,25 +657,26 @@ class MixtureStack(Distribution):
         return self._dist(0).get_batch_shape(x)
 
     def log_density(self, x, **kwargs):
-        lds = nnx.vmap(lambda d: d.log_density(x), out_axes=-1)(self.stack)
+        lds = nnx.vmap(lambda d: d.log_density(x, **kwargs), out_axes=-1)(self.stack)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
-    @partial(jax.vmap, in_axes=(None, 0))
-    def _sample(self, rng):
+    def _sample(self, rng, **kwargs):
         rng_choice, rng_sample = jax.random.split(rng)
         component_indices = jax.random.choice(
             rng_choice,
             self.dist_count,
             p=self.weights_normalized,
         )
-        return self._dist(component_indices).sample((), rng=rng_sample)[0]
+        return self._dist(component_indices).sample((), rng=rng_sample, **kwargs)[0]
 
     def sample(self, batch_shape=(), rng=None, **kwargs):
         total = int(np.prod(batch_shape) if batch_shape else 1)
         rng = self._get_rng(rng)
-        samples = self._sample(jax.random.split(rng, total))
+        samples = jax.vmap(lambda rng: self._sample(rng, **kwargs))(
+            jax.random.split(rng, total)
+        )
         samples = jax.tree.map(lambda x: x.reshape(*batch_shape, *x.shape[1:]), samples)
-        log_density = self.log_density(samples)
+        log_density = self.log_density(samples, **kwargs)
         return samples, log_density
 
 
@@ -740,7 +741,7 @@ class GaussianMixture(Distribution):
         return self.mixture.weights_normalized
 
     def log_density(self, x, **kwargs):
-        return self.mixture.log_density(x)
+        return self.mixture.log_density(x, **kwargs)
 
     def sample(self, batch_shape=(), rng=None, **kwargs):
-        return self.mixture.sample(batch_shape, rng)
+        return self.mixture.sample(batch_shape, rng, **kwargs)
-- 
2.43.0


From c86759b9a73a720ad5500cb455c124158bbab995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:38 +0000
Subject: [PATCH 32/46] fix: mixture densities inside jax transformations

---
 src/bijx/distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/distributions.py b/src/bijx/distributions.py
index 3c6e3f7..eeb1214 100644
--- a/src/bijx/distributions.py
+++ b/src/bijx/distributions.py
@@ -657,7 +657,11 @@ class MixtureStack(Distribution):
         return self._dist(0).get_batch_shape(x)
 
     def log_density(self, x, **kwargs):
-        lds = nnx.vmap(lambda d: d.log_density(x, **kwargs), out_axes=-1)(self.stack)
+        # jax.vmap instead of nnx.vmap, which cannot be nested in jax transformations
+        def component_log_density(dist_vars):
+            return nnx.merge(self.dist_graph, dist_vars).log_density(x, **kwargs)
+
+        lds = jax.vmap(component_log_density, out_axes=-1)(self.dist_vars)
         return jax.nn.logsumexp(lds + self.weights_log_normalized, axis=-1)
 
     def _sample(self, rng, **kwargs):
-- 
2.43.0


From ea3915f4e16c360b85cbbbd53b19b36764f67274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 33/46] fix: eigenangle functions keep exactly the documented
 batch shape

---
 src/bijx/lie.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 3138d93..ca53a40 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -334,9 +334,7 @@ def compute_haar_density(eigenvalue_angles):
         - For visualization, divide by total volume to get probability density
         - For SU(2), this reduces to $\abs{2i \sin(\theta)}^2 = 4\sin^2(\theta)$
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     # Add the constraint angle θₙ = -∑ᵢ₌₁ⁿ⁻¹ θᵢ
     all_angles = jnp.concatenate(
@@ -356,9 +354,7 @@ def compute_haar_density(eigenvalue_angles):
             diff = eigenvalues[..., i] - eigenvalues[..., j]
             density *= jnp.abs(diff) ** 2
 
-    return (
-        jnp.squeeze(density) if density.ndim > 0 and density.shape[-1] == 1 else density
-    )
+    return density
 
 
 def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
@@ -402,9 +398,7 @@ def construct_su_matrix_from_eigenvalues(rng, eigenvalue_angles):
         - The eigenvectors are sampled uniformly, giving the correct Haar measure
         - Each call with the same rng and angles gives identical results
     """
-    eigenvalue_angles = jnp.atleast_2d(eigenvalue_angles)
-    if eigenvalue_angles.ndim == 1:
-        eigenvalue_angles = eigenvalue_angles[..., None]
+    eigenvalue_angles = jnp.atleast_1d(eigenvalue_angles)
 
     batch_shape = eigenvalue_angles.shape[:-1]
     n = eigenvalue_angles.shape[-1] + 1  # SU(n) dimension
-- 
2.43.0


From 088870bfae94dd6fc02e75c4d2508d82e1b6ddcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 34/46] fix: lie.grad of functions with auxiliary outputs

---
 src/bijx/lie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index ca53a40..5b1129e 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -699,13 +699,17 @@ def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless
             )
         else:
             a = jax.grad(fn, argnums=argnum, has_aux=has_aux)(*args, **kwargs)
+            if has_aux:
+                a, aux = a
 
         if callable(algebra):
             a = algebra(a, u)
         else:
             a = jnp.sum(_proj(a, u, algebra), axis=0)
 
-        return (val, a) if return_value else a
+        if return_value:
+            return val, a
+        return (a, aux) if has_aux else a
 
     return wrapped
 
-- 
2.43.0


From 3b587d76d1146027dfb6ba2a6c0f9ecb05a20dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 35/46] fix: lie.grad with respect to arrays of group elements

---
 src/bijx/lie.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 5b1129e..0270d52 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -636,11 +636,12 @@ def skew_traceless_cot(a, u):
     # Df^dagger
     a = jnp.swapaxes(a, -1, -2)
     # transport to identity
-    a = jnp.einsum("...ij,jk->...ik", u, a)
+    a = jnp.einsum("...ij,...jk->...ik", u, a)
     # project to skew symmetric
     a = jnp.swapaxes(a, -1, -2).conj() - a
     # project to traceless
-    a = a - jnp.trace(a) / a.shape[-1] * np.eye(a.shape[-1])
+    trace = jnp.trace(a, axis1=-2, axis2=-1)[..., None, None]
+    a = a - trace / a.shape[-1] * np.eye(a.shape[-1])
     return a
 
 
@@ -650,7 +651,7 @@ def _proj(a, u, gen):
 
     This can be used to project onto a general basis of generators.
     """
-    return jnp.sum(a * (gen @ u)).real * gen
+    return jnp.sum(a * (gen @ u), axis=(-2, -1), keepdims=True).real * gen
 
 
 def grad(fn, argnum=0, return_value=False, has_aux=False, algebra=skew_traceless_cot):
-- 
2.43.0


From e578666aaeef83a790306b9e3ae0b6061be2b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 36/46] fix: HaarDistribution can be sampled without a batch
 shape

---
 src/bijx/lie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lie.py b/src/bijx/lie.py
index 0270d52..1bf9a17 100644
--- a/src/bijx/lie.py
+++ b/src/bijx/lie.py
@@ -258,7 +258,7 @@ class HaarDistribution(ArrayDistribution):
         base_shape = (*lat_shape, len(lat_shape))
         return cls(n, base_shape, rngs)
 
-    def sample(self, batch_shape, rng=None, **kwargs):
+    def sample(self, batch_shape=(), rng=None, **kwargs):
         """Sample SU(N) matrices from Haar measure.
 
         Args:
-- 
2.43.0


From aa8e1c9aeb948156a6098979fe29f09a26239b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 37/46] fix: correlation_length marginalises all but one axis

---
 src/bijx/lattice/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index d252d2b..ed20ec7 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -263,7 +263,7 @@ def correlation_length(two_point: jax.Array) -> jax.Array:
     Returns:
         Scalar estimate of the correlation length $\xi$.
     """
-    marginal = jnp.mean(two_point, axis=0)
+    marginal = jnp.mean(two_point, axis=tuple(range(two_point.ndim - 1)))
     arg = (jnp.roll(marginal, 1) + jnp.roll(marginal, -1)) / (2 * marginal)
     mp = jnp.arccosh(arg[1:])
     return 1 / jnp.nanmean(mp)
-- 
2.43.0


From ed89344cd6e50843034f07cd8693daf593095b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 38/46] fix: lattice action densities use the documented
 forward neighbours

---
 src/bijx/lattice/scalar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bijx/lattice/scalar.py b/src/bijx/lattice/scalar.py
index ed20ec7..a8bd3bd 100644
--- a/src/bijx/lattice/scalar.py
+++ b/src/bijx/lattice/scalar.py
@@ -293,7 +293,7 @@ def kinetic_term(phi: jax.Array) -> jax.Array:
         >>> jnp.allclose(T, 0.0)
         Array(True, dtype=bool)
     """
-    a = reduce(jnp.add, [(jnp.roll(phi, 1, y) - phi) ** 2 for y in range(phi.ndim)])
+    a = reduce(jnp.add, [(jnp.roll(phi, -1, y) - phi) ** 2 for y in range(phi.ndim)])
     return a
 
 
@@ -395,7 +395,7 @@ def phi4_term_alt(
     kinetic = (
         (-2 * kappa)
         * phi
-        * reduce(jnp.add, [jnp.roll(phi, 1, y) for y in range(phi.ndim)])
+        * reduce(jnp.add, [jnp.roll(phi, -1, y) for y in range(phi.ndim)])
     )
     if lam is None:
         return kinetic + phi**2
-- 
2.43.0


From a85c007e67b97e59e36bee3e19c4e9f3681821d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 39/46] fix: ShapeInfo can be hashed and compared to other
 objects

---
 src/bijx/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index d34d80b..47cb57d 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -466,9 +466,11 @@ class ShapeInfo:
 
     def __hash__(self) -> int:
         _, info = self._tree_flatten()
-        return hash(info)
+        return hash(tuple(info.items()))
 
     def __eq__(self, value: object) -> bool:
+        if not isinstance(value, ShapeInfo):
+            return NotImplemented
         _, info_self = self._tree_flatten()
         _, info_other = value._tree_flatten()
         return info_self == info_other
-- 
2.43.0


From 79e9ddcbcde594322db1c12f73aa51b34fbfc61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 40/46] fix: flattening events of an empty batch

---
 src/bijx/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/utils.py b/src/bijx/utils.py
index 47cb57d..29411e1 100644
--- a/src/bijx/utils.py
+++ b/src/bijx/utils.py
@@ -387,7 +387,7 @@ class ShapeInfo:
         batched_shape = jnp.shape(x)
         batch_shape, info = self.process_event(batched_shape)
 
-        return jnp.reshape(x, batch_shape + (-1,)), batch_shape, info
+        return jnp.reshape(x, batch_shape + (info.event_size,)), batch_shape, info
 
     def process_and_canonicalize(self, x: jax.Array):
         """Process array and canonicalize event dimensions to (batch, *space, channel).
-- 
2.43.0


From c55fe3405df9330f6c8d9f8445e611e4e314f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 41/46] fix: wrapped flowjax modules can be differentiated and
 passed through nnx transformations

---
 src/bijx/flowjax.py | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/bijx/flowjax.py b/src/bijx/flowjax.py
index 6414e01..066f732 100644
--- a/src/bijx/flowjax.py
+++ b/src/bijx/flowjax.py
@@ -28,11 +28,36 @@ import flowjax.bijections
 import flowjax.distributions
 import jax
 import jax.numpy as jnp
+import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
 from .bijections.base import Bijection
 from .distributions import Distribution
+from .utils import Const
+
+
+def _leaf_kind(leaf):
+    if not isinstance(leaf, jax.Array | np.ndarray):
+        return "static"
+    return "param" if jnp.issubdtype(leaf.dtype, jnp.inexact) else "array"
+
+
+def _split_leaves(module):
+    """Split flowjax module into trainable, array, and static leaves + structure."""
+    leaves, treedef = jax.tree.flatten(module)
+    kinds = tuple(map(_leaf_kind, leaves))
+    params, arrays, static = (
+        [x for x, k in zip(leaves, kinds) if k == kind]
+        for kind in ("param", "array", "static")
+    )
+    return nnx.Param(params), Const(arrays), (kinds, tuple(static), treedef)
+
+
+def _merge_leaves(params, arrays, structure):
+    kinds, static, treedef = structure
+    leaves = {"param": iter(params), "array": iter(arrays), "static": iter(static)}
+    return jax.tree.unflatten(treedef, [next(leaves[kind]) for kind in kinds])
 
 
 class FlowjaxToBijxBijection(Bijection):
@@ -58,8 +83,8 @@ class FlowjaxToBijxBijection(Bijection):
             flowjax_bijection: FlowJAX bijection to wrap.
             cond_name: Keyword argument name for passing conditional inputs.
         """
-        params, self.treedef = jax.tree.flatten(flowjax_bijection)
-        self.params = nnx.Param(params)
+        self.params, self.arrays, structure = _split_leaves(flowjax_bijection)
+        self.structure = nnx.static(structure)
         self.cond_name = cond_name
 
         conditional_shape = flowjax_bijection.cond_shape
@@ -84,7 +109,7 @@ class FlowjaxToBijxBijection(Bijection):
         Returns:
             The FlowJAX bijection with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _merge_leaves(self.params, self.arrays, self.structure)
 
     def forward(self, x, log_density, **kwargs):
         """Apply forward transformation using FlowJAX bijection.
@@ -262,8 +287,8 @@ class FlowjaxToBijxDistribution(Distribution):
             rngs: Random number generators for bijx compatibility.
         """
         super().__init__(rngs)
-        params, self.treedef = jax.tree.flatten(flowjax_dist)
-        self.params = nnx.Param(params)
+        self.params, self.arrays, structure = _split_leaves(flowjax_dist)
+        self.structure = nnx.static(structure)
         self.cond_name = cond_name
 
         self.event_shape = flowjax_dist.shape
@@ -276,7 +301,7 @@ class FlowjaxToBijxDistribution(Distribution):
         Returns:
             The FlowJAX distribution with current parameter values.
         """
-        return jax.tree.unflatten(self.treedef, self.params)
+        return _merge_leaves(self.params, self.arrays, self.structure)
 
     def get_batch_shape(self, x):
         """Infer batch shape from input array and known event shape.
-- 
2.43.0


From e70977394527e9576ab9f4974ae7bcacea7dcf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 42/46] fix: BetaStretch reverse at the upper end of the
 interval

---
 src/bijx/bijections/scalar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bijx/bijections/scalar.py b/src/bijx/bijections/scalar.py
index afc3826..e561c82 100644
--- a/src/bijx/bijections/scalar.py
+++ b/src/bijx/bijections/scalar.py
@@ -657,5 +657,6 @@ class BetaStretch(ScalarBijection):
 
     def rev(self, y, **kwargs):
         a = self.a.get_value()
-        r = (y / (1 - y)) ** (1 / a)
-        return r / (r + 1)
+        # ratio (1 - x) / x; well-defined at both ends of the interval
+        r = ((1 - y) / y) ** (1 / a)
+        return 1 / (r + 1)
-- 
2.43.0


From 91f2675ac6f16d4468b151e79ee7bdc587fd441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 43/46] fix: SinhConjugation is accurate to working precision
 around and beyond the switch to its linear tails

---
 src/bijx/bijections/analytic.py | 79 ++++++---------------------------
 1 file changed, 13 insertions(+), 66 deletions(-)

diff --git a/src/bijx/bijections/analytic.py b/src/bijx/bijections/analytic.py
index 11a3d03..7725db6 100644
--- a/src/bijx/bijections/analytic.py
+++ b/src/bijx/bijections/analytic.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 from flax import nnx
 from jax_autovmap import autovmap
 
@@ -116,13 +117,17 @@ class CubicRational(ScalarBijection):
 
 @jax.jit
 @autovmap(x=0, beta=0, mu=0, nu=0)
-def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=15.0):
+def sinh_nonlinearity(x, beta=0.0, mu=0.0, nu=0.0, threshold=None):
     """Bijective nonlinearity: f(x) = arcsinh(exp(mu) * (exp(nu) * sinh(x) + beta)).
 
     Inverse is given by mu=-nu, nu=-mu, beta=-beta.
 
-    Threshold is used for numerical stability.
+    Threshold is used for numerical stability. By default, it is placed where the
+    asymptotic forms agree with the exact ones up to the precision of the input.
     """
+    if threshold is None:
+        threshold = -float(np.log(jnp.finfo(jnp.result_type(x, float)).eps))
+
     # For |x| >= threshold, use asymptotic forms
     log_mu_nu = mu + nu
 
@@ -162,74 +167,16 @@ def log_cosh_stable(x):
 
 @jax.jit
 @autovmap(x=0, beta=0, mu=0, nu=0)
-def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=15.0):
+def log_grad_sinh_nonlinearity(x, beta=0.0, mu=1.0, nu=1.0, threshold=None):
     """
     Numerically stable computation of log(f'(x)) where
     f(x) = arcsinh(exp(mu) * (exp(nu) * sinh(x) + beta)).
-    """
-    # For large |x|, the gradient approaches 1, so log(gradient) → 0
-    asymptotic_result = 0.0
-
-    # Check if we're in asymptotic regime
-    in_asymptotic = jnp.abs(x) > threshold
-
-    # CRITICAL: Clamp x BEFORE any computation to ensure both branches are safe
-    # This prevents sinh overflow even when gradients flow through the middle branch
-    x_clamped = jnp.clip(x, -threshold, threshold)
-    sinh_x = jnp.sinh(x_clamped)
-
-    # Compute exp(mu) and exp(nu) - protect against overflow
-    exp_mu_raw = jnp.exp(mu)
-    exp_nu_raw = jnp.exp(nu)
-    exp_max = 1e10
-    exp_mu = jnp.where(
-        jnp.isfinite(exp_mu_raw), jnp.clip(exp_mu_raw, 0.0, exp_max), exp_max
-    )
-    exp_nu = jnp.where(
-        jnp.isfinite(exp_nu_raw), jnp.clip(exp_nu_raw, 0.0, exp_max), exp_max
-    )
-
-    # Compute arg - safe because sinh_x is bounded
-    beta_safe = jnp.clip(beta, -1e5, 1e5)
-    arg_raw = exp_mu * (exp_nu * sinh_x + beta_safe)
-
-    # Protect arg from becoming inf/nan
-    arg_max = 1e10
-    arg = jnp.where(jnp.isfinite(arg_raw), jnp.clip(arg_raw, -arg_max, arg_max), 0.0)
-    arg_squared = arg * arg
-
-    # Stable log(cosh(x)) computation - safe because x_clamped is bounded
-    log_cosh_x = log_cosh_stable(x_clamped)
-
-    # Stable computation of log(sqrt(1 + arg^2)) = 0.5 * log(1 + arg^2)
-    # For small arg^2, use log1p for accuracy
-    # For large arg^2, use 0.5 * log(arg^2) which is more stable on GPU than log(|arg|)
-    threshold_arg_sq = 1e8  # Lower threshold for smoother transition on GPU
-
-    # When arg^2 is small: use log1p for precision
-    log_sqrt_denom_small = 0.5 * jnp.log1p(arg_squared)
 
-    # When arg^2 is large: log(sqrt(1 + arg^2)) ≈ 0.5 * log(arg^2) = log(|arg|)
-    # Use 0.5 * log(arg^2) directly for better GPU numerical stability
-    # Add small epsilon to prevent log(0) in edge cases
-    log_sqrt_denom_large = 0.5 * jnp.log(jnp.maximum(arg_squared, 1e-20))
-
-    log_sqrt_denom = jnp.where(
-        arg_squared < threshold_arg_sq, log_sqrt_denom_small, log_sqrt_denom_large
-    )
-
-    # Final safeguard: ensure result is finite (handles GPU numerical edge cases)
-    log_sqrt_denom = jnp.where(
-        jnp.isfinite(log_sqrt_denom), log_sqrt_denom, log_sqrt_denom_small
-    )
-
-    # Combine - this is safe even when |x| > threshold because x_clamped is bounded
-    middle_result = mu + nu + log_cosh_x - log_sqrt_denom
-
-    # Select based on x magnitude - both branches are now safe
-    result = jnp.where(in_asymptotic, asymptotic_result, middle_result)
-
-    return result
+    With sqrt(1 + sinh(y)^2) = cosh(y), this is mu + nu + log(cosh(x) / cosh(f(x))),
+    which never forms large intermediate values.
+    """
+    y = sinh_nonlinearity(x, beta, mu, nu, threshold)
+    return mu + nu + log_cosh_stable(x) - log_cosh_stable(y)
 
 
 class SinhConjugation(ScalarBijection):
-- 
2.43.0


From 917177bcd0b20dc171dc1ea159c7d78d694a44a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 44/46] fix: ToFourierData with the default representation is
 invertible when unpacking

rep=None means no conversion, but the reverse pass of an unpacked layer then built
FourierData with representation None, whose conversion recursed without end.
---
 src/bijx/bijections/fourier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bijx/bijections/fourier.py b/src/bijx/bijections/fourier.py
index 388b33f..7e0f9f2 100644
--- a/src/bijx/bijections/fourier.py
+++ b/src/bijx/bijections/fourier.py
@@ -206,7 +206,7 @@ class ToFourierData(Bijection):
 
     def __init__(self, real_shape, rep=None, channel_dim=0, unpack=False):
         self.meta = FourierMeta.create(real_shape, channel_dim)
-        self.rep = rep
+        self.rep = FFTRep.real_space if rep is None else rep
         self.unpack = unpack
 
     def forward(self, x, log_density, **kwargs):
-- 
2.43.0


From f44b4f4ae427741220a099876c8448b41372274a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 45/46] fix: arguments beyond input_ranks are passed on
 unvectorized by AutoVmapReconstructor

Padding the rank specification with None dropped the entry from the rank pytree, so any
call with an array argument beyond the given ranks failed.
---
 src/bijx/bijections/coupling.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bijx/bijections/coupling.py b/src/bijx/bijections/coupling.py
index d7c8a61..7d92c2c 100644
--- a/src/bijx/bijections/coupling.py
+++ b/src/bijx/bijections/coupling.py
@@ -516,16 +516,22 @@ class AutoVmapReconstructor(nnx.Pytree):
         input_ranks = tuple(input_ranks)
         input_ranks += (None,) * (len(args) - len(input_ranks))
 
+        # arguments of rank None are not vectorized over but passed on as they are
+        mapped = [i for i, _ in enumerate(args) if input_ranks[i] is not None]
+
         @autovmap(
             self.params_rank,
-            input_ranks,
+            tuple(input_ranks[i] for i in mapped),
         )
-        def apply(params, args):
+        def apply(params, mapped_args):
             module = self.reconstructor.from_params(params)
             fn = getattr(module, fn_name)
-            return fn(*args, **kwargs)
+            full_args = list(args)
+            for i, arg in zip(mapped, mapped_args, strict=True):
+                full_args[i] = arg
+            return fn(*full_args, **kwargs)
 
-        return apply(self.params, args)
+        return apply(self.params, tuple(args[i] for i in mapped))
 
     def __getattr__(self, name: str):
         module = self.reconstructor.from_params(self.params)
-- 
2.43.0


From a98362cf286cd948f476963bfcf19d44a505e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 46/46] fix: let DiffraxConfig hold solver_state,
 controller_state and made_jump arrays

These fields hold array pytrees but were static attributes, so nnx.Pytree
refused every non-None value and integrations could not be resumed.
---
 src/bijx/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bijx/solvers.py b/src/bijx/solvers.py
index e35f6ae..8418190 100644
--- a/src/bijx/solvers.py
+++ b/src/bijx/solvers.py
@@ -70,9 +70,9 @@ class DiffraxConfig(nnx.Pytree):
     event: diffrax.Event | None = None
     max_steps: int | None = 4096
     throw: bool = True
-    solver_state: ftp.ArrayPytree | None = None
-    controller_state: ftp.ArrayPytree | None = None
-    made_jump: bool | None = None
+    solver_state: ftp.ArrayPytree | None = nnx.data(default=None)
+    controller_state: ftp.ArrayPytree | None = nnx.data(default=None)
+    made_jump: bool | None = nnx.data(default=None)
 
     def replace(self, **changes):
         """Create new config with specified parameters replaced."""
-- 
2.43.0

