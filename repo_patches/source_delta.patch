From 048cace3a63e27994a42516d5a9102b09911e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 01/22] fix: nnls takes the feasible step of the inner loop

The step length alpha in the inner loop of the active set method had the
wrong sign, so that a step which would make entries negative moved away
from the least squares solution.  The result was not the non-negative
least squares solution, or the loop never terminated.  Also make sure that
the entries limiting the step always leave the passive set, irrespective
of rounding.
---
 glass/algorithm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..c09d7cd 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,8 +100,14 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
-            x = xpx.at(x)[q].add(alpha * (sq - xq))
+            # longest step towards sq that keeps all entries non-negative
+            step = xp.where(t, xq / xp.where(t & (xq > 0), xq - sq, 1.0), 1.0)
+            alpha = xp.min(step)
+            xq = xq + alpha * (sq - xq)
+            # entries which limit the step are now exactly at the boundary, make
+            # sure they always become inactive irrespective of rounding
+            xq = xp.where(t & (step <= alpha), 0.0, xq)
+            x = xpx.at(x)[q].set(xq)
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
         x = xpx.at(x)[~q].set(0)
-- 
2.43.0


From 887cf1dbdb36928c2a3dacdfd32b8887afdfe9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 02/22] fix: nearcorr supports stacks with more than one
 leading dimension

The initial Dykstra correction had the shape of the input instead of the
shape with flattened leading dimensions.
---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index c09d7cd..914b647 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -201,7 +201,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From 2a299330b685004c24fb579b0292b5424e152634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 03/22] fix: cov_clip returns zero for matrices without
 positive eigenvalues

The threshold for clipping was negative when the largest eigenvalue was
negative, so that the square root of the clipped eigenvalues was NaN.
---
 glass/algorithm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 914b647..12f00cd 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -146,8 +146,11 @@ def cov_clip(
     if rtol is None:
         rtol = max(v.shape[-2], v.shape[-1]) * xp.finfo(w.dtype).eps
 
+    # the threshold for clipping must never be negative
+    wmax = xp.clip(xp.max(w, axis=-1, keepdims=True), 0.0, None)
+
     # clip negative diagonal values
-    w = xp.clip(w, rtol * xp.max(w, axis=-1, keepdims=True), None)
+    w = xp.clip(w, rtol * wmax, None)
 
     # put matrix back together
     # enforce symmetry
-- 
2.43.0


From 2e75b1ed23e6bab60d8729f71ec9ff910252771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 04/22] fix: redshift and distance grids stop at the requested
 value

The grids with fixed spacing were created using arange(start, stop + step,
step), which due to rounding often contains an additional point one full
step beyond the requested maximum.
---
 glass/shells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..be99ed1 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -877,7 +877,9 @@ def _uniform_grid(
     xp = _utils.default_xp() if xp is None else xp
 
     if step is not None and num is None:
-        return xp.arange(start, stop + step, step)
+        # number of steps to reach the stop value, up to rounding errors
+        n = math.ceil(round(float((stop - start) / step), 9))
+        return start + step * xp.arange(n + 1, dtype=xp.float64)
     if step is None and num is not None:
         return xp.linspace(start, stop, num + 1, dtype=xp.float64)
     msg = "exactly one of grid step size or number of steps must be given"
-- 
2.43.0


From 605b71338d3f4ecf6bb7e64784f92bea46c41a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 05/22] fix: fixed_zbins stops at the requested maximum

Due to rounding, the redshift bins of fixed size sometimes contained an
additional bin beyond the requested maximum.
---
 glass/observations.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/glass/observations.py b/glass/observations.py
index 5a3171a..909a22d 100644
--- a/glass/observations.py
+++ b/glass/observations.py
@@ -257,11 +257,9 @@ def fixed_zbins(
     if nbins is not None and dz is None:
         zbinedges = xp.linspace(zmin, zmax, nbins + 1)
     elif nbins is None and dz is not None:
-        zbinedges = xp.arange(
-            zmin,
-            xp.nextafter(xp.asarray(zmax + dz), xp.asarray(zmax)),
-            dz,
-        )
+        # number of bins to reach zmax, up to rounding errors
+        n = math.ceil(round((zmax - zmin) / dz, 9))
+        zbinedges = zmin + dz * xp.arange(n + 1, dtype=xp.float64)
     else:
         msg = "exactly one of nbins and dz must be given"
         raise ValueError(msg)
-- 
2.43.0


From 6661fde2e52a0d6503b1aba41703253276910f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 06/22] fix: redshifts_from_bins for multidimensional and empty
 bins

The sampled redshifts were sorted along the last axis of the bins only, so
that redshifts were duplicated, or drawn from the distribution of another
bin, when the bins had more than one dimension.  Empty bins raised an
exception.
---
 glass/galaxies.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..700adca 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -162,7 +162,12 @@ def redshifts_from_bins(
     xrng = glass.rng.Generator(rng=rng, xp=xp)
 
     # tally the bins
-    bin_label, _, bin_index, bin_count = xp.unique_all(bins)
+    # use flat array of bins, since the sorting below is along a single axis
+    bin_label, _, bin_index, bin_count = xp.unique_all(xp.reshape(bins, (-1,)))
+
+    # nothing to sample if there are no bins
+    if bin_index.shape[0] == 0:
+        return xp.empty(bins.shape)
 
     # sample the redshifts from each nz
     # concatenate into runs of redshifts for each bin
-- 
2.43.0


From 03448e9d6854610ea6be4d338206fced55b538f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 07/22] fix: resample_shapes for zero reduced shear variance

The scale factor was computed as 0/0 for varg=0, and suffered from
cancellation for small values of varg.
---
 glass/shapes.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..fee48f0 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,13 +411,14 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
-        r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
-        )
+        # solve quadratic equation for the squared scale factor, selecting the
+        # form without cancellation, which includes the limit of zero variance
+        b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
+        if b > 0:
+            r *= xp.sqrt(2 * (vare - varg) / (d + b))
+        else:
+            r *= xp.sqrt((d - b) / (2 * varg * eve4))
 
     # assign random orientations to shapes
     return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))
-- 
2.43.0


From 3c07156da6dc506b73a3451fe8126189a973ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 08/22] fix: triaxial_axis_ratio does not return NaN for flat
 ellipsoids

The numerator of the projected axis ratio can become negative by rounding
for vanishing minor axis.
---
 glass/shapes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index fee48f0..22bd91c 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -120,10 +120,9 @@ def triaxial_axis_ratio(
     b2 = 4 * z2m1**2 * cos2_theta * sin2_phi * cos2_phi
     c = 1 + z2m1 * cos2_phi
 
-    # eq. (12)
-    return xp.sqrt(
-        (a + c - xp.sqrt((a - c) ** 2 + b2)) / (a + c + xp.sqrt((a - c) ** 2 + b2)),
-    )
+    # eq. (12), where rounding must not make the numerator negative
+    d = xp.sqrt((a - c) ** 2 + b2)
+    return xp.sqrt(xp.clip(a + c - d, 0.0, None) / (a + c + d))
 
 
 def ellipticity_ryden04(  # noqa: PLR0913
-- 
2.43.0


From 247e1df993633494fc15cd6c076c927d346eaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 09/22] fix: iternorm for fields that are fully determined by
 previous fields

If the conditional standard deviation of a field is zero, the new row of
the matrix must vanish.  Only the last entry of the row did, so that any
subsequent correlated field was rejected as not positive definite.
---
 glass/fields.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..cf4b4df 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -155,8 +155,10 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
                 xp.ones(n, dtype=atm.dtype),
                 xp.zeros(n, dtype=atm.dtype),
             )
-            # assemble the new row
-            r = xp.concat([-atm, u[..., None, None]], axis=-1)
+            # assemble the new row, which vanishes if the field is fully determined
+            # by previous fields
+            u = u[..., None, None]
+            r = xp.concat([-u * atm, u], axis=-1)
             # set zero standard deviation to unity to prevent division by zero
             # this should be fine as corresponding entries in r are zero
             s = xp.where(s > 0, s, xp.ones(n, dtype=s.dtype))
-- 
2.43.0


From b690839bcc8f067da086b1efabc093491475fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 10/22] fix: iternorm accepts degenerate covariances up to
 rounding

Valid covariances of perfectly correlated fields were rejected as not
positive definite when the conditional variance of a field, which is zero,
came out negative by rounding.
---
 glass/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/fields.py b/glass/fields.py
index cf4b4df..f42de46 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -179,9 +179,10 @@ def iternorm(cov: Iterable[FloatArray]) -> Iterator[FloatArray]:
 
         # compute new standard deviation
         s = row[..., 0] - xp.vecdot(a, a)
-        if xp.any(s < 0):
+        # degenerate covariances can yield small negative values from rounding
+        if xp.any(s < -(xp.finfo(s.dtype).eps ** 0.5) * row[..., 0]):
             raise ValueError("covariance matrix is not positive definite")
-        s = xp.sqrt(s)
+        s = xp.sqrt(xp.clip(s, 0.0, None))
 
         # concatenate a and s into a single scaling vector
         w = xp.concat([a, s[..., None]], axis=-1)
-- 
2.43.0


From 691be46240a9e31cca5e9c3545b016da2d6a40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:02 +0000
Subject: [PATCH 11/22] fix: position_weights accepts a scalar integer bias

Only scalar bias values of type float were converted to arrays.
---
 glass/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/points.py b/glass/points.py
index 593c023..366fec3 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -637,7 +637,7 @@ def position_weights(
     """
     xp = array_api_compat.array_namespace(densities, bias, use_compat=False)
 
-    bias = bias if bias is None or not isinstance(bias, float) else xp.asarray(bias)
+    bias = xp.asarray(float(bias)) if isinstance(bias, (int, float)) else bias
 
     # bring densities and bias into the same shape
     if bias is not None:
-- 
2.43.0


From 53a2c1f4949705960c7f5cb551589b8193e4d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 12/22] fix: grf.solve terminates if the step is undefined

For spectra which cannot be realised, the solution and hence the steps of
the solver become NaN, and the search for an improved solution never
terminated.  Stop with info=0 (not converged) instead.
---
 glass/grf/_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glass/grf/_solver.py b/glass/grf/_solver.py
index 3f58d0f..7cc3767 100644
--- a/glass/grf/_solver.py
+++ b/glass/grf/_solver.py
@@ -126,6 +126,10 @@ def solve(  # noqa: PLR0912, PLR0913
         if monopole is not None:
             xl[0] = 0
 
+        # solution cannot be improved if the step is undefined
+        if not np.all(np.isfinite(xl)):
+            break
+
         # we know the "direction" of the step xl at this point
         # make xl smaller (by half) until we get an improved solution
         while True:
-- 
2.43.0


From 8b086c31643b042d585c9311ee7f3854aa05d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 13/22] fix: positions_from_delta draws in-pixel positions from
 the given RNG

The random positions within pixels were always drawn from a new RNG with
the default seed, ignoring the given RNG.  The positions relative to the
pixels were hence the same for each batch, population, and call.
---
 glass/healpix.py | 40 ++++++++++++++++++++++++++++++++++------
 glass/points.py  |  7 ++++++-
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/glass/healpix.py b/glass/healpix.py
index 69c2439..77c68d3 100644
--- a/glass/healpix.py
+++ b/glass/healpix.py
@@ -25,7 +25,13 @@ if TYPE_CHECKING:
     from collections.abc import Sequence
     from types import ModuleType
 
-    from glass._types import ComplexArray, DTypeLike, FloatArray, IntArray
+    from glass._types import (
+        ComplexArray,
+        DTypeLike,
+        FloatArray,
+        IntArray,
+        UnifiedGenerator,
+    )
 
 
 def _get_healpy_datapath() -> str | None:
@@ -395,20 +401,38 @@ def query_strip(
     return xp.asarray(output, dtype=dtype)
 
 
+class _WritableRandom:
+    """
+    Wrapper for RNGs to return writable NumPy arrays.
+
+    This is required by ``healpix.randang()``, otherwise we run into a ``operand
+    array with iterator write flag set is read-only`` error coming from
+    ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
+
+    """
+
+    def __init__(self, rng: UnifiedGenerator) -> None:
+        self.rng = rng
+
+    def random(
+        self,
+        size: int | tuple[int, ...] | None = None,
+        dtype: DTypeLike = np.double,
+    ) -> FloatArray:
+        return np.array(self.rng.random(size), dtype=dtype)
+
+
 @numpy_fallback
 def randang(
     nside: int,
     ipix: IntArray,
     *,
     lonlat: bool = False,
+    rng: UnifiedGenerator | None = None,
 ) -> tuple[FloatArray, FloatArray]:
     """
     Sample random spherical coordinates from the given HEALPix pixels.
 
-    ``rng`` is no longer a parameter as we must use the NumPy backend otherwise
-    we run into a ``operand array with iterator write flag set is read-only``
-    error coming from ``_chp.ring2ang_uv(nside, ipix, u, v, u, v)``.
-
     Parameters
     ----------
     nside
@@ -417,17 +441,21 @@ def randang(
         HEALPix pixel number.
     lonlat
         If True, automatically adjust latitudes to be within [-90, 90] range.
+    rng
+        Random number generator. If not given, a default RNG is used.
 
     Returns
     -------
         A tuple ``theta, phi`` of mathematical coordinates.
 
     """
+    if rng is None:
+        rng = glass.rng.default_rng(xp=np)
     theta, phi = healpix.randang(
         nside,
         ipix,
         lonlat=lonlat,
-        rng=glass.rng.default_rng(xp=np),
+        rng=_WritableRandom(rng),
     )
     return theta, phi
 
diff --git a/glass/points.py b/glass/points.py
index 366fec3..bbebac4 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -353,6 +353,8 @@ def _sample_galaxies_per_pixel(
     dims: tuple[int, ...],
     k: tuple[int, ...],
     n: FloatArray,
+    *,
+    rng: UnifiedGenerator | None = None,
 ) -> Generator[
     tuple[
         FloatArray,
@@ -374,6 +376,8 @@ def _sample_galaxies_per_pixel(
         Indices for the extra dimensions.
     n
         Number density.
+    rng
+        Random number generator.
 
     Yields
     ------
@@ -428,6 +432,7 @@ def _sample_galaxies_per_pixel(
                 nside,
                 ipix,
                 lonlat=True,
+                rng=rng,
             )
             # next batch
             start, size = stop, 0
@@ -537,7 +542,7 @@ def positions_from_delta(  # noqa: PLR0913
 
         n = _sample_number_galaxies(n, rng=xrng)
 
-        yield from _sample_galaxies_per_pixel(batch, dims, k, n)
+        yield from _sample_galaxies_per_pixel(batch, dims, k, n, rng=xrng)
 
 
 def uniform_positions(
-- 
2.43.0


From 487f8b1aaf90b80bb0ffb07390b582af2a6c5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 14/22] fix: multi_plane_weights for weights with extra axes

---
 glass/lensing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index e7004ec..cbdd11f 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -681,7 +681,8 @@ def multi_plane_weights(
     weights = weights / xp.sum(weights, axis=0)
     # combine weights and the matrix of lensing contributions
     mat = multi_plane_matrix(shells, cosmo)
-    return xp.matmul(mat.T, weights)
+    # contract the first axis of weights, keeping any extra axes
+    return xp.tensordot(mat.T, weights, axes=1)
 
 
 def deflect(
-- 
2.43.0


From b094eba40fe45550c2a1472aa2730b6a923fd6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 15/22] fix: trapezoid_product of three or more functions
 without overlap

The loop over the functions indexed the empty array of common sample
points; the integral is zero.
---
 glass/arraytools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glass/arraytools.py b/glass/arraytools.py
index 5340640..7f7adcc 100644
--- a/glass/arraytools.py
+++ b/glass/arraytools.py
@@ -181,6 +181,9 @@ def trapezoid_product(
     x: FloatArray
     x, _ = f
     for x_, _ in ff:
+        if x.shape[0] == 0:
+            # functions do not overlap
+            break
         x = typing.cast(
             "FloatArray",
             xpx.union1d(
-- 
2.43.0


From de7f0c81d517b8b480b45bce88ed2ec585f64fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 16/22] fix: trapezoid without sample points for array API
 backends

The default x=None was converted to an object array.
---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..2009eb4 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = None if x is None else dxp.asarray(x, copy=True)
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0


From 234bdd1ecf0c664811483cf083ad3ef16d00cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 17/22] fix: deflections with a leading axis for array backends
 without iteration

Iteration over multidimensional arrays is not part of the array API
standard, so that real-valued deflections and displacements could not be
used with array backends that only support the standard.
---
 glass/lensing.py | 2 +-
 glass/points.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/lensing.py b/glass/lensing.py
index cbdd11f..3e333b8 100644
--- a/glass/lensing.py
+++ b/glass/lensing.py
@@ -743,7 +743,7 @@ def deflect(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = alpha[0, ...], alpha[1, ...]
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
diff --git a/glass/points.py b/glass/points.py
index bbebac4..0f30fc2 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -698,7 +698,7 @@ def displace(
     if xp.isdtype(alpha.dtype, "complex floating"):
         alpha1, alpha2 = xp.real(alpha), xp.imag(alpha)
     else:
-        alpha1, alpha2 = alpha
+        alpha1, alpha2 = alpha[0, ...], alpha[1, ...]
 
     # we know great-circle navigation:
     # θ' = arctan2(√[(cosθ sin|α| - sinθ cos|α| cosγ)² + (sinθ sinγ)²],
-- 
2.43.0


From d12ac65dda746ce69bc439e5a3e99757e73c9b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 18/22] fix: combine with multidimensional weights for array
 backends without iteration

Iteration over multidimensional arrays is not part of the array API
standard, so that weights with extra axes could not be used with array
backends that only support the standard.
---
 glass/shells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glass/shells.py b/glass/shells.py
index be99ed1..e263b38 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -999,7 +999,7 @@ def combine(
     return xp.sum(
         xp.stack(
             [
-                xp.expand_dims(weight, axis=-1)
+                xp.expand_dims(weights[i, ...], axis=-1)
                 * uxpx.interp(
                     z,
                     shell.za,
@@ -1007,7 +1007,7 @@ def combine(
                     left=0.0,
                     right=0.0,
                 )
-                for shell, weight in zip(shells, weights, strict=False)
+                for i, shell in zip(range(weights.shape[0]), shells, strict=False)
             ],
         ),
         axis=0,
-- 
2.43.0


From 1eb7e4761a6ee97612d4bc8febdaa8d229a5a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 19/22] fix: discretized_cls with large lmax for standard array
 backends

Slices beyond the end of an axis are not part of the array API standard,
so that an lmax larger than that of the spectra raised an error with
array backends that only support the standard.
---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index f42de46..4ba1a32 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -295,7 +295,7 @@ def discretized_cls(
     for cl in cls:
         if cl.shape[0] > 0:
             if lmax is not None:
-                cl = cl[: lmax + 1]  # noqa: PLW2901
+                cl = cl[: min(cl.shape[0], lmax + 1)]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
                 cl = cl[:n] * pw[:n] ** 2  # noqa: PLW2901
-- 
2.43.0


From 143e600d8280ffc07c3565c6b9bf75d1e190b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 20/22] fix: loglinear_bias with bias parameters of larger
 shape

The in-place product failed for arrays of bias parameters that broadcast
the density contrast, unlike linear_bias.
---
 glass/points.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/glass/points.py b/glass/points.py
index 0f30fc2..28ebc7a 100644
--- a/glass/points.py
+++ b/glass/points.py
@@ -155,8 +155,7 @@ def loglinear_bias(
     """
     xp = array_api_compat.array_namespace(delta, b, use_compat=False)
 
-    delta_g = xp.log1p(delta)
-    delta_g *= b
+    delta_g = b * xp.log1p(delta)
     return xp.expm1(delta_g)
 
 
-- 
2.43.0


From 41390efbed9dd4a65b9e29f077947e9f0bb61f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:36 +0000
Subject: [PATCH 21/22] fix: count galaxies in small integer types without
 overflow

The running total of redshifts_from_nz(), ellipticity_gaussian() and
ellipticity_intnorm() had the type of the given counts, and overflowed
where the total number of galaxies does not fit into that type.
---
 glass/galaxies.py |  9 ++++++---
 glass/shapes.py   | 16 ++++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 700adca..8145c7b 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -257,16 +257,19 @@ def redshifts_from_nz(
         nz_out_slice = nz_out[(*k, ...)] if k != () else nz_out
         z_out_slice = z_out[(*k, ...)] if k != () else z_out
 
+        # Python integer, since small integer types cannot hold the total
+        n = int(count_out[k])
+
         # sample redshifts and store result
-        redshifts = xpx.at(redshifts)[total : total + count_out[k]].set(
+        redshifts = xpx.at(redshifts)[total : total + n].set(
             _draw_nz(
-                int(count_out[k]),
+                n,
                 z_out_slice,
                 nz_out_slice,
                 rng=xrng,
             ),
         )
-        total += count_out[k]
+        total += n
 
     assert total == redshifts.size  # noqa: S101
 
diff --git a/glass/shapes.py b/glass/shapes.py
index 22bd91c..a80229b 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -269,7 +269,9 @@ def ellipticity_gaussian(
     # reject those where abs(e) > 0
     i = 0
     for k in uxpx.ndindex(count_broadcasted.shape, xp=xp):
-        e = _populate_random_complex_array(count_broadcasted[k], rng=xrng)
+        # Python integer, since small integer types cannot hold the total
+        n = int(count_broadcasted[k])
+        e = _populate_random_complex_array(n, rng=xrng)
         e *= sigma_broadcasted[k]
         r = xp.abs(e) > 1
         while xp.count_nonzero(r) > 0:
@@ -278,8 +280,8 @@ def ellipticity_gaussian(
             )
             e = xpx.at(e)[r].multiply(sigma_broadcasted[k])
             r = xp.abs(e) > 1
-        eps = xpx.at(eps)[i : i + count_broadcasted[k]].set(e)
-        i += count_broadcasted[k]
+        eps = xpx.at(eps)[i : i + n].set(e)
+        i += n
 
     return typing.cast("ComplexArray", eps)
 
@@ -346,7 +348,9 @@ def ellipticity_intnorm(
     # sample complex ellipticities
     i = 0
     for k in uxpx.ndindex(count_broadcasted.shape, xp=xp):
-        e = _populate_random_complex_array(count_broadcasted[k], rng=xrng)
+        # Python integer, since small integer types cannot hold the total
+        n = int(count_broadcasted[k])
+        e = _populate_random_complex_array(n, rng=xrng)
         e *= sigma_eta[k]
         r = xp.hypot(xp.real(e), xp.imag(e))
         e *= xp.where(
@@ -355,8 +359,8 @@ def ellipticity_intnorm(
             xp.asarray(1.0, dtype=e.dtype),
         )
 
-        eps = xpx.at(eps)[i : i + count_broadcasted[k]].set(e)
-        i += count_broadcasted[k]
+        eps = xpx.at(eps)[i : i + n].set(e)
+        i += n
 
     return typing.cast("ComplexArray", eps)
 
-- 
2.43.0


From 709d14e9c5c5192661f9b6d5f54583c4f77138e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:59 +0000
Subject: [PATCH 22/22] fix: nnls with linearly dependent columns

---
 glass/algorithm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 12f00cd..d515e21 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -96,7 +96,9 @@ def nnls(
             # i.e. `[[a11],[a12],...]` rather than `[a11,a12,...]`
             aq = xp.take(a, xp.nonzero(q)[0], axis=1)
             xq = x[q]
-            sq = xp.linalg.solve(aq.T @ aq, b @ aq)
+            # pseudo-inverse, since columns can be linearly dependent
+            scale = xp.max(xp.abs(aq), axis=0)
+            sq = xp.linalg.pinv(aq / scale) @ b / scale
             t = sq <= 0
             if not xp.any(t):
                 break
-- 
2.43.0

