From 77623e1f09511bcac8a166fd7a6066169c7a6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 01/22] fix: odeint evaluates the step at the start time of the
 interval

The scan passed the end time t of each interval to the one-step method,
so every non-autonomous system was integrated with a time shift.
---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From ef5da602ec9a97ce7b27f8ddbb633b71ed223ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 02/22] fix: Quaternion.__rsub__ computes other - self

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..eab4ca9 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -(self - other)
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From fc3bda62d606f5fc9368b5b6ad7003176c699b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 03/22] fix: from_axis_angle normalizes the rotation axis

The documented result is a unit quaternion; for an axis which is not of unit
length the rotation angle was wrong.
---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index eab4ca9..b2f673b 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -248,5 +248,6 @@ def from_axis_angle(angle: Scalar, axis: Vec) -> Quaternion:
     Quaternion
     """
     axis_arr = asarray(axis)
+    axis_arr = axis_arr / norm(axis_arr)
     angle = angle / 2
     return Quaternion(cos(angle), axis_arr * sin(angle))
-- 
2.43.0


From daa1edf532c229ea29f11fe0a9243e5ecb71c87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 04/22] fix: transform_triangle weights both edges with the
 barycentric coordinates

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..425b92f 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -312,7 +312,7 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0, :] * d1 + x[..., 1, :] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From 5e37621f61abbfcc79c2c74172e5fd36c478af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 05/22] fix: Parallelogram.transform_bnd follows the boundary
 for any corner a

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 425b92f..c7de01e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From 75eaaa0299b8f6f4d62880e057daf56918e50aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 06/22] fix: spherical normal_vec supports batches of boundary
 points

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index c7de01e..ea4f6bc 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -135,7 +135,7 @@ class _Spherical:
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-        return sample / sample_norm
+        return sample / sample_norm[..., None]
 
 
 @dataclass(frozen=True, slots=True)
-- 
2.43.0


From ff172b61dbcd9e678c6c617f16c87cae523fb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 07/22] fix: Hypercube.normal_vec rejects points outside of the
 domain

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index ea4f6bc..8d71b5e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
-- 
2.43.0


From ec3b681d7116c8968ed53b394a6d62ea1cfc0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 08/22] fix: Hypercube.normal_vec returns a unit normal on
 every edge and corner

At edges shared by a lower and an upper face, two components were kept
and None was returned.
---
 magpi/domain.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 8d71b5e..df4b1ee 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -64,9 +64,8 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
         n = on_ub - on_lb
+        n = where(jnp.cumsum(jnp.abs(n), axis=-1) > 1, 0.0, n)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From 5a671a03938547e8c5d15010b3603ee011c15747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 09/22] fix: rotate2d does not truncate the rotation matrix for
 integer angles

---
 magpi/r_fun.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..3b48329 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -399,9 +399,7 @@ def rotate2d(adf: ADF, angle: Scalar, o: Vec2d = (0.0, 0.0)) -> ADF:
     _o = asarray(o)
     _angle = asarray(angle)
     _adf = translate(adf, -_o)
-    M = array(
-        [[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]], dtype=_angle.dtype
-    )
+    M = array([[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]])
 
     def rot_op(x):
         msg = f"Cannot rotate vector of size {x.shape} in 2d. Please pass a 2d vector."
-- 
2.43.0


From c16411d5872b200715608a10ffadad1e5ab224b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 10/22] fix: rotate3d pulls back by the inverse rotation for
 Euler angles

Negating the Euler angles does not invert the rotation when more than
one angle is nonzero.
---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3b48329..682e190 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -448,7 +448,7 @@ def rotate3d(
     elif _angle.shape == (3,):
         if rot_axis is not None:
             raise ValueError("If Euler angles are given, the `rot_axis` must be `None`")
-        rot_quaternion = from_euler_angles(_angle)
+        rot_quaternion = from_euler_angles(-_angle).conj()
     else:
         raise ValueError("Provide axis-angle representation or Euler angles.")
 
-- 
2.43.0


From 793984afaaadb8b63e50f37fa59491f0f7198540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 11/22] fix: derivative accepts argument names with more than
 one character

---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From 20458e6643d1f7f01643dc78446332ece2de07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:19 +0000
Subject: [PATCH 12/22] fix: integrate evaluates 1d integrands node by node

The whole node vector was passed to the integrand, hence constant, vector
valued or non elementwise integrands were integrated incorrectly.
---
 magpi/integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 694a1e3..9b071ef 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -135,7 +135,10 @@ def integrate(
     def g(x):
         return f(x, *args, **kwargs)
 
-    F = jnp.apply_along_axis(g, -1, X)
+    if len(domain) > 1:
+        F = jnp.apply_along_axis(g, -1, X)
+    else:
+        F = vmap(g)(X)
     
     return tree.map(lambda z: jnp.tensordot(W, z, len(domain)), F)
 
-- 
2.43.0


From 63ff60fa25718f946f5eebca57990929d6983608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:39 +0000
Subject: [PATCH 13/22] fix: spline basis has finite reverse mode derivatives
 on grids with repeated nodes

---
 magpi/spline.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 09b8d5a..f1e9831 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -7,15 +7,18 @@ def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     if k == 0:
         return jnp.where((t[..., i] <= x) & (x < t[..., i + 1]), 1.0, 0.0)
 
+    # the inner `where` keeps the gradient finite for repeated nodes
+    d1 = t[..., i + k] - t[..., i]
+    d2 = t[..., i + k + 1] - t[..., i + 1]
     c1: Array = jnp.where(
-        t[..., i + k] == t[..., i],
+        d1 == 0,
         0.0,
-        (x - t[..., i]) / (t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
+        (x - t[..., i]) / jnp.where(d1 == 0, 1.0, d1) * _base_fun(x, k - 1, i, t)
     )
     c2: Array = jnp.where(
-        t[..., i + k + 1] == t[..., i + 1],
+        d2 == 0,
         0.0,
-        (t[..., i + k + 1] - x) / (t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
+        (t[..., i + k + 1] - x) / jnp.where(d2 == 0, 1.0, d2) * _base_fun(x, k - 1, i + 1, t),
     )
     return c1 + c2
 
-- 
2.43.0


From d91b14a2a4d719e4fedb91df75ddaea0a4dfa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:16 +0000
Subject: [PATCH 14/22] fix: Hypercube.includes answers once per point instead
 of once per coordinate

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index df4b1ee..1c7244b 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -39,7 +39,7 @@ class Hypercube:
 
     def includes(self, sample: Array) -> Array:
         lb, ub = array((self.lb, self.ub))
-        return (lb <= sample) & (sample <= ub)
+        return ((lb <= sample) & (sample <= ub)).all(axis=-1)
 
     def transform(self, uniform_sample: Array) -> Array:
         lb, ub = array((self.lb, self.ub))
-- 
2.43.0


From 2f3928379e8385998c12feeb21b77269110cf897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 15/22] fix: simpson nodes were truncated to integers on
 integer meshes

---
 magpi/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 9b071ef..fc3ebf6 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -46,7 +46,7 @@ def simpson(domain: Array) -> tuple[Array, Array]:
     w = w.at[2:-1:2].set(_w[:-1, 2] + _w[1:, 0])
     m = (domain[:-1] + domain[1:]) / 2
     i = jnp.arange(1, len(domain))
-    nodes = jnp.insert(domain, i, m)
+    nodes = jnp.insert(domain.astype(m.dtype), i, m)
     return w, nodes
 
 
-- 
2.43.0


From e366250e85aac4897d66acc23b6a6eca2fac4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 16/22] fix: derivative wrt an argument passed by keyword or
 counted from the end was zero

---
 magpi/calc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..5a5ada3 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -56,8 +56,15 @@ def value_and_derivative(
 
     def df(*args, **kwargs):
         if isinstance(wrt, int) and argnum is None:
+            names = list(sig.parameters)
+            if len(args) <= wrt < len(names) and names[wrt] in kwargs:
+                # the differentiated argument is passed as a keyword argument
+                _f = lambda x: f(*args, **{**kwargs, names[wrt]: x})
+                x = kwargs[names[wrt]]
+                return jax.jvp(_f, [x], [ones_like(x)])
+            index = range(len(args))[wrt]  # negative positions count from the end
             ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
+                ones_like(x) if i == index else zeros_like(x) for i, x in enumerate(args)
             ]
         elif isinstance(wrt, int) and argnum is not None:
             ei = [zeros_like(x) for x in args]
-- 
2.43.0


From 5f8330609977ef1fb7804845523eaf3871607dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 17/22] fix: transform_circle_bnd dropped batch axes of length
 one

---
 magpi/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 1c7244b..4b3cf52 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -297,7 +297,9 @@ def transform_circle_bnd(s: Array, r: Array, o: Array) -> Array:
     assert len(r.shape) == 0
     assert len(o.shape) == 1 and o.shape[0] == 2
     s = s % 1.0
-    phi = 4 * pi * s.squeeze()
+    if s.shape[-1:] == (1,):
+        s = s[..., 0]
+    phi = 4 * pi * s
     x1 = cos(phi)
     x2 = sin(phi)
     return stack((x1, x2), -1) * r + o
-- 
2.43.0


From 12c58f102e41fafcb5346eb79e18dbd4bdd87ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 18/22] fix: RAlpha systems returned nan where rounding made
 the root's argument negative

---
 magpi/r_fun.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 682e190..0486e2a 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -101,12 +101,16 @@ class RAlpha(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b - sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1
+            / (1 + self.alpha)
+            * (a + b - sqrt((a - self.alpha * b) ** 2 + (1 - self.alpha**2) * b**2))
         )
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b + sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1
+            / (1 + self.alpha)
+            * (a + b + sqrt((a - self.alpha * b) ** 2 + (1 - self.alpha**2) * b**2))
         )
 
 
@@ -131,7 +135,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b - sqrt(r - 2 * self.alpha * a * b))
+            * (a + b - sqrt((a - self.alpha * b) ** 2 + (1 - self.alpha**2) * b**2))
             * r ** (self.m / 2)
         )
 
@@ -140,7 +144,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b + sqrt(r - 2 * self.alpha * a * b))
+            * (a + b + sqrt((a - self.alpha * b) ** 2 + (1 - self.alpha**2) * b**2))
             * r ** (self.m / 2)
         )
 
-- 
2.43.0


From dd3891dcd415e34f20501d53700d40b830d2f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 19/22] fix: argument of a nearly real quaternion was nan where
 rounding exceeded one

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index b2f673b..10dacdc 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -156,7 +156,7 @@ def quanternion_log(q: Quaternion) -> Quaternion:
 
 
 def arg(q: Quaternion) -> Scalar:
-    return arccos(q.real * (1 / abs(q)))
+    return jnp.arctan2(norm(q.imag), q.real)
 
 
 def sgn(v: Array) -> Array:
-- 
2.43.0


From 84e0b4d1e90f29aff30a4cc96e4612eddb66249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 20/22] fix: ellipsoid was nan at its centre

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 0486e2a..3f3973a 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -274,7 +274,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(asarray(x) ** 2)) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
-- 
2.43.0


From 86395067245cfddda777207a9b9b937f0c6a5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:56 +0000
Subject: [PATCH 21/22] fix: transform_polyline missed the end point when the
 length rounded above the cumulative one

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 4b3cf52..d869bd4 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -320,8 +320,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
     line = stack(points)
     assert len(s.shape) == 0 or len(s.shape) == 1
     segments = norm(line[1:] - line[:-1], axis=1)
-    length = jnp.sum(segments)
     cumlengths = jnp.cumsum(segments)
+    length = cumlengths[-1]
     _s = s % 1
     _s = (_s * length).ravel()
     idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
-- 
2.43.0


From b1ea5d125a88fe823746c2d4388a80324e9f5a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 22/22] fix: normalized functions had no derivative where the
 slope of the function vanishes

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3f3973a..2555efb 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -560,6 +560,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0

