From 56d5dc4f25b044e426386b125c6ad4371f1b795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 01/30] fix: accept integer-valued float exponents in
 TaylorEnclosureArithmetic.power

x**2. and jnp.power(x, 2.) reached integer_power() with a float exponent,
which raised TypeError in range().
---
 autobound/enclosure_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index ba2891e..11d496f 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -332,7 +332,7 @@ class TaylorEnclosureArithmetic:
       multiplicative_identity = self.np_like.ones_like(a0)
       result = polynomials.integer_power(  # pytype: disable=wrong-arg-types
           a,
-          p,
+          int(p),
           self.set_arithmetic.add,
           self.np_like.asarray(0),
           multiplicative_identity,
-- 
2.43.0


From 729bf03f4c044b2b7229ebc8fb6bfd5736e4bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 02/30] fix: keep terms of degree > max_degree when composing
 enclosures

compose_enclosures() dropped the truncated remainder of every term of the
elementwise enclosure whose degree exceeds max_degree.
---
 autobound/enclosure_arithmetic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index 11d496f..defaa8c 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -248,8 +248,10 @@ class TaylorEnclosureArithmetic:
             #
             # The issue is that the first p elements of 'poly' are guaranteed
             # to be 0, but the expression below can express this as the interval
-            # (0, 0).
-            0 if i < p else interval_left_broadcasting_multiply(coefficient, t)
+            # (0, 0).  (If p > max_degree, then the last element of 'poly'
+            # absorbs the terms that were truncated, and is not 0.)
+            0 if i < min(p, self.max_degree)
+            else interval_left_broadcasting_multiply(coefficient, t)
             for i, t in enumerate(poly)
         )
       output = self.add(output, term)
-- 
2.43.0


From 66338b81269b6aa71e2ce3e4a56ea5cae74fab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 03/30] fix: make range computation traceable

Sorting the local extrema by f(x) needs concrete values, so computing swish
bounds under jax.jit raised TracerBoolConversionError.
---
 autobound/elementwise_functions.py | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index 07efe06..d0ae90f 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -206,14 +206,15 @@ def maximum_value(f,
                   local_maxima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns maximum value of `f` over `[x_min, x_max]`."""
-  if not local_maxima:
-    return np_like.maximum(f(x_min), f(x_max))
-  sorted_maxima = list(sorted(local_maxima, key=f, reverse=True))
-  x = sorted_maxima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      maximum_value(f, x_min, x_max, sorted_maxima[1:], np_like))
+  # Note: we can't sort local_maxima by the value of f, because f(x) is an
+  # abstract value when tracing (e.g., under jax.jit).
+  value = np_like.maximum(f(x_min), f(x_max))
+  for x in local_maxima:
+    value = np_like.where(
+        np_like.logical_and(x_min <= x, x <= x_max),
+        np_like.maximum(value, f(x)),
+        value)
+  return value
 
 
 def minimum_value(f,
@@ -222,14 +223,13 @@ def minimum_value(f,
                   local_minima: Sequence[float],
                   np_like: NumpyLike) -> NDArray:
   """Returns minimum value of `f` over `[x_min, x_max]`."""
-  if not local_minima:
-    return np_like.minimum(f(x_min), f(x_max))
-  sorted_minima = list(sorted(local_minima, key=f))
-  x = sorted_minima[0]
-  return np_like.where(
-      np_like.logical_and(x_min <= x, x <= x_max),
-      f(x),
-      minimum_value(f, x_min, x_max, sorted_minima[1:], np_like))
+  value = np_like.minimum(f(x_min), f(x_max))
+  for x in local_minima:
+    value = np_like.where(
+        np_like.logical_and(x_min <= x, x <= x_max),
+        np_like.minimum(value, f(x)),
+        value)
+  return value
 
 
 def _get_range(f,
-- 
2.43.0


From 0d54bef0d245566db08040f407cfd345c6032c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 04/30] fix: make pow_enclosure sound for trust regions that
 touch or cross zero

For a non-negative integer exponent and a trust region that crosses zero, the
end points of the sharp enclosures for positive and negative arguments do not
bound the remainder in between (e.g. x**2 at degree 0 over (-1, 2) gave (1, 4)).
For a negative odd exponent and a trust region [a, 0], the interval had +inf
where it needs -inf.
---
 autobound/primitive_enclosures.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index b58a2b5..5d75fc0 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -166,15 +166,27 @@ def pow_enclosure(exponent: float,
       endpoint_if_possibly_zero = -np_like.inf if i == 0 else np_like.inf
     else:
       endpoint_if_always_negative = enc_neg[-1][i]
-      endpoint_if_possibly_zero = functools.reduce(
-          np_like.minimum if i == 0 else np_like.maximum,
-          [endpoint_if_always_positive, endpoint_if_always_negative]
-      )
+      if enc_neg is enc_pos:
+        endpoint_if_possibly_zero = endpoint_if_always_positive
+      else:
+        # The (degree)th derivative is c * x**(exponent - degree), where
+        # c > 0 and exponent - degree is a positive even number.  It is
+        # decreasing for x < 0 and increasing for x > 0, so we fall back to
+        # using its range over the trust region.
+        k = exponent - degree
+        endpoint_if_possibly_zero = (
+            0. if i == 0 else
+            math.comb(int(exponent), degree) * np_like.maximum(a**k, b**k))
+    # If exponent is negative and odd, z**exponent approaches -inf as z
+    # approaches 0 from below, but 0**exponent evaluates to +inf.  So, a trust
+    # region [a, 0] needs the interval used for regions that contain zero.
+    odd_pole = exponent < 0 and exponent % 2 == 1
+    always_negative = b < 0 if odd_pole else b <= 0
     return np_like.where(
         a >= 0,
         endpoint_if_always_positive,
         np_like.where(
-            b <= 0,
+            always_negative,
             endpoint_if_always_negative,
             endpoint_if_possibly_zero
         )
-- 
2.43.0


From 0b90acfc62dd23bce21701e75c6d4c5813f5b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 05/30] fix: don't return nan bounds for log over trust regions
 that extend below 0

The enclosure of log over a trust region that is not contained in its domain
had nan end points.  Use the part of the trust region inside the domain.
---
 autobound/primitive_enclosures.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 5d75fc0..37c6228 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -47,6 +47,11 @@ def get_elementwise_taylor_enclosure(
     an `ElementwiseTaylorEnclosure` for the elementwise function specified by
     `function_id`.
   """
+  if function_id.x_min is not None:
+    # The function is not defined to the left of x_min, where evaluating it
+    # would return nan.
+    trust_region = (np_like.maximum(trust_region[0], function_id.x_min),
+                    trust_region[1])
   f = elementwise_functions.get_function(function_id, np_like)
   deriv_id = function_id.derivative_id(degree)
   deriv_data = elementwise_functions.get_function_data(deriv_id)
-- 
2.43.0


From c173af1024fa376063ae22680f25b087f0ef0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 06/30] fix: support cbrt at negative arguments

jax.lax.cbrt is defined for negative arguments, but its enclosures were those of
x**(1/3), which are nan there.
---
 autobound/jax/jax_bound.py        |  3 +--
 autobound/primitive_enclosures.py | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0eb54a0..00941de 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -272,8 +272,7 @@ def _register_elementwise_function(
 # TODO(mstreeter): support more elementwise functions.
 _ELEMENTWISE_PRIMITIVE_ENCLOSURES = {
     jax.lax.abs_p: primitive_enclosures.abs_enclosure,
-    jax.lax.cbrt_p: (
-        functools.partial(primitive_enclosures.pow_enclosure, 1/3)),
+    jax.lax.cbrt_p: primitive_enclosures.cbrt_enclosure,
     jax.lax.exp_p: primitive_enclosures.exp_enclosure,
     jax.lax.log_p: primitive_enclosures.log_enclosure,
     jax.lax.logistic_p: primitive_enclosures.sigmoid_enclosure,
diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 37c6228..1ca3221 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -202,6 +202,26 @@ def pow_enclosure(exponent: float,
       enc_decreasing[:-1] + (interval_coefficient,))
 
 
+def cbrt_enclosure(x0: NDArray,
+                   trust_region: Interval,
+                   degree: int,
+                   np_like: NumpyLike) -> ElementwiseTaylorEnclosure:
+  """Returns an ElementwiseTaylorEnclosure for the real cube root."""
+  # cbrt(x) == x**(1/3) for x >= 0.  For x0 < 0, use cbrt(x) == -cbrt(-x).
+  a, b = trust_region
+  flip = np_like.asarray(x0) < 0
+  sign = np_like.where(flip, -1., 1.)
+  enclosure = pow_enclosure(
+      1/3, sign * x0, (np_like.where(flip, -b, a), np_like.where(flip, -a, b)),
+      degree, np_like)
+  signs = [sign**(i + 1) for i in range(degree + 1)]
+  lower, upper = enclosure[-1]
+  final_interval = (np_like.where(signs[-1] < 0, -upper, lower),
+                    np_like.where(signs[-1] < 0, -lower, upper))
+  return ElementwiseTaylorEnclosure(
+      tuple(s * c for s, c in zip(signs, enclosure[:-1])) + (final_interval,))
+
+
 def bounded_derivative_enclosure(
     degree: int,
     taylor_coefficients_at_x0: Sequence[NDArray],
-- 
2.43.0


From 340d08fccb498f56be7485a3714b3d0123d9b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/30] fix: keep constants constant when propagating trust
 regions

With propagate_trust_regions=True, x**.5 raised NotImplementedError, because
the constant exponent was turned into an interval.
---
 autobound/jax/jax_bound.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 00941de..0a8d733 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -148,6 +148,7 @@ def taylor_bounds(
           assert fun0 is not None
           assert all(i.trust_region is not None for i in invar_intermediates)
           invar_degree_0_intermediates = [
+              intermediate if intermediate.is_constant() else
               _IntermediateEnclosure(
                   enclosure=types.TaylorEnclosure((intermediate.trust_region,)))
               for intermediate in invar_intermediates
-- 
2.43.0


From e3d8990c20f4c832c8884f3d3ae4d004510b9d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 08/30] fix: handle batch dims of x-dependent arguments of
 dot_general

Batch dims were counted as contracting dims, so that the axes of the
coefficients of a batched dot_general were permuted incorrectly.
---
 autobound/jax/jax_bound.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0a8d733..688f08c 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -397,9 +397,8 @@ def _dot_general_pushforward_fun(arithmetic):
   def fun(lhs_intermediate: _IntermediateEnclosure,
           rhs_intermediate: _IntermediateEnclosure,
           **params):
-    a_contracting_dims = set(a  # pylint: disable=g-complex-comprehension
-                             for t in params['dimension_numbers']
-                             for a in t[0])
+    # Note: batch dims appear in the output, before the other dims of a.
+    (a_contracting_dims, _), _ = params['dimension_numbers']
     def pairwise_batched_bilinear(
         a: jnp.ndarray, b: jnp.ndarray, p: int, q: int
     ) -> jnp.ndarray:
-- 
2.43.0


From 9df493428826aecb177e5fef069d223b54ff7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 09/30] fix: handle interval coefficients and vector x in
 broadcast_in_dim

broadcast_in_dim raised AttributeError if the coefficient of degree 1 is an
interval, and TypeError if x is a vector.
---
 autobound/jax/jax_bound.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 688f08c..3c2c10c 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -337,9 +337,18 @@ def _broadcast_in_dim_pushforward_fun(intermediate, shape,
   x0 = enclosure[0]
   if isinstance(x0, tuple):
     x0 = enclosure[0][0]
-  x_shape = (() if len(enclosure) == 1 else enclosure[1].shape[x0.ndim:])
+  x0_ndim = jnp.ndim(x0)
+  if len(enclosure) == 1:
+    x_shape = ()
+  else:
+    c1 = enclosure[1][0] if isinstance(enclosure[1], tuple) else enclosure[1]
+    x_shape = c1.shape[x0_ndim:]
   def broadcast_ndarray(a, i):
-    return jax.lax.broadcast_in_dim(a, shape + i*x_shape, broadcast_dimensions)
+    # The trailing dims, which index the elements of x, map to themselves.
+    new_shape = tuple(shape) + i*x_shape
+    new_dims = (tuple(broadcast_dimensions) +
+                tuple(range(len(shape), len(new_shape))))
+    return jax.lax.broadcast_in_dim(a, new_shape, new_dims)
   def broadcast_ndarray_or_interval(a, i):
     if isinstance(a, tuple):
       return tuple(broadcast_ndarray(x, i) for x in a)
-- 
2.43.0


From cc19545fefcf4fe1ebe0243078e01ea52ccb0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 10/30] fix: apply shape-changing linear primitives per element
 of a vector x

reshape, transpose and squeeze were applied to coefficients as if they had the
shape of the value, but coefficients have trailing dims that index x.
---
 autobound/jax/jax_bound.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 3c2c10c..402b699 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -449,12 +449,19 @@ def _intersect_intervals(
   return (jnp.maximum(a[0], b[0]), jnp.minimum(a[1], b[1]))  # pytype: disable=wrong-arg-types
 
 
-def _pass_thru_pushforward_fun(primitive):
+def _pass_thru_pushforward_fun(arithmetic, primitive):
+  x_ndim = jnp.ndim(arithmetic.trust_region[0])
   def fun(intermediate, **params):
-    return enclosure_arithmetic.map_over_enclosure(
-        intermediate.enclosure,
-        functools.partial(primitive.bind, **params)
-    )
+    def apply(c: types.NDArray, i: int) -> types.NDArray:
+      f = functools.partial(primitive.bind, **params)
+      # Map over the trailing dims, which index the elements of x.
+      for _ in range(i * x_ndim):
+        f = jax.vmap(f, in_axes=-1, out_axes=-1)
+      return f(c)
+    return types.TaylorEnclosure(tuple(
+        tuple(apply(e, i) for e in c) if isinstance(c, tuple) else apply(c, i)
+        for i, c in enumerate(intermediate.enclosure)
+    ))
   return fun
 
 
@@ -505,7 +512,7 @@ def _pushforward_funs(
       for primitive, get_enclosure in _ELEMENTWISE_PRIMITIVE_ENCLOSURES.items()
   })
   primitive_to_enclosure_fun.update({
-      primitive: _pass_thru_pushforward_fun(primitive)
+      primitive: _pass_thru_pushforward_fun(arithmetic, primitive)
       for primitive in _PASS_THRU_PRIMITIVES
   })
   return primitive_to_enclosure_fun
-- 
2.43.0


From b812658748d6f730c817976addef206fd7e9a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/30] fix: don't treat calls to jit-compiled functions as
 linear

A call to a jit-compiled function that isn't removed by a rewrite rule, such as
jax.jit(jnp.exp)(x), was applied separately to each coefficient, which returned
invalid bounds.  Inline such calls instead.
---
 autobound/jax/jax_bound.py | 53 +++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 402b699..a43a96d 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -101,8 +101,8 @@ def taylor_bounds(
         enclosure_arithmetic.TaylorEnclosureArithmetic(0, trust_region, jnp))
     primitive_to_enclosure_fun0 = _pushforward_funs(degree_0_arithmetic)
 
-    closed_jaxpr = jaxpr_factory(x0)
-    jaxpr = _rewrite_jaxpr(closed_jaxpr.jaxpr)
+    closed_jaxpr = _inline_jit(jaxpr_factory(x0))
+    jaxpr = closed_jaxpr.jaxpr
 
     x0 = jnp.asarray(x0)
     if x0.ndim == 0:
@@ -299,7 +299,6 @@ _PASS_THRU_PRIMITIVES = frozenset([
     jax.lax.reduce_window_sum_p,
     jax.lax.squeeze_p,
     jax.lax.transpose_p,
-    jex.core.primitives.jit_p,
     # TODO(mstreeter): add more of these
 ])
 
@@ -312,6 +311,54 @@ def _rewrite_jaxpr(jaxpr: jex.core.Jaxpr) -> jex.core.Jaxpr:
   return jaxpr
 
 
+def _inline_jit(closed_jaxpr: jex.core.ClosedJaxpr) -> jex.core.ClosedJaxpr:
+  """Rewrites a Jaxpr, then inlines any remaining jit-compiled functions.
+
+  Args:
+    closed_jaxpr: a `ClosedJaxpr`
+
+  Returns:
+    a `ClosedJaxpr` to which `_rewrite_jaxpr` was applied, and in which calls to
+    jit-compiled functions (with non-constant arguments) have been replaced by
+    the equations of those functions, treated the same way.
+  """
+  constvars = []
+  consts = []
+  eqns = []
+  non_constant = set()  # variables that depend on the inputs
+
+  def inline(jaxpr, jaxpr_consts, args):
+    jaxpr = _rewrite_jaxpr(jaxpr)
+    # Use fresh variables, because a jit-compiled function can be called twice.
+    subs = dict(zip(jaxpr.invars, args))
+    for var, val in zip(jaxpr.constvars, jaxpr_consts):
+      subs[var] = jex.core.Var(var.aval)
+      constvars.append(subs[var])
+      consts.append(val)
+    read = lambda v: subs[v] if isinstance(v, jex.core.Var) else v
+    for eqn in jaxpr.eqns:
+      invars = [read(v) for v in eqn.invars]
+      is_non_constant = any(isinstance(v, jex.core.Var) and v in non_constant
+                            for v in invars)
+      if eqn.primitive is jex.core.primitives.jit_p and is_non_constant:
+        inner = eqn.params['jaxpr']
+        outvars = inline(inner.jaxpr, inner.consts, invars)
+      else:
+        outvars = [v if v.count == -1 else jex.core.Var(v.aval)
+                   for v in eqn.outvars]
+        if is_non_constant:
+          non_constant.update(outvars)
+        eqns.append(eqn.replace(invars=invars, outvars=outvars))
+      subs.update(zip(eqn.outvars, outvars))
+    return [read(v) for v in jaxpr.outvars]
+
+  invars = [jex.core.Var(v.aval) for v in closed_jaxpr.jaxpr.invars]
+  non_constant.update(invars)
+  outvars = inline(closed_jaxpr.jaxpr, closed_jaxpr.consts, invars)
+  return jex.core.ClosedJaxpr(
+      jex.core.Jaxpr(constvars, invars, outvars, eqns), consts)
+
+
 @dataclasses.dataclass
 class _IntermediateEnclosure:
   """An enclosure for some intermediate variable in a Jaxpr."""
-- 
2.43.0


From d90563efa9a1d6caed36bd34438a544abf03a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 12/30] fix: refuse conversions of x-dependent values to
 non-floating types

x.astype(int) was applied separately to each coefficient, which returned
invalid bounds.
---
 autobound/jax/jax_bound.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index a43a96d..42a88aa 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -293,7 +293,6 @@ _register_elementwise_function(jax.nn.swish,
 # Set of primitives that can be applied separately to each coefficient of a
 # TaylorEnclosure.
 _PASS_THRU_PRIMITIVES = frozenset([
-    jax.lax.convert_element_type_p,
     jax.lax.reshape_p,
     jax.lax.reduce_sum_p,
     jax.lax.reduce_window_sum_p,
@@ -407,6 +406,18 @@ def _broadcast_in_dim_pushforward_fun(intermediate, shape,
   )
 
 
+def _convert_element_type_pushforward_fun(arithmetic):
+  """Returns function that implements convert_element_type on enclosures."""
+  pass_thru = _pass_thru_pushforward_fun(arithmetic,
+                                         jax.lax.convert_element_type_p)
+  def fun(intermediate, new_dtype, **params):
+    if not jnp.issubdtype(new_dtype, jnp.floating):
+      # Conversions that round or truncate are not linear.
+      raise NotImplementedError(new_dtype)
+    return pass_thru(intermediate, new_dtype=new_dtype, **params)
+  return fun
+
+
 def _constant_intermediate_enclosure(val: types.NDArray):
   return _IntermediateEnclosure(enclosure=types.TaylorEnclosure((val,)),
                                 trust_region=(val, val))
@@ -553,6 +564,8 @@ def _pushforward_funs(
       jax.lax.conv_general_dilated_p: _conv_general_dilated_pushforward_fun(
           arithmetic),
       jax.lax.broadcast_in_dim_p: _broadcast_in_dim_pushforward_fun,
+      jax.lax.convert_element_type_p: _convert_element_type_pushforward_fun(
+          arithmetic),
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-- 
2.43.0


From bcaef150e722413014a6985bbd936f1b2f27f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 13/30] fix: broadcast coefficients to the shape of the value
 they enclose

JAX's binary operations can mix scalars and arrays, e.g. jnp.ones(3) + x.sum().
The coefficients that come from the scalar were not broadcast, so applying
reduce_sum, reshape or dot_general to the result failed.
---
 autobound/jax/jax_bound.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 42a88aa..7f04f5f 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -143,6 +143,12 @@ def taylor_bounds(
         outvar_enclosures = fun(*invar_intermediates, **eqn.params)
         if len(eqn.outvars) == 1:
           outvar_enclosures = (outvar_enclosures,)
+        # Binary operations can mix scalars and arrays, in which case some of the
+        # coefficients may need to be broadcast.
+        outvar_enclosures = tuple(
+            _broadcast_coefficients(enclosure, var.aval.shape, x0.shape)
+            for enclosure, var in zip(outvar_enclosures, eqn.outvars)
+        )
         if propagate_trust_regions:
           fun0 = primitive_to_enclosure_fun0.get(eqn.primitive)
           assert fun0 is not None
@@ -375,6 +381,18 @@ class _IntermediateEnclosure:
       return self.enclosure[0]  # pytype: disable=bad-return-type
 
 
+def _broadcast_coefficients(enclosure: types.TaylorEnclosure,
+                            shape: tuple[int, ...],
+                            x_shape: tuple[int, ...]) -> types.TaylorEnclosure:
+  """Broadcasts coefficients so that the enclosed value has the given shape."""
+  def broadcast(c, i):
+    c_shape = shape + i*x_shape
+    return c if jnp.shape(c) == c_shape else jnp.broadcast_to(c, c_shape)
+  return types.TaylorEnclosure(tuple(
+      tuple(broadcast(e, i) for e in c) if isinstance(c, tuple)
+      else broadcast(c, i) for i, c in enumerate(enclosure)))
+
+
 def _broadcast_in_dim_pushforward_fun(intermediate, shape,
                                       broadcast_dimensions,
                                       **unused_kwargs):
-- 
2.43.0


From bbb95549b055ef2e779845d04d23db96406331c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 14/30] fix: support literals in jaxpr patterns and
 replacements

The value of a literal isn't hashable, so replace() raised TypeError if the
pattern or the replacement contained a literal, as in lambda x: 2*x.
---
 autobound/jax/jaxpr_editor.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 3cffbd4..1e31ce1 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -16,7 +16,7 @@
 
 import itertools
 import types
-from typing import Any, Union
+from typing import Union
 
 from autobound import graph_editor
 import jax
@@ -109,6 +109,22 @@ class _EqnData:
     return f'_EqnData({self.primitive}, {self.params})'
 
 
+class _LiteralValue:
+  """Hashable wrapper for the value of a jex.core.Literal."""
+
+  def __init__(self, val):
+    self.val = val
+
+  def __eq__(self, other):
+    return isinstance(other, _LiteralValue) and bool(self.val == other.val)
+
+  def __hash__(self):
+    return hash(self.val.item() if hasattr(self.val, 'item') else self.val)
+
+  def __repr__(self):
+    return repr(self.val)
+
+
 # An intermediate variable is a tuple that either represents a jex.core.Var or
 # a jex.core.Literal.
 _IntermediateVariable = Union[
@@ -117,7 +133,7 @@ _IntermediateVariable = Union[
     tuple[bool, int, jax.core.AbstractValue],
     # If the first element of the tuple is False, then the tuple represents
     # a jex.core.Literal, and is of the form (False, val, aval).
-    tuple[bool, Any, jax.core.AbstractValue]
+    tuple[bool, _LiteralValue, jax.core.AbstractValue]
 ]
 
 
@@ -142,7 +158,7 @@ def _jaxpr_to_graph(jaxpr: jex.core.Jaxpr,
       return (True, var.count + offset, var.aval)
     elif isinstance(var_or_literal, jex.core.Literal):
       literal = var_or_literal
-      return (False, literal.val, literal.aval)
+      return (False, _LiteralValue(literal.val), literal.aval)
     else:
       raise NotImplementedError()
 
@@ -180,7 +196,7 @@ def _graph_to_jaxpr(h: graph_editor.ComputationGraph) -> jex.core.Jaxpr:
       return count_to_var[count]
     else:
       _, val, aval = vertex
-      return jex.core.Literal(val, aval)
+      return jex.core.Literal(val.val, aval)
 
   eqns = []
   for edge in h.operations:
-- 
2.43.0


From 8a5fa382424c644622980ccf0c203c6fc278d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 15/30] fix: never leave variables undefined or defined twice
 in graph_editor.replace

Replacing an occurrence whose intermediate results are used elsewhere in the
graph left those undefined.  Variables of the replacement that do not appear in
the pattern could clash with variables of the subject, and were defined once per
occurrence.  An empty pattern caused an infinite loop.
---
 autobound/graph_editor.py | 46 +++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 6a87fae..1b6658b 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -109,25 +109,63 @@ def replace(
     pattern: Sequence[Operation],
     replacement: Sequence[Operation],
     subject: ComputationGraph,
-    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool]
+    can_bind: Callable[[IntermediateVariable, IntermediateVariable], bool],
+    rename: Callable[[IntermediateVariable, int], IntermediateVariable]
+    = lambda v, n: (v, n),
 ) -> ComputationGraph:
   """Perform a search/replace on a ComputationGraph.
 
   This method greedily replaces occurences of a given operation sequence
   `pattern` with an operation sequence `replacement`.
 
+  An occurrence is left alone if it produces a variable that is used elsewhere
+  in the graph, but that is not produced by the replacement.
+
   Args:
-    pattern: a sequence of `Operations`
+    pattern: a non-empty sequence of `Operations`
     replacement: a sequence of `Operations` with which to replace occurrences of
       the pattern.
     subject: a `ComputationGraph`
     can_bind: a `Callable` with the same meaning as the corresponding argument
       to `match()`.
+    rename: a `Callable` that, given an `IntermediateVariable` `v` that is
+      produced by the replacement but does not appear in the pattern, and an
+      integer n > 0, returns the nth alternative name for `v`.  The alternatives
+      are used to keep the variables of the returned graph distinct.
 
   Returns:
     a `ComputationGraph` with occurrences of `pattern` replaced by
     `replacement`.
   """
+  if not pattern:
+    raise ValueError(pattern)
+  used_variables = subject.intermediate_variables()
+
+  def get_replacement(m):
+    """Returns replacement operations for a match (with new variables)."""
+    m = dict(m)
+    for e in replacement:
+      for v in e.outputs:
+        if v not in m:
+          fresh_v = v
+          n = 0
+          while fresh_v in used_variables:
+            n += 1
+            fresh_v = rename(v, n)
+          used_variables.add(fresh_v)
+          m[v] = fresh_v
+    return [e.subs(m) for e in replacement]
+
+  def is_safe(m, i: int) -> bool:
+    """Returns whether the match at i can be replaced."""
+    kept = set(m.get(v, v) for e in replacement for v in e.outputs)
+    removed = set(v for e in subject.operations[i:i+k] for v in e.outputs
+                  if v not in kept)
+    used_later = set(subject.outputs)
+    for e in subject.operations[i+k:]:
+      used_later.update(e.inputs)
+    return removed.isdisjoint(used_later)
+
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
   k = len(pattern)
@@ -136,8 +174,8 @@ def replace(
   while i < len(subject.operations):
     subgraph = subject.operations[i:i+k]
     m = match(pattern, subgraph, can_bind)
-    if m is not None:
-      output_operations.extend([e.subs(m) for e in replacement])
+    if m is not None and is_safe(m, i):
+      output_operations.extend(get_replacement(m))
       i += k
     else:
       output_operations.append(subject.operations[i])
-- 
2.43.0


From 25a5f1c1dbfc70f9965e3f6ada0f1e7ce59bfc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 16/30] fix: give the variables of each jaxpr replacement
 unique counts

Counts were only kept different from those of the pattern, so a replacement with
several equations could clash with variables of the subject, and defined the
same variable once per occurrence.
---
 autobound/jax/jaxpr_editor.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 1e31ce1..74e608c 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -64,13 +64,20 @@ def replace(pattern: jex.core.Jaxpr,
   if pattern.constvars or replacement.constvars:
     raise NotImplementedError()
   pattern_graph = _jaxpr_to_graph(pattern)
+  subject_graph = _jaxpr_to_graph(subject)
   # When creating the replacement graph, offset the variable counts to keep
-  # them unique.
-  max_count = max(
-      v[1] if v[0] else -1  # pytype: disable=unsupported-operands
-      for v in pattern_graph.intermediate_variables()
-  )
-  replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 1)
+  # them unique.  (The count of an unused output variable is -1.)
+  def get_max_count(*graphs):
+    return max(
+        (v[1] for graph in graphs for v in graph.intermediate_variables()
+         if v[0]),
+        default=-1)
+  max_count = get_max_count(pattern_graph, subject_graph)
+  replacement_graph = _jaxpr_to_graph(replacement, offset=max_count + 2)
+  # Use distinct counts each time the replacement is used.
+  stride = get_max_count(replacement_graph) + 1
+  def rename(v, n):
+    return (v[0], v[1] + n*stride, v[2])
   # In the replacement graph, replace inputs/outputs with those in the pattern
   # graph.
   intermediate_variable_map = {}
@@ -85,8 +92,9 @@ def replace(pattern: jex.core.Jaxpr,
   hypergraph = graph_editor.replace(
       pattern_graph.operations,
       replacement_operations,
-      _jaxpr_to_graph(subject),
+      subject_graph,
       _can_bind,
+      rename,
   )
   return _graph_to_jaxpr(hypergraph)
 
-- 
2.43.0


From d2bba4b95f09178c712e3aa20f900b375b808263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 17/30] fix: compare the constants of nested jaxprs when
 matching

A call to a jit-compiled function matched a pattern even if the constants that
the two functions close over are different.
---
 autobound/jax/jaxpr_editor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 74e608c..9fc4320 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -21,6 +21,7 @@ from typing import Union
 from autobound import graph_editor
 import jax
 import jax.extend as jex
+import numpy as np
 
 
 def replace(pattern: jex.core.Jaxpr,
@@ -244,11 +245,12 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
       continue
     v1 = p1[k0]
     if isinstance(v0, jex.core.ClosedJaxpr):
-      # TODO(mstreeter): this could incorrectly return True if v0.consts and
-      # v1.consts are different.
       if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
                                                  ignore_shape=True):
         return False
+      if not all(np.array_equal(c0, c1)
+                 for c0, c1 in zip(v0.consts, v1.consts)):
+        return False
     elif isinstance(v0, jex.core.Jaxpr):
       if not _same_jaxpr_up_to_variable_renaming(v0, v1, ignore_shape=True):
         return False
-- 
2.43.0


From b9958b82709adee321d65ba4b27254ce1ed029c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 18/30] fix: add missing extrema of the fourth and fifth
 derivatives of swish

The fourth derivative of swish has local minima near +/-5.4008 and the fifth
has extrema near +/-6.3620.  Leaving them out made get_range and monotone_over
wrong, and swish_enclosure of degree 4 unsound for regions near them.
---
 autobound/elementwise_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/autobound/elementwise_functions.py b/autobound/elementwise_functions.py
index d0ae90f..c43fc3e 100644
--- a/autobound/elementwise_functions.py
+++ b/autobound/elementwise_functions.py
@@ -349,8 +349,10 @@ _FUNCTION_DATA = {
         FunctionData((-4.429235100557346, 1.0319582417807385),
                      (-1.0319582417807402, 4.429235100557342)),
     SWISH.derivative_id(4):
-        FunctionData((0.,), (-1.8197756117249821, 1.8197756117249804)),
+        FunctionData((-5.400818739495216, 0., 5.400818739495216),
+                     (-1.8197756117249821, 1.8197756117249804)),
     SWISH.derivative_id(5):
-        FunctionData((-0.7177419231466055, 2.5062894864026024),
-                     (-2.506289486402605, 0.7177419231466035)),
+        FunctionData(
+            (-6.36199228368169, -0.7177419231466055, 2.5062894864026024),
+            (-2.506289486402605, 0.7177419231466035, 6.36199228368169)),
 }
-- 
2.43.0


From a60e70e958c813d919a17849e302cc7bd06cca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 19/30] fix: avoid nan coefficients in pow_enclosure for degree
 > exponent at zero

The derivatives of x**2 of order 3 and more are 0 everywhere, but at x0 == 0
they were computed as 0 * 0**-1 == nan.
---
 autobound/primitive_enclosures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autobound/primitive_enclosures.py b/autobound/primitive_enclosures.py
index 1ca3221..1fe2228 100644
--- a/autobound/primitive_enclosures.py
+++ b/autobound/primitive_enclosures.py
@@ -125,7 +125,11 @@ def pow_enclosure(exponent: float,
     # Note: the next line can sometimes generate bogus RuntimeWarnings when
     # using Numpy.  This seems to be a bug in Numpy, as even doing
     # np.array(2.)**-1 generates the same RuntimeWarning.
-    taylor_coefficients_at_x0.append(c * x0**(exponent - i) / math.factorial(i))
+    taylor_coefficients_at_x0.append(
+        c * x0**(exponent - i) / math.factorial(i) if c != 0
+        # Higher derivatives of a polynomial vanish, also at x0 == 0 (where the
+        # expression above would be 0*inf).
+        else np_like.zeros_like(x0))
     c *= exponent - i
 
   # Compute sharp enclosures of x**exponent for the case x > 0 (enc_pos below),
-- 
2.43.0


From b39b6c42ffda5397bd1ae88256c72caa227ac7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 20/30] fix: don't replace a match whose inputs it produces
 itself

Matching [exp(a) -> b, add(b, c) -> d] against exp(x) + exp(x) binds c to the
variable that the match produces and the replacement removes.
---
 autobound/graph_editor.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 1b6658b..997646b 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -119,7 +119,8 @@ def replace(
   `pattern` with an operation sequence `replacement`.
 
   An occurrence is left alone if it produces a variable that is used elsewhere
-  in the graph, but that is not produced by the replacement.
+  in the graph (or by the replacement itself), but that is not produced by the
+  replacement before it is used.
 
   Args:
     pattern: a non-empty sequence of `Operations`
@@ -164,7 +165,16 @@ def replace(
     used_later = set(subject.outputs)
     for e in subject.operations[i+k:]:
       used_later.update(e.inputs)
-    return removed.isdisjoint(used_later)
+    if not removed.isdisjoint(used_later):
+      return False
+    # An input of the pattern can match a variable that the match itself
+    # produces, in which case the replacement might use it before producing it.
+    undefined = set(v for e in subject.operations[i:i+k] for v in e.outputs)
+    for e in replacement:
+      if not undefined.isdisjoint(m[v] for v in e.inputs if v in m):
+        return False
+      undefined.difference_update(m.get(v, v) for v in e.outputs)
+    return True
 
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
   # algorithm.
-- 
2.43.0


From f1afe40db856ad1ff1c773ff8901196db29c3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 21/30] fix: don't mistake a new variable of the replacement
 for one of the subject

---
 autobound/graph_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autobound/graph_editor.py b/autobound/graph_editor.py
index 997646b..89681b7 100644
--- a/autobound/graph_editor.py
+++ b/autobound/graph_editor.py
@@ -159,7 +159,7 @@ def replace(
 
   def is_safe(m, i: int) -> bool:
     """Returns whether the match at i can be replaced."""
-    kept = set(m.get(v, v) for e in replacement for v in e.outputs)
+    kept = set(m[v] for e in replacement for v in e.outputs if v in m)
     removed = set(v for e in subject.operations[i:i+k] for v in e.outputs
                   if v not in kept)
     used_later = set(subject.outputs)
@@ -173,7 +173,7 @@ def replace(
     for e in replacement:
       if not undefined.isdisjoint(m[v] for v in e.inputs if v in m):
         return False
-      undefined.difference_update(m.get(v, v) for v in e.outputs)
+      undefined.difference_update(m[v] for v in e.outputs if v in m)
     return True
 
   # Note: this could be made more efficient using the Knuth-Morris-Pratt
-- 
2.43.0


From d34ff9e27e8411c52950f16dbdca6c920fe67504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 22/30] fix: compose enclosures with an array-valued constant
 argument at degree 0

---
 autobound/enclosure_arithmetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autobound/enclosure_arithmetic.py b/autobound/enclosure_arithmetic.py
index defaa8c..46bc732 100644
--- a/autobound/enclosure_arithmetic.py
+++ b/autobound/enclosure_arithmetic.py
@@ -227,7 +227,11 @@ class TaylorEnclosureArithmetic:
     # computing each term separately and summing the results.
     if not elementwise_enclosure:
       raise ValueError()
-    arg_diff_enclosure = (0,) + arg_enclosure[1:]
+    arg0 = arg_enclosure[0]
+    if isinstance(arg0, tuple):
+      arg0 = arg0[0]
+    # Note: the shape of the zero matters if arg_enclosure is a constant.
+    arg_diff_enclosure = (self.np_like.zeros_like(arg0),) + arg_enclosure[1:]
     output = TaylorEnclosure((self.np_like.array(0),))
 
     def interval_left_broadcasting_multiply(a, b):
-- 
2.43.0


From 7bcd7c6c6b46f6c3dff3919b085902957e2bd542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 23/30] fix: propagate trust regions through results that do
 not depend on x

---
 autobound/jax/jax_bound.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 7f04f5f..1fef86e 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -170,7 +170,7 @@ def taylor_bounds(
               for enclosure in outvar_enclosures
           ]
           outvar_trust_regions = [
-              _intersect_intervals(a[0], b[0])
+              _intersect_intervals(_as_interval(a[0]), _as_interval(b[0]))
               for a, b in zip(outvar_degree_0_enclosures_a,
                               outvar_degree_0_enclosures_b)
           ]
@@ -381,6 +381,11 @@ class _IntermediateEnclosure:
       return self.enclosure[0]  # pytype: disable=bad-return-type
 
 
+def _as_interval(
+    a: Union[types.NDArray, types.Interval]) -> types.Interval:
+  return a if isinstance(a, tuple) else (a, a)
+
+
 def _broadcast_coefficients(enclosure: types.TaylorEnclosure,
                             shape: tuple[int, ...],
                             x_shape: tuple[int, ...]) -> types.TaylorEnclosure:
-- 
2.43.0


From 34eb0cc04a67a41c1a72145e9728c626fd4f818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 24/30] fix: unpack the results of calls that do not depend on
 x

The result of a primitive with multiple results (such as a nested jit call)
is a list also if it has a single element.
---
 autobound/jax/jax_bound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 1fef86e..e939f74 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -195,7 +195,7 @@ def taylor_bounds(
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
         vals = eqn.primitive.bind(*invar_values, **eqn.params)
-        if len(eqn.outvars) == 1:
+        if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
                                 for v in vals]
-- 
2.43.0


From 40d4717e544917676e0e0559b1ce26bcd68c6b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 25/30] fix: evaluate softplus and swish of values that don't
 depend on x

The primitives that replace them have no implementation.
---
 autobound/jax/jax_bound.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index e939f74..0890647 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -194,7 +194,8 @@ def taylor_bounds(
       else:
         invar_values = tuple(intermediate.constant_value()
                              for intermediate in invar_intermediates)
-        vals = eqn.primitive.bind(*invar_values, **eqn.params)
+        evaluate = _REWRITTEN_FUNCTIONS.get(eqn.primitive, eqn.primitive.bind)
+        vals = evaluate(*invar_values, **eqn.params)
         if not eqn.primitive.multiple_results:
           vals = (vals,)
         outvar_intermediates = [_constant_intermediate_enclosure(v)
@@ -256,6 +257,9 @@ _PRIMITIVE_NAMES = set()  # type: set[str]
 # used when the rule is applied.
 _JAXPR_REWRITE_RULES = [
 ]  # type: list[Callable[[], tuple[jex.core.Jaxpr, jex.core.Jaxpr]]]
+# Maps the primitives that the rewrite rules introduce to the functions they
+# stand for (which have to be used to evaluate them at constants).
+_REWRITTEN_FUNCTIONS = {}  # type: dict[jex.core.Primitive, Callable]
 
 
 def _register_elementwise_function(
@@ -272,6 +276,7 @@ def _register_elementwise_function(
       lambda x: jax.core.ShapedArray(x.shape, x.dtype))
   rule = lambda: (jax.make_jaxpr(f)(0.).jaxpr, jax.make_jaxpr(p.bind)(0.).jaxpr)
   _JAXPR_REWRITE_RULES.append(rule)
+  _REWRITTEN_FUNCTIONS[p] = f
   register_elementwise_primitive(p, get_enclosure)
 
 
-- 
2.43.0


From 10e5c88d61db1542477f7b35e6d9f643c2de2a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 26/30] fix: allow registering a primitive while another thread
 computes bounds

---
 autobound/jax/jax_bound.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index 0890647..fa0e40f 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -597,7 +597,9 @@ def _pushforward_funs(
   }
   primitive_to_enclosure_fun.update({
       primitive: _elementwise_pushforward_fun(arithmetic, get_enclosure)
-      for primitive, get_enclosure in _ELEMENTWISE_PRIMITIVE_ENCLOSURES.items()
+      # Copied because another thread may register a primitive meanwhile.
+      for primitive, get_enclosure in (
+          _ELEMENTWISE_PRIMITIVE_ENCLOSURES.copy().items())
   })
   primitive_to_enclosure_fun.update({
       primitive: _pass_thru_pushforward_fun(arithmetic, primitive)
-- 
2.43.0


From 67f5f33cfe11f2d0dcc8d2b9ffff3fcb8ae7d5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 27/30] fix: make elementwise powers of arrays of intervals as
 tight as those of scalars

---
 autobound/interval_arithmetic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autobound/interval_arithmetic.py b/autobound/interval_arithmetic.py
index 5d693f9..a932664 100644
--- a/autobound/interval_arithmetic.py
+++ b/autobound/interval_arithmetic.py
@@ -171,7 +171,9 @@ class IntervalArithmetic:
       raise ValueError(exponent)
     elif exponent == 0:
       return self.np_like.asarray(1)
-    elif self.ndim(a) == 0:
+    elif self.ndim(a) == batch_dims:
+      # There is nothing to take outer products of, so that this is the
+      # elementwise power.
       return self.power(a, exponent)
     else:
       # For the off-diagonal elements of the output, the best we can do is
-- 
2.43.0


From 30d2b6ccacbd42e1477f71a9a3a14bb4f94a1d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:29 +0000
Subject: [PATCH 28/30] fix: match equations whose parameters contain tuples of
 jaxprs

The branches of a conditional are a tuple of closed jaxprs, which were
compared by identity, so a pattern with a conditional never matched.
---
 autobound/jax/jaxpr_editor.py | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/autobound/jax/jaxpr_editor.py b/autobound/jax/jaxpr_editor.py
index 9fc4320..576d37b 100644
--- a/autobound/jax/jaxpr_editor.py
+++ b/autobound/jax/jaxpr_editor.py
@@ -243,25 +243,31 @@ def _jaxpr_eqn_params_equiv(p0, p1) -> bool:
   for k0, v0 in p0.items():
     if k0 in _JAXPR_EQN_PARAMS_TO_IGNORE:
       continue
-    v1 = p1[k0]
-    if isinstance(v0, jex.core.ClosedJaxpr):
-      if not _same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
-                                                 ignore_shape=True):
-        return False
-      if not all(np.array_equal(c0, c1)
-                 for c0, c1 in zip(v0.consts, v1.consts)):
-        return False
-    elif isinstance(v0, jex.core.Jaxpr):
-      if not _same_jaxpr_up_to_variable_renaming(v0, v1, ignore_shape=True):
-        return False
-    elif isinstance(v0, types.FunctionType):
-      if not isinstance(v1, types.FunctionType):
-        return False
-    elif v0 != v1:
+    if not _jaxpr_eqn_param_values_equiv(v0, p1[k0]):
       return False
   return True
 
 
+def _jaxpr_eqn_param_values_equiv(v0, v1) -> bool:
+  """Returns whether two values of a Jaxpr equation param are equivalent."""
+  if isinstance(v0, jex.core.ClosedJaxpr):
+    return (_same_jaxpr_up_to_variable_renaming(v0.jaxpr, v1.jaxpr,
+                                                ignore_shape=True) and
+            all(np.array_equal(c0, c1)
+                for c0, c1 in zip(v0.consts, v1.consts)))
+  elif isinstance(v0, jex.core.Jaxpr):
+    return _same_jaxpr_up_to_variable_renaming(v0, v1, ignore_shape=True)
+  elif isinstance(v0, types.FunctionType):
+    return isinstance(v1, types.FunctionType)
+  elif isinstance(v0, tuple):
+    # For example the branches of a conditional.
+    return (isinstance(v1, tuple) and len(v0) == len(v1) and
+            all(_jaxpr_eqn_param_values_equiv(e0, e1)
+                for e0, e1 in zip(v0, v1)))
+  else:
+    return v0 == v1
+
+
 def _match_avals(a0, a1, ignore_shape):
   return a0.dtype == a1.dtype and (ignore_shape or (a0.shape == a1.shape))
 
-- 
2.43.0


From f77f0302b90d68db7cf9cac8fe9e9073ee00c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:46 +0000
Subject: [PATCH 29/30] fix: use the enclosure registered for lax.logistic_p
 (it was rewritten before the registry was consulted)

---
 autobound/jax/jax_bound.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/autobound/jax/jax_bound.py b/autobound/jax/jax_bound.py
index fa0e40f..be98d80 100644
--- a/autobound/jax/jax_bound.py
+++ b/autobound/jax/jax_bound.py
@@ -293,8 +293,6 @@ _ELEMENTWISE_PRIMITIVE_ENCLOSURES = {
     jax.lax.sqrt_p: (
         functools.partial(primitive_enclosures.pow_enclosure, .5)),
 }
-_register_elementwise_function(jax.nn.sigmoid,
-                               primitive_enclosures.sigmoid_enclosure)
 _register_elementwise_function(jax.nn.softplus,
                                primitive_enclosures.softplus_enclosure)
 _register_elementwise_function(jax.nn.swish,
-- 
2.43.0


From 6fc7b9439851d743375dac7330689a6253d18242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:14 +0000
Subject: [PATCH 30/30] fix: interval powers whose lower end point overflows
 are not nan

---
 autobound/interval_arithmetic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autobound/interval_arithmetic.py b/autobound/interval_arithmetic.py
index a932664..681a2d0 100644
--- a/autobound/interval_arithmetic.py
+++ b/autobound/interval_arithmetic.py
@@ -233,8 +233,12 @@ class IntervalArithmetic:
         contains_zero = self.np_like.logical_and(a[0] < 0, a[1] > 0)
         pow0 = a[0]**exponent
         pow1 = a[1]**exponent
+        # Note: pow0 and pow1 can overflow, so multiplying them by zero is not
+        # safe.
+        pow0_or_zero = self.np_like.where(
+            contains_zero, self.np_like.zeros_like(pow0), pow0)
         min_vals = functools.reduce(self.np_like.minimum,
-                                    [pow0, pow1, (1-contains_zero)*pow0])
+                                    [pow0, pow1, pow0_or_zero])
         max_vals = self.np_like.maximum(pow0, pow1)
         return (min_vals, max_vals)
     else:
-- 
2.43.0

