From 2e79cb414071e230b663349bad1e6068a1e7ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:52 +0000
Subject: [PATCH 01/57] fix: division of a negative scalar by a step function
 no longer yields -inf

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 5c1ebb3..fd95343 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -117,7 +117,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
             else:
                 data = pd.DataFrame({"value": series_op(self._get_values(), other)})
                 if series_op in (pd.Series.divide, pd.Series.rdiv):
-                    data = data.replace(np.inf, np.nan)
+                    data = data.replace([np.inf, -np.inf], np.nan)
             initial_value = float_op(self.initial_value, other)
             initial_value = initial_value if np.isfinite(initial_value) else np.nan
             return sc.Stairs._new(
-- 
2.43.0


From aedb133f774f9669f1fda4793106bdfda63824db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 02/57] fix: multiplication and division by a constant remove
 redundant step points

---
 staircase/core/ops/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index fd95343..9c8f0e5 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -124,7 +124,7 @@ def _make_mul_div_func(docstring, series_op, float_op, series_rop, float_rop):
                 initial_value=initial_value,
                 data=data,
                 closed=self.closed,
-            )
+            )._remove_redundant_step_points()
 
         self, other = _sanitize_binary_operands(self, other)
         if other._data is None:
-- 
2.43.0


From 4a7efc5c61e0160ed4e98786a4ca00ef34fde7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 03/57] fix: adding a constant to a step function undefined
 towards -inf ignores stale step changes

---
 staircase/core/ops/arithmetic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/staircase/core/ops/arithmetic.py b/staircase/core/ops/arithmetic.py
index 9c8f0e5..d4f9e05 100644
--- a/staircase/core/ops/arithmetic.py
+++ b/staircase/core/ops/arithmetic.py
@@ -53,6 +53,9 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif other._data is None:  # means self._data is not None
             if np.isnan(other.initial_value):
                 data = None
+            elif np.isnan(self.initial_value):
+                # step changes are relative to an undefined value so must be recalculated
+                data = series_op(self._get_values(), other.initial_value).to_frame()
             else:
                 data = self._data.copy()
                 if self._valid_values:
@@ -65,6 +68,9 @@ def _make_add_or_sub_func(docstring, series_op, float_op, series_rop):
         elif self._data is None:  # means other._data is not None
             if np.isnan(self.initial_value):
                 data = None
+            elif np.isnan(other.initial_value):
+                # step changes are relative to an undefined value so must be recalculated
+                data = series_rop(other._get_values(), self.initial_value).to_frame()
             else:
                 data = other._data.copy()
                 if other._valid_values:
-- 
2.43.0


From 9a7eef636cc41491839860258b91cd0ceffaba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 04/57] fix: layering which cancels every step leaves no stale
 step points behind

---
 staircase/core/layering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 82c0505..3754833 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -126,9 +126,8 @@ def _layer_scalar(self, start, end, value):
             deltas.loc[end] = -value
         if deltas.loc[end] == 0:
             deltas.drop(end, inplace=True)
-    if len(deltas) > 0:
-        self._data = deltas.sort_index().to_frame()
-        self._valid_deltas = True
+    self._data = deltas.sort_index().to_frame() if len(deltas) > 0 else None
+    self._valid_deltas = self._data is not None
     self._valid_values = False
     return self
 
-- 
2.43.0


From ddaa5bb91ad4282d53f20f64f74c8f9a3d3b2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 05/57] fix: scalar NaN and NaT start and end points are
 layered as missing

---
 staircase/core/layering.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 3754833..e5b76a3 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -73,10 +73,14 @@ def _convert_to_series(vec: Any) -> pd.Series:
     return vec
 
 
+def _is_missing(arg):
+    return not is_list_like(arg) and pd.isna(arg)
+
+
 def _preprocess_layer_args(frame, start, end, value):
-    if isinstance(start, NegInf):
+    if isinstance(start, NegInf) or _is_missing(start):
         start = None
-    if isinstance(end, Inf):
+    if isinstance(end, Inf) or _is_missing(end):
         end = None
     if frame is not None:
         start, end, value = _extract_from_frame(frame, start, end, value)
-- 
2.43.0


From 2e2f95e26051fb84663c59888de2b53d91256c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 06/57] fix: unsigned, boolean and low precision values are
 layered as floats

---
 staircase/core/layering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index e5b76a3..fa70682 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -173,8 +173,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
-        return _layer_scalar(self, start, end, value)
-    value = np.array(value)
+        return _layer_scalar(self, start, end, float(value))
+    value = np.array(value, dtype="float64")
     assert not pd.isna(value).any(), "value parameter cannot contain null values"
     start = _convert_to_series(start)
     end = _convert_to_series(end)
-- 
2.43.0


From 07dd6330e2d25e17b3ede209e274b470bed1183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 07/57] fix: layering leaves undefined regions undefined and
 the remainder correct

---
 staircase/core/layering.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index fa70682..ce95d39 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -136,6 +136,17 @@ def _layer_scalar(self, start, end, value):
     return self
 
 
+def _layer_undefined(self, start, end, value):
+    # step changes cannot be accumulated across regions where self is undefined
+    layers = type(self)(closed=self._closed).layer(start, end, value)
+    result = self + layers
+    self.initial_value = result.initial_value
+    self._data = result._data
+    self._valid_deltas = result._valid_deltas
+    self._valid_values = result._valid_values
+    return self
+
+
 @Appender(examples.layer_example, join="\n", indents=1)
 def layer(self, start=None, end=None, value=None, frame=None):
     """
@@ -172,6 +183,8 @@ def layer(self, start=None, end=None, value=None, frame=None):
         return self
     self._clear_cache()
     start, end, value = _preprocess_layer_args(frame, start, end, value)
+    if self._data is not None and self._has_na():
+        return _layer_undefined(self, start, end, value)
     if not any(list(map(is_list_like, (start, end, value)))):
         return _layer_scalar(self, start, end, float(value))
     value = np.array(value, dtype="float64")
-- 
2.43.0


From 57052deccf0c2315cc573b756b3678eabf2a87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 08/57] fix: shift keeps the closed side of a step function
 without steps

---
 staircase/core/stairs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 934ae06..220a62d 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -637,7 +637,7 @@ class Stairs:
         Stairs.diff
         """
         if self._data is None:
-            return Stairs(initial_value=self.initial_value)
+            return Stairs(initial_value=self.initial_value, closed=self.closed)
         return Stairs._new(
             initial_value=self.initial_value,
             data=self._data.set_index(self._data.index + delta),
-- 
2.43.0


From 8f577d9c6ffefa560be198ac1df672bb0d397260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:52 +0000
Subject: [PATCH 09/57] fix: describe reports mean, std, min and max as numbers

---
 staircase/core/stairs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 220a62d..7bb7db3 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -605,12 +605,12 @@ class Stairs:
             {
                 **{
                     "unique": stairs.percentile.clip(0, 100).number_of_steps - 1,
-                    "mean": stairs.mean,
-                    "std": stairs.std,
-                    "min": stairs.min,
+                    "mean": stairs.mean(),
+                    "std": stairs.std(),
+                    "min": stairs.min(),
                 },
                 **{f"{perc}%": stairs.percentile(perc) for perc in percentiles},
-                **{"max": stairs.max},
+                **{"max": stairs.max()},
             }
         )
 
-- 
2.43.0


From b66327adf3840466958e4e88060be836e817c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 10/57] fix: from_values takes a canonical, private float copy
 of the values it is given

---
 staircase/core/stairs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 7bb7db3..0555f4f 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -143,10 +143,10 @@ class Stairs:
 
         new_instance = cls(closed=closed)
         new_instance.initial_value = initial_value
-        new_instance._data = values.to_frame("value")
+        new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-        return new_instance
+        return new_instance._remove_redundant_step_points()
 
     def _has_na(self) -> bool | np.array:
         return np.isnan(self._data.values).any() or np.isnan(self.initial_value)
-- 
2.43.0


From 93dcada65b157c17d2b62adebd5b31645fc7202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 11/57] fix: the type of a numpy scalar operand or initial
 value does not affect results

---
 staircase/core/stairs.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 0555f4f..d8ff2f5 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -73,7 +73,12 @@ class Stairs:
         self._valid_values = False
         self._masked = False
         self._closed = closed
-        self.initial_value = initial_value
+        # native numbers do not wrap around or refuse negation as some numpy types do
+        self.initial_value = (
+            initial_value.item()
+            if isinstance(initial_value, np.generic)
+            else initial_value
+        )
         self._clear_cache()
 
         if any([x is not None for x in (start, end, value)]):
@@ -141,8 +146,7 @@ class Stairs:
             values = values.replace([np.inf], np.nan)
             warnings.warn("Infinity values detected and have been converted to NaN")
 
-        new_instance = cls(closed=closed)
-        new_instance.initial_value = initial_value
+        new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = values.astype("float64").to_frame("value")
         new_instance._valid_deltas = False
         new_instance._valid_values = True
-- 
2.43.0


From c1f898a02630032d0da9192eec44755fad4e3397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 12/57] fix: comparing a numpy scalar with a step function
 gives a step function

---
 staircase/core/stairs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index d8ff2f5..5d46812 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -57,6 +57,9 @@ class Stairs:
 
     class_name = "Stairs"
 
+    # numpy scalars (not arrays) defer to the reflected operators of Stairs
+    __array_priority__ = -1
+
     @Appender(docstrings.Stairs_docstring, join="\n", indents=2)
     def __init__(
         self,
-- 
2.43.0


From 7dd61ec05c4963ce441341ebcd369661ed30d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 13/57] fix: comparing a partly undefined step function with a
 constant gives numeric values

---
 staircase/core/ops/relational.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 7e37928..8d713ed 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -39,19 +39,19 @@ def _make_relational_func(
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
                 values = self._get_values()
-                new_values = numpy_relational(values, other.initial_value)
+                new_values = numpy_relational(values, other.initial_value).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = self._data.index
             else:  # other._data exists
                 values = other._get_values()
-                new_values = numpy_relational(self.initial_value, values)
+                new_values = numpy_relational(self.initial_value, values).astype(float)
                 new_values[values.isna()] = np.nan
                 new_index = other._data.index
 
             new_instance = sc.Stairs._new(
                 initial_value=initial_value,
                 data=pd.DataFrame(
-                    {"value": new_values * 1},
+                    {"value": new_values},
                     index=new_index,
                 ),
                 closed=self.closed,
-- 
2.43.0


From 9a86d98a1af18e1a9e190a66e56e0eb5e1b6f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 14/57] fix: comparing a step function with a constant keeps
 the closed side of the operand with steps

---
 staircase/core/ops/relational.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 8d713ed..69f03ce 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -34,7 +34,7 @@ def _make_relational_func(
             return sc.Stairs._new(
                 initial_value=initial_value,
                 data=None,
-                closed=other.closed if np.isnan(self.initial_value) else self.closed,
+                closed=self.closed if other._data is None else other.closed,
             )
         elif self._data is None or other._data is None:
             if other._data is None:  # self._data exists
@@ -54,7 +54,7 @@ def _make_relational_func(
                     {"value": new_values},
                     index=new_index,
                 ),
-                closed=self.closed,
+                closed=self.closed if other._data is None else other.closed,
             )
             new_instance._remove_redundant_step_points()
             return new_instance
-- 
2.43.0


From 5433c59ab3e06cfc02ff4e5c5da485cc4a41d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 15/57] fix: logical operators with a constant keep undefined
 regions undefined

---
 staircase/core/ops/logical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/logical.py b/staircase/core/ops/logical.py
index 1271d40..11c9d18 100644
--- a/staircase/core/ops/logical.py
+++ b/staircase/core/ops/logical.py
@@ -48,7 +48,7 @@ def _make_logical_func(docstring, array_op, float_op):
         if np.isnan(other):
             return sc.Stairs._new(np.nan, None, closed=self.closed)
         elif other == 0:
-            return sc.Stairs._new(0, None, closed=self.closed)
+            return self.make_boolean() * 0  # undefined where self is undefined
         else:
             return self.make_boolean()
 
@@ -58,7 +58,7 @@ def _make_logical_func(docstring, array_op, float_op):
         elif other == 0:
             return self.make_boolean()
         else:
-            return sc.Stairs._new(1, None, closed=self.closed)
+            return self.make_boolean() * 0 + 1  # undefined where self is undefined
 
     def _op_with_scalar_xor(self, other):
         if np.isnan(other):
-- 
2.43.0


From 328aafa80294b6a9469ba8556f14927100e299e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 16/57] fix: clip without bounds returns a copy

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 9c9186f..7c766e5 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -38,7 +38,7 @@ def clip(self, lower=-inf, upper=inf):
     if not lower < upper:
         raise ValueError("'lower' must be strictly less than 'upper'.")
     if lower == -inf and upper == inf:
-        return self
+        return self.copy()
     left_index, right_index = _get_slice_index(
         self, lower, upper, lower_how="right", upper_how="left"
     )
-- 
2.43.0


From 87976a988fc45c134f80ed08ce3e08f59c9095b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 17/57] fix: where with a step function undefined towards -inf
 is undefined there

---
 staircase/core/ops/masking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 7c766e5..7fab601 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -83,7 +83,9 @@ def _maskify(self, inverse=False):
         )
 
     return sc.Stairs._new(
-        initial_value=np.nan if op(self.initial_value, 0) else 0,
+        initial_value=np.nan
+        if op(self.initial_value, 0) or np.isnan(self.initial_value)
+        else 0,
         data=data,
         closed=self.closed,
     )
-- 
2.43.0


From b1a1a39f542940dc7fa041860886fd1435a2c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 18/57] fix: mask and where remove redundant step points

---
 staircase/core/ops/masking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 7fab601..c9a2f09 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -88,7 +88,7 @@ def _maskify(self, inverse=False):
         else 0,
         data=data,
         closed=self.closed,
-    )
+    )._remove_redundant_step_points()
 
 
 def _mask_stairs(self, other, inverse):
-- 
2.43.0


From d9e99a310069b203dcf4e30f0bd8d68aefe2c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 19/57] fix: mask and where keep the closed side of the masked
 step function

---
 staircase/core/ops/masking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index c9a2f09..bde35de 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -98,7 +98,7 @@ def _mask_stairs(self, other, inverse):
     full_mask_comparator = is_full_inverse_mask if inverse else float(0).__ne__
     if other._data is None:
         if full_mask_comparator(other.initial_value):
-            return sc.Stairs(initial_value=np.nan)
+            return sc.Stairs(initial_value=np.nan, closed=self.closed)
         else:
             return self.copy()
     return _maskify(other, inverse=inverse) + self
@@ -108,7 +108,9 @@ def _make_mask_or_where_func(docstring, which):
     @convert_string_args_to_timestamp
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
-            self, sc.Stairs().layer(start=left, end=right), inverse=False
+            self,
+            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            inverse=False,
         )
 
     @convert_string_args_to_timestamp
-- 
2.43.0


From 17fb3b824eef87eafcb6b3797a91de59887d3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 20/57] fix: masking by a step function with the opposite
 closed side always raises

---
 staircase/core/ops/masking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index bde35de..efdb2b1 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -91,6 +91,7 @@ def _maskify(self, inverse=False):
     )._remove_redundant_step_points()
 
 
+@requires_closed_match
 def _mask_stairs(self, other, inverse):
     def is_full_inverse_mask(initial_value):
         return initial_value == 0 or np.isnan(initial_value)
-- 
2.43.0


From dff8ac04140a51d234e2bf50a5103b51a93dfce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 21/57] fix: fillna with a partly undefined step function
 changes undefined points only

---
 staircase/core/ops/masking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index efdb2b1..e6eb647 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -210,7 +210,8 @@ def _make_data_fillna_scalar(self, value):
 @requires_closed_match
 def _fillna_with_stairs(self, value):
     # value is Stairs
-    return self.fillna(0) + value * self.isna()
+    filled = self.fillna(0) + value.fillna(0) * self.isna()
+    return filled.mask(self.isna() & value.isna())
 
 
 # TODO: test
-- 
2.43.0


From be9a8acf1ac8e7ef1ee2a08722a8e720b87e085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 22/57] fix: fillna with a step function keeps the closed side
 of the operand with steps

---
 staircase/core/ops/masking.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index e6eb647..ce29f28 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -211,7 +211,12 @@ def _make_data_fillna_scalar(self, value):
 def _fillna_with_stairs(self, value):
     # value is Stairs
     filled = self.fillna(0) + value.fillna(0) * self.isna()
-    return filled.mask(self.isna() & value.isna())
+    result = filled.mask(self.isna() & value.isna())
+    if self._data is None and value._data is not None:
+        result._closed = value.closed
+    else:
+        result._closed = self.closed
+    return result
 
 
 # TODO: test
-- 
2.43.0


From b4c437eb60e1bd84e71c438ce14e96df24684cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 23/57] fix: missing and floating point infinite bounds leave
 their side unrestricted

---
 staircase/core/ops/masking.py | 4 +++-
 staircase/util/__init__.py    | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index ce29f28..294e8b0 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -110,7 +110,9 @@ def _make_mask_or_where_func(docstring, which):
     def handle_tuple_mask(self, left, right):
         return _mask_stairs(
             self,
-            sc.Stairs(closed=self.closed).layer(start=left, end=right),
+            sc.Stairs(closed=self.closed).layer(
+                *_replace_none_with_infs((left, right))
+            ),
             inverse=False,
         )
 
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 45982a3..de3f0b9 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -54,12 +54,16 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _equals_float(x, value):
+    return pd.api.types.is_number(x) and x == float(value)
+
+
 def _replace_none_with_infs(tuple_):
     if tuple_ == (-inf, inf):
         return tuple_
     left, right = tuple_
-    if left is None:
+    if left is None or pd.isna(left) or _equals_float(left, "-inf"):
         left = -inf
-    if right is None:
+    if right is None or pd.isna(right) or _equals_float(right, "inf"):
         right = inf
     return (left, right)
-- 
2.43.0


From 43ec45959c710c4dced95fd600627e06b1b7c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 24/57] fix: limit honours include_index for scalars and for
 step functions without steps

---
 staircase/core/sampling.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index e0eaa3b..962acf0 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -77,12 +77,12 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     staircase.sample
     """
     assert side in ("left", "right")
-    passed_x = x
+    passed_x = x if is_list_like(x) else [x]
     if self._data is None:
-        if pd.api.types.is_list_like(x):
-            return self.initial_value * np.ones_like(x, dtype=float)
-        else:
-            return self.initial_value
+        values = self.initial_value
+        if is_list_like(x):
+            values = np.full(len(x), values, dtype=float)
+        return pd.Series(values, index=passed_x) if include_index else values
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
-- 
2.43.0


From 524f7f4247e03f3ebe586e29f92c5ec65df87e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 25/57] fix: limit and sample accept an empty vector

---
 staircase/core/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/sampling.py b/staircase/core/sampling.py
index 962acf0..f1860b7 100644
--- a/staircase/core/sampling.py
+++ b/staircase/core/sampling.py
@@ -86,7 +86,7 @@ def limit(self: Stairs, x, side, include_index=False) -> pd.Series:
     amended_values = np.append(
         self._get_values().values, [self.initial_value]
     )  # hack for -1 index value
-    if pd.api.types.is_list_like(x) and _is_datetime_like(next(iter(x))):
+    if is_list_like(x) and _is_datetime_like(next(iter(x), None)):
         x = pd.Series(x).values  # faster, but also bug free in numpy
     elif _is_datetime_like(x):
         x = pd.Series([x]).values[0]
-- 
2.43.0


From 19e2cf700df8273c33bb928acc7a25a649035585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 26/57] fix: values_in_range of an undefined step function is
 empty

---
 staircase/core/stats/statistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0efc100..d02c899 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -119,7 +119,7 @@ def values_in_range(self, where=(-inf, inf), closed=None):
     lower_how, upper_how = _get_lims(self, closed)
     left_index, right_index = _get_slice_index(self, lower, upper, lower_how, upper_how)
     if right_index == -1:
-        return np.array([self.initial_value])
+        return np.array([self.initial_value] if pd.notna(self.initial_value) else [])
     values = self._get_values().iloc[max(0, left_index) : right_index]
     if left_index < 0 and not np.isnan(self.initial_value):
         values = np.append([self.initial_value], values)
@@ -135,7 +135,7 @@ def _min(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return min(self.values_in_range(where, closed))
+    return min(self.values_in_range(where, closed), default=np.nan)
 
 
 def _max(
@@ -146,7 +146,7 @@ def _max(
     where = _replace_none_with_infs(where)
     if closed is None:
         closed = self._closed
-    return max(self.values_in_range(where, closed))
+    return max(self.values_in_range(where, closed), default=np.nan)
 
 
 @Appender(docstrings.agg_docstring, join="\n", indents=1)
-- 
2.43.0


From 258d3b257c891fb6769318cc1d2d7fd84614cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 27/57] fix: integral raises an overflow error no matter which
 statistics were queried before

---
 staircase/core/stats/statistic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index d02c899..3d31973 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -13,6 +13,9 @@ from staircase.util import _get_lims, _replace_none_with_infs
 from staircase.util._decorators import Appender
 
 
+_OVERFLOW_MESSAGE = "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
+
+
 def _cache_integral_and_mean(self):
     if self._data is None or len(self._data) < 2:
         self._integral_and_mean = np.nan, np.nan
@@ -42,9 +45,9 @@ def integral(self):
         try:
             _cache_integral_and_mean(self)
         except (OverflowError, ValueError):
-            raise OverflowError(
-                "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
-            )
+            raise OverflowError(_OVERFLOW_MESSAGE)
+    if self._integral_and_mean[0] is None:
+        raise OverflowError(_OVERFLOW_MESSAGE)
     return self._integral_and_mean[0]
 
 
-- 
2.43.0


From 722b77f9e5385dcfba0374b7697c16645c29c62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 28/57] fix: corr of step functions with opposite closed sides
 always raises

---
 staircase/core/stats/statistic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 3d31973..0fddd34 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -6,6 +6,7 @@ from pandas.api.types import is_list_like
 
 import staircase as sc
 from staircase.constants import inf
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.ops.masking import _get_slice_index
 from staircase.core.stats import docstrings
 from staircase.docstrings import examples
@@ -254,6 +255,7 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     --------
     Stairs.cov, staircase.corr, staircase.cov
     """
+    _assert_closeds_equal(self, other)
     where = list(_replace_none_with_infs(where))
     if lag != 0:
         assert clip in ["pre", "post"]
-- 
2.43.0


From 6cb4c0172976332cb4d5796dd744877547e16761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 29/57] fix: hist of slices supports functions without steps,
 positional arguments and unitless stats

---
 staircase/core/slicing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index f2eee8a..03d8c9f 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -76,11 +76,11 @@ class StairsSlicer:
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
     def hist(self, *args, **kwargs):
-        self._ensure_slices()
-        zero = (
-            self._stairs._data.index[0] - self._stairs._data.index[0]
-        )  # hack to get 0 or pd.Timedelta(0)
-        return self._slices.apply(sc.Stairs.hist, *args, **kwargs).fillna(zero)
+        result = self.apply(sc.Stairs.hist, *args, **kwargs)
+        values = result.iloc[0].dropna()
+        # 0 or pd.Timedelta(0), depending on domain and stat
+        zero = values.iloc[0] - values.iloc[0] if len(values) else 0
+        return result.fillna(zero)
 
     @Appender(docstrings.resample_docstring, join="\n", indents=1)
     def resample(self, func: str):
-- 
2.43.0


From c7716929316a19f70aefdcfdae71bb6b0a5a2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 30/57] fix: min and max of slices ignore endpoints where the
 step function is undefined

---
 staircase/core/slicing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 03d8c9f..5394d1a 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -51,12 +51,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.right))
+            result = np.fmax(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.maximum(result, self._stairs(self._interval_index.left))
+            result = np.fmax(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings._docstrings["min"], join="\n", indents=1)
@@ -66,12 +66,12 @@ class StairsSlicer:
             "right",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.right))
+            result = np.fmin(result, self._stairs(self._interval_index.right))
         elif self._stairs._closed == "right" and self._interval_index.closed in (
             "left",
             "both",
         ):
-            result = np.minimum(result, self._stairs(self._interval_index.left))
+            result = np.fmin(result, self._stairs(self._interval_index.left))
         return result
 
     @Appender(docstrings.hist_docstring, join="\n", indents=1)
-- 
2.43.0


From 35bc4395dff5b82c7a5213fb3d7e808a5bdcb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 31/57] fix: resample gives undefined slices where the
 statistic is undefined

---
 staircase/core/slicing.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/staircase/core/slicing.py b/staircase/core/slicing.py
index 5394d1a..f39f55d 100644
--- a/staircase/core/slicing.py
+++ b/staircase/core/slicing.py
@@ -93,12 +93,19 @@ class StairsSlicer:
         left_bound = self._slices.index.left.min()
         right_bound = self._slices.index.right.max()
         stairs_na = self._stairs.isna().mask((left_bound, right_bound)).fillna(0)
-        return (
+        result = (
             self._stairs.mask((left_bound, right_bound))
             .fillna(0)
             .mask(stairs_na)
-            .layer(new_values.index.left, new_values.index.right, new_values.values)
+            .layer(
+                new_values.index.left,
+                new_values.index.right,
+                new_values.fillna(0).values,
+            )
         )
+        for interval in new_values.index[new_values.isna()]:
+            result = result.mask((interval.left, interval.right))
+        return result
 
 
 def make_slice_method(method_name: str) -> Callable:
-- 
2.43.0


From 1f7130dcb0ae080a5172e8af85e4b8adea844063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 32/57] fix: aggregating a collection of step functions without
 steps

---
 staircase/core/arrays/extension.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d1d7bcb..eb14ce1 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -163,12 +163,18 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "agg"), join="\n", indents=1)
     def agg(self, func):
+        with_steps = [sf for sf in self.data if sf.number_of_steps]
+        if not with_steps:
+            return Stairs(
+                initial_value=func([s.initial_value for s in self.data]) * 1.0,
+                closed=self.data[0].closed,
+            )
         index = pd.Index(
             np.unique(
                 np.concatenate(
                     [
                         s.step_changes.index  # using .step_changes.index instead of .step_points to retain timezones
-                        for s in (sf for sf in self.data if sf.number_of_steps)
+                        for s in with_steps
                     ]
                 )
             )
-- 
2.43.0


From 88aa73629a5f6505180d693d44c1c58d05acc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 33/57] fix: aggregation keeps the closed side of the members
 with steps

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index eb14ce1..66e4939 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -190,7 +190,7 @@ class StairsArray(ExtensionArray):
                 index=index,
                 name="value",
             ).to_frame(),
-            closed=self.data[0].closed,
+            closed=with_steps[0].closed,
         )._remove_redundant_step_points()
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
-- 
2.43.0


From 9e52e4030c9b8f4e2c7cf78cd9aeedcaf8009b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 34/57] fix: aggregating step functions with opposite closed
 sides raises a mismatch

---
 staircase/core/arrays/extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 66e4939..5b4d923 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -16,6 +16,7 @@ from pandas.core.dtypes.inference import is_dict_like, is_list_like
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
+from staircase.core.ops.common import _assert_closeds_equal
 from staircase.core.stairs import Stairs
 from staircase.core.stats.statistic import corr as _corr
 from staircase.core.stats.statistic import cov as _cov
@@ -169,6 +170,8 @@ class StairsArray(ExtensionArray):
                 initial_value=func([s.initial_value for s in self.data]) * 1.0,
                 closed=self.data[0].closed,
             )
+        for sf in with_steps:
+            _assert_closeds_equal(with_steps[0], sf)
         index = pd.Index(
             np.unique(
                 np.concatenate(
-- 
2.43.0


From 001a60c0b0214e17b98b67bcfe0460d523edea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 35/57] fix: numpy scalars are broadcast in StairsArray
 operators

---
 staircase/core/arrays/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 5b4d923..d0c2fb1 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -12,7 +12,7 @@ from pandas.api.extensions import (
     ExtensionDtype,
     register_extension_dtype,
 )
-from pandas.core.dtypes.inference import is_dict_like, is_list_like
+from pandas.core.dtypes.inference import is_dict_like, is_list_like, is_number
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
@@ -253,7 +253,7 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, (int, float, Stairs)):
+        if isinstance(other, Stairs) or is_number(other):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 3b46a8cba3571992af0b309550138c5cf87a0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 36/57] fix: StairsArray operators accept any sequence and
 raise on unequal lengths

---
 staircase/core/arrays/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index d0c2fb1..75f8402 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -257,9 +257,9 @@ def _make_binary_func(func_str: str) -> Callable:
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-                return ValueError("Arrays have different lengths.")
+                raise ValueError("Arrays have different lengths.")
             result = StairsArray(
-                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other.data)]
+                [stairs_func(s1, s2) for s1, s2 in zip(self.data, other)]
             )
         else:
             return NotImplemented
-- 
2.43.0


From e27a9c4750fcb7023851c247d402c994254493e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 37/57] fix: operators between a step function and a
 StairsArray broadcast from either side

---
 staircase/core/ops/__init__.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/staircase/core/ops/__init__.py b/staircase/core/ops/__init__.py
index 0a4009e..1247c65 100644
--- a/staircase/core/ops/__init__.py
+++ b/staircase/core/ops/__init__.py
@@ -1,3 +1,7 @@
+import functools
+
+from pandas.api.types import is_list_like
+
 from staircase.core.ops.arithmetic import add, divide, multiply, negate, subtract
 from staircase.core.ops.logical import (
     invert,
@@ -19,6 +23,16 @@ from staircase.core.ops.rops import (
 )
 
 
+def _defer_to_collections(func):
+    @functools.wraps(func)
+    def wrapper(self, other):
+        if is_list_like(other):  # eg StairsArray, which broadcasts over its members
+            return NotImplemented
+        return func(self, other)
+
+    return wrapper
+
+
 def add_operations(cls):
 
     cls.negate = negate
@@ -41,16 +55,16 @@ def add_operations(cls):
     cls.ge = ge
 
     cls.__neg__ = negate
-    cls.__add__ = add
-    cls.__sub__ = subtract
-    cls.__mul__ = multiply
-    cls.__truediv__ = divide
-    cls.__eq__ = eq
-    cls.__ne__ = ne
-    cls.__lt__ = lt
-    cls.__gt__ = gt
-    cls.__le__ = le
-    cls.__ge__ = ge
+    cls.__add__ = _defer_to_collections(add)
+    cls.__sub__ = _defer_to_collections(subtract)
+    cls.__mul__ = _defer_to_collections(multiply)
+    cls.__truediv__ = _defer_to_collections(divide)
+    cls.__eq__ = _defer_to_collections(eq)
+    cls.__ne__ = _defer_to_collections(ne)
+    cls.__lt__ = _defer_to_collections(lt)
+    cls.__gt__ = _defer_to_collections(gt)
+    cls.__le__ = _defer_to_collections(le)
+    cls.__ge__ = _defer_to_collections(ge)
 
     cls.invert = invert
     cls.logical_and = logical_and
-- 
2.43.0


From 618a38458a45e0756727732fdc7e0bd6b422d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 38/57] fix: diagonal of the correlation matrix agrees with
 corr

---
 staircase/core/arrays/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 75f8402..94345e4 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -314,7 +314,7 @@ def _make_corr_cov_func(
 
 
 StairsArray.corr = _make_corr_cov_func(
-    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=True
+    docstrings.make_docstring("array", "corr"), _corr, assume_ones_diagonal=False
 )
 StairsArray.cov = _make_corr_cov_func(
     docstrings.make_docstring("array", "cov"), _cov, assume_ones_diagonal=False
-- 
2.43.0


From ba7ca0812157644132eacb86494613fe76eba1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 39/57] fix: fillna gives the same result for boolean and numpy
 scalars as for floats

---
 staircase/core/ops/masking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 294e8b0..0ea09d7 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -196,6 +196,7 @@ def _make_data_fillna_method(self, value):
 
 
 def _make_data_fillna_scalar(self, value):
+    value = float(value)
     if np.isnan(self.initial_value):
         initial_value = value
     else:
-- 
2.43.0


From 35585b7fb8b1e5ad8c793871d032db95b9780bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 40/57] fix: density histograms of datetime-like domains
 support fractional bin widths

---
 staircase/core/stats/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/staircase/core/stats/distribution.py b/staircase/core/stats/distribution.py
index eb3e05f..b76bc24 100644
--- a/staircase/core/stats/distribution.py
+++ b/staircase/core/stats/distribution.py
@@ -90,7 +90,7 @@ class ECDF(sc.core.stairs.Stairs):
                 if stat == "frequency":
                     values = values / widths
                 elif stat == "density":
-                    values = values / np.dot(values, widths)
+                    values = values / np.asarray(values * widths).sum()
 
         return pd.Series(
             data=values,
-- 
2.43.0


From 938b1ca3f5a83a97faa55349ca20f5597c08afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 41/57] fix: from_values accepts a numpy boolean initial value
 as it does a boolean

---
 staircase/core/stairs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 5d46812..848315c 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -138,7 +138,9 @@ class Stairs:
         if is_numeric_dtype(values.index) and np.isinf(values.index).any():
             raise ValueError("Invalid value for Series index")
 
-        if not is_numeric_dtype(values) or not is_number(initial_value):
+        if not is_numeric_dtype(values) or not (
+            is_number(initial_value) or isinstance(initial_value, np.bool_)
+        ):
             raise ValueError("Invalid dtype for from_values()")
 
         if not values.index.is_monotonic_increasing:
-- 
2.43.0


From 274d585b6100ff57ff0b3a99017c3e575c8bb03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 42/57] fix: ecdf, fractile and percentile objects do not share
 state with the cached ones

---
 staircase/core/stairs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index 848315c..e3ca121 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -9,6 +9,7 @@ modelling step functions. See :ref:`Getting Started <getting_started>` for more
 
 from __future__ import annotations
 
+import copy
 import warnings
 from typing import Any, Callable
 
@@ -211,7 +212,7 @@ class Stairs:
         Stairs.percentile
         Stairs.fractile
         """
-        return self.dist.ecdf
+        return copy.deepcopy(self.dist.ecdf)
 
     @property
     def fractile(self):
@@ -257,7 +258,7 @@ class Stairs:
         >>> sf.percentile([0.25, 0.5, 0.75])
         array([2., 3., 4.])
         """
-        return self.dist.fractile
+        return copy.deepcopy(self.dist.fractile)
 
     @property
     def percentile(self):
@@ -303,7 +304,7 @@ class Stairs:
         >>> sf.percentile([25,50,75])
         array([2., 3., 4.])
         """
-        return self.dist.percentile
+        return copy.deepcopy(self.dist.percentile)
 
     @Appender(stats.docstrings.hist_example, join="\n", indents=2)
     def hist(self, bins="unit", closed="left", stat="sum"):
-- 
2.43.0


From 6d7d3125420ea9022f0700c9e6b63f43fa1900f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 43/57] fix: vector layers with missing starts on functions
 held as values

---
 staircase/core/layering.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index ce95d39..b36f7e4 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -194,18 +194,14 @@ def layer(self, start=None, end=None, value=None, frame=None):
     _check_args_dtypes(start, end)  # conversion to Series required before checking
     df = pd.concat([start, end], axis=1, ignore_index=True)
     start_series = pd.Series(value, index=df.iloc[:, 0])
+    to_concat = [
+        start_series,
+        pd.Series(-value, index=df.iloc[:, 1]),
+    ]
+    if self._data is not None:
+        # must precede the change of initial value, from which they may be derived
+        to_concat.append(self._get_deltas())
     self.initial_value += start_series[start_series.index.isna()].sum()
-    if self._data is None:
-        to_concat = [
-            start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
-        ]
-    else:
-        to_concat = [
-            start_series,
-            pd.Series(-value, index=df.iloc[:, 1]),
-            self._get_deltas(),
-        ]
     deltas = pd.concat(to_concat)
 
     self._data = deltas.groupby(deltas.index).sum().rename("delta").to_frame()
-- 
2.43.0


From 9c40c017c3952b825fc08270899c1f5bfd903b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:42 +0000
Subject: [PATCH 44/57] fix: correlation with a constant function is NaN
 irrespective of rounding

---
 staircase/core/stats/statistic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 0fddd34..433b605 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -265,7 +265,11 @@ def corr(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
-    denominator = self.clip(*where).std() * other.clip(*where).std()
+    clipped = self.clip(*where), other.clip(*where)
+    # standard deviation of a constant may be calculated as a tiny, but non-zero, number
+    if any(len(s.value_sums()) == 1 for s in clipped if s._data is not None):
+        return np.nan
+    denominator = clipped[0].std() * clipped[1].std()
     if denominator == 0:
         return np.nan
     return self.cov(other, where) / denominator
-- 
2.43.0


From 770a56ba2f1c501c8d5127f2ceac3b58aabd8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 45/57] fix: aggregate Series of step functions whose index has
 repeated labels

---
 staircase/core/arrays/extension.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 94345e4..275d155 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -71,6 +71,8 @@ class StairsArray(ExtensionArray):
                     "'data' should be a 1-dimensional array of Stairs objects."
                 )
             self.data = data
+        elif isinstance(data, pd.Series):  # whose index may have repeated labels
+            self.data = np.array(list(data), ndmin=1)
         elif is_dict_like(data):
             self.data = np.array([data[k] for k in data.keys()])
         elif isinstance(data, Stairs) or is_list_like(data):
-- 
2.43.0


From 39b474b1aa5b388ec6be4a8b9b750c6709d58ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:33 +0000
Subject: [PATCH 46/57] fix: tables of sampled collections allow repeated
 points

---
 staircase/core/arrays/extension.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 275d155..4eec787 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -46,6 +46,13 @@ def _isna(value: pd.Series) -> pd.Series:
     return pd.isna(value)
 
 
+def _tabulate(rows: list) -> pd.DataFrame:
+    # one row per step function, the points (columns) may be repeated
+    if not rows:
+        return pd.DataFrame()
+    return pd.DataFrame([row.to_numpy() for row in rows], columns=rows[0].index)
+
+
 def _make_logical(func: Callable) -> Callable:
     def logical_func(x, axis=0):
         return np.where(
@@ -200,13 +207,13 @@ class StairsArray(ExtensionArray):
 
     @Appender(docstrings.make_docstring("array", "sample"), join="\n", indents=1)
     def sample(self, x) -> pd.Series:
-        array = pd.Series(self.data)
-        return array.apply(Stairs.sample, x=x, include_index=True)
+        return _tabulate([s.sample(x, include_index=True) for s in self.data])
 
     @Appender(docstrings.make_docstring("array", "limit"), join="\n", indents=1)
     def limit(self, x, side="right"):
-        array = pd.Series(self.data)
-        return array.apply(Stairs.limit, x=x, side=side, include_index=True)
+        return _tabulate(
+            [s.limit(x, side=side, include_index=True) for s in self.data]
+        )
 
     @Appender(docstrings.make_docstring("array", "logical_or"), join="\n", indents=1)
     def logical_or(self):
-- 
2.43.0


From 975d4dab28de0df288cb58ef224313fc9f1115a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 47/57] fix: StairsArray operators accept numpy boolean scalars

---
 staircase/core/arrays/extension.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 4eec787..5e93846 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -12,7 +12,12 @@ from pandas.api.extensions import (
     ExtensionDtype,
     register_extension_dtype,
 )
-from pandas.core.dtypes.inference import is_dict_like, is_list_like, is_number
+from pandas.core.dtypes.inference import (
+    is_bool,
+    is_dict_like,
+    is_list_like,
+    is_number,
+)
 
 from staircase.constants import inf
 from staircase.core.arrays import docstrings
@@ -262,7 +267,7 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
-        if isinstance(other, Stairs) or is_number(other):
+        if isinstance(other, Stairs) or is_number(other) or is_bool(other):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
             if len(other) != len(self):
-- 
2.43.0


From 7f8d1efcd441980f589dd649e8d7611fc210b944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 48/57] fix: reflected comparisons of numpy scalars with
 StairsArray are element-wise

---
 staircase/core/arrays/extension.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/staircase/core/arrays/extension.py b/staircase/core/arrays/extension.py
index 5e93846..c6d26ab 100644
--- a/staircase/core/arrays/extension.py
+++ b/staircase/core/arrays/extension.py
@@ -267,6 +267,9 @@ def _make_binary_func(func_str: str) -> Callable:
 
     @Appender(docstring, join="\n", indents=1)
     def func(self, other):
+        # numpy hands its scalars over as arrays without dimension
+        if isinstance(other, np.ndarray) and other.ndim == 0:
+            other = other.item()
         if isinstance(other, Stairs) or is_number(other) or is_bool(other):
             result = StairsArray([stairs_func(s, other) for s in self.data])
         elif is_list_like(other):
-- 
2.43.0


From 162958ab13e99a22f42c994b83c70db3f59d3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 49/57] fix: combining step functions with regularly spaced
 micro or nanosecond step points

---
 staircase/core/ops/common.py | 3 ++-
 staircase/core/stairs.py     | 4 ++--
 staircase/util/__init__.py   | 5 +++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/staircase/core/ops/common.py b/staircase/core/ops/common.py
index 1a8660e..dcd7232 100644
--- a/staircase/core/ops/common.py
+++ b/staircase/core/ops/common.py
@@ -5,6 +5,7 @@ import pandas as pd
 
 import staircase as sc
 from staircase.core.exceptions import ClosedMismatchError
+from staircase.util import _union
 
 
 def _not_arithmetic_op(series_op):
@@ -48,7 +49,7 @@ def _combine_step_series(
     series_1, series_2, initial_value_1, initial_value_2, series_op, kind
 ):
     # kind = "values" or "deltas"
-    new_index = series_1.index.union(series_2.index)
+    new_index = _union(series_1.index, series_2.index)
 
     reindex_method = _reindex_values if kind == "values" else _reindex_deltas
     reindexed_series_1 = reindex_method(new_index, series_1, initial_value_1)
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index e3ca121..b2487d7 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -29,7 +29,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs
+from staircase.util import _replace_none_with_infs, _union
 from staircase.util._decorators import Appender
 
 
@@ -720,7 +720,7 @@ class Stairs:
         if clipped._data is None:
             return pd.Series([clipped.initial_value] * 2, index=where)
         step_points = clipped._data.index
-        sample_points = pd.Index.union(
+        sample_points = _union(
             step_points - left_delta,
             step_points - right_delta,
         )
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index de3f0b9..aa610d1 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -54,6 +54,11 @@ def _get_lims(stairs, closed):
         }[closed]
 
 
+def _union(index_1, index_2):
+    # the union of pandas indexes with a micro or nanosecond frequency is unreliable
+    return index_1.append(index_2).drop_duplicates().sort_values()
+
+
 def _equals_float(x, value):
     return pd.api.types.is_number(x) and x == float(value)
 
-- 
2.43.0


From dde0133c25d4c4fe999af8b77369bf57964c12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 50/57] fix: integral and mean of datetime-like step functions
 which are undefined between all step points

---
 staircase/core/stats/statistic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 433b605..6a87746 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -23,6 +23,10 @@ def _cache_integral_and_mean(self):
     else:
         value_sums = self.value_sums(group=False)
         value_sums = value_sums[value_sums.index.notnull()]
+        if value_sums.empty:
+            # undefined between all step points
+            self._integral_and_mean = value_sums.sum(), np.nan
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From b2b9ff6d20af6b44392ebeb259049d9e3ccec435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:14 +0000
Subject: [PATCH 51/57] fix: rolling_mean accepts any timedelta type together
 with any datetime type

---
 staircase/core/stairs.py   | 7 +++++--
 staircase/util/__init__.py | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index b2487d7..e093cf4 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -29,7 +29,7 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _replace_none_with_infs, _union
+from staircase.util import _is_timedelta_like, _replace_none_with_infs, _union
 from staircase.util._decorators import Appender
 
 
@@ -714,7 +714,10 @@ class Stairs:
         """
         where = _replace_none_with_infs(where)
         assert len(window) == 2, "Window should be a listlike object of length 2."
-        left_delta, right_delta = window
+        left_delta, right_delta = (
+            pd.Timedelta(delta) if _is_timedelta_like(delta) else delta
+            for delta in window
+        )
         lower, upper = where
         clipped = self.clip(lower, upper)
         if clipped._data is None:
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index aa610d1..13bbfc6 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -22,6 +22,10 @@ def _is_datetime_like(x):
     )
 
 
+def _is_timedelta_like(x):
+    return isinstance(x, (datetime.timedelta, np.timedelta64))
+
+
 def _sanitize_binary_operands(self, other, copy_other=False):
     if not isinstance(self, sc.Stairs):
         self = sc.Stairs(initial_value=self, closed=other.closed)
-- 
2.43.0


From fb66b8aeba88dcfac2a9ba72b6e2db5500f4cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 52/57] fix: clip and layer with bounds finer than the
 resolution of the step points

---
 staircase/core/layering.py    |  3 +++
 staircase/core/ops/masking.py |  3 ++-
 staircase/util/__init__.py    | 11 +++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index b36f7e4..626bb60 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -16,6 +16,7 @@ from pandas.api.types import (
 
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
+from staircase.util import _refine_index
 from staircase.util._decorators import Appender
 
 
@@ -116,6 +117,7 @@ def _layer_scalar(self, start, end, value):
     if start is None:
         self.initial_value += value
     else:
+        deltas = _refine_index(deltas, start)
         if start in deltas.index:
             deltas.loc[start] += value
         else:
@@ -124,6 +126,7 @@ def _layer_scalar(self, start, end, value):
             deltas.drop(start, inplace=True)
 
     if end is not None:
+        deltas = _refine_index(deltas, end)
         if end in deltas.index:
             deltas.loc[end] -= value
         else:
diff --git a/staircase/core/ops/masking.py b/staircase/core/ops/masking.py
index 0ea09d7..d590fb2 100644
--- a/staircase/core/ops/masking.py
+++ b/staircase/core/ops/masking.py
@@ -11,7 +11,7 @@ from staircase.core.ops.common import (
     convert_string_args_to_timestamp,
     requires_closed_match,
 )
-from staircase.util import _replace_none_with_infs
+from staircase.util import _refine_index, _replace_none_with_infs
 from staircase.util._decorators import Appender
 
 
@@ -47,6 +47,7 @@ def clip(self, lower=-inf, upper=inf):
         sliced_values = pd.Series(dtype="float64")
     else:
         sliced_values = self._get_values().iloc[max(0, left_index) : right_index]
+    sliced_values = _refine_index(sliced_values, lower, upper)
     if upper != inf:
         sliced_values.loc[upper] = np.nan
     if lower != -inf and left_index < 0:
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 13bbfc6..917d956 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -63,6 +63,17 @@ def _union(index_1, index_2):
     return index_1.append(index_2).drop_duplicates().sort_values()
 
 
+def _refine_index(data, *labels):
+    # a datetime-like index would truncate labels of a finer resolution than its own
+    for label in labels:
+        unit = getattr(data.index, "unit", "ns")
+        label = pd.Index([label])
+        if unit != "ns" and isinstance(label, type(data.index)):
+            if (label.as_unit(unit) != label).any():
+                data = data.set_axis(data.index.as_unit(label.unit))
+    return data
+
+
 def _equals_float(x, value):
     return pd.api.types.is_number(x) and x == float(value)
 
-- 
2.43.0


From 5357a8e04ac70a6d3fae9305a90c4bc3ad789085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 53/57] fix: identical for datetime-like step points of
 different resolutions

---
 staircase/core/ops/relational.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/staircase/core/ops/relational.py b/staircase/core/ops/relational.py
index 69f03ce..116854b 100644
--- a/staircase/core/ops/relational.py
+++ b/staircase/core/ops/relational.py
@@ -79,6 +79,13 @@ def _is_series_equal(s1, s2):
         s2.index
     ):
         s2.index = s2.index.astype("float64")
+    if getattr(s1.index, "unit", None) != getattr(s2.index, "unit", None):
+        # datetime-like indexes of different resolutions are not considered equal by pandas
+        return (
+            len(s1) == len(s2)
+            and bool((s1.index == s2.index).all())
+            and np.array_equal(s1.values, s2.values, equal_nan=True)
+        )
     return pd.Series.equals(s1, s2)
 
 
-- 
2.43.0


From 6a1dc547c402cc03981c716aa0230db2609fe31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 54/57] fix: integral, mean and related statistics truncated
 for step points in units coarser than nanoseconds

---
 staircase/core/stats/statistic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 6a87746..d096e72 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -1,3 +1,4 @@
+import contextlib
 import warnings
 
 import numpy as np
@@ -71,6 +72,17 @@ def median(self):
     return self.dist.percentile(50)
 
 
+def _interval_lengths(index):
+    lengths = np.diff(index.values)
+    if lengths.dtype.kind == "m":
+        # arithmetic truncates timedeltas in units coarser than nanoseconds,
+        # which are retained only if needed to represent the extent of the index
+        with contextlib.suppress(pd.errors.OutOfBoundsTimedelta):
+            (index[-1] - index[0]).as_unit("ns")
+            lengths = lengths.astype("timedelta64[ns]")
+    return lengths
+
+
 @Appender(docstrings.value_sums_docstring, join="\n", indents=1)
 def value_sums(self, dropna=True, group=True):
 
@@ -78,7 +90,7 @@ def value_sums(self, dropna=True, group=True):
         return None
 
     value_sums = pd.Series(
-        np.diff(self._data.index.values), index=self._get_values().iloc[:-1]
+        _interval_lengths(self._data.index), index=self._get_values().iloc[:-1]
     )
     # .values used to avoid a strange numpy Future Warning
     if group:
-- 
2.43.0


From a654d652655c68b18ee47510225f227ed1444588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 55/57] fix: arithmetic on step points with narrow, unsigned or
 nullable numeric dtypes

---
 staircase/core/layering.py |  4 ++--
 staircase/core/stairs.py   |  8 +++++++-
 staircase/util/__init__.py | 11 +++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/staircase/core/layering.py b/staircase/core/layering.py
index 626bb60..7ce0b9d 100644
--- a/staircase/core/layering.py
+++ b/staircase/core/layering.py
@@ -16,7 +16,7 @@ from pandas.api.types import (
 
 from staircase.constants import Inf, NegInf
 from staircase.docstrings import examples
-from staircase.util import _refine_index
+from staircase.util import _refine_index, _widen_numeric
 from staircase.util._decorators import Appender
 
 
@@ -71,7 +71,7 @@ def _convert_to_series(vec: Any) -> pd.Series:
             vec = pd.Series(vec)
     else:
         vec = vec.reset_index(drop=True)
-    return vec
+    return _widen_numeric(vec)
 
 
 def _is_missing(arg):
diff --git a/staircase/core/stairs.py b/staircase/core/stairs.py
index e093cf4..b9575db 100644
--- a/staircase/core/stairs.py
+++ b/staircase/core/stairs.py
@@ -29,7 +29,12 @@ from staircase.core import stats
 from staircase.core.accessor import CachedAccessor
 from staircase.core.layering import _check_args_dtypes
 from staircase.plotting.accessor import PlotAccessor
-from staircase.util import _is_timedelta_like, _replace_none_with_infs, _union
+from staircase.util import (
+    _is_timedelta_like,
+    _replace_none_with_infs,
+    _union,
+    _widen_numeric,
+)
 from staircase.util._decorators import Appender
 
 
@@ -154,6 +159,7 @@ class Stairs:
 
         new_instance = cls(initial_value=initial_value, closed=closed)
         new_instance._data = values.astype("float64").to_frame("value")
+        new_instance._data.index = _widen_numeric(values.index)
         new_instance._valid_deltas = False
         new_instance._valid_values = True
         return new_instance._remove_redundant_step_points()
diff --git a/staircase/util/__init__.py b/staircase/util/__init__.py
index 917d956..7c64724 100644
--- a/staircase/util/__init__.py
+++ b/staircase/util/__init__.py
@@ -2,6 +2,7 @@ import datetime
 
 import numpy as np
 import pandas as pd
+from pandas.api.types import is_bool_dtype, is_integer_dtype, is_numeric_dtype
 
 import staircase as sc
 from staircase.constants import inf
@@ -74,6 +75,16 @@ def _refine_index(data, *labels):
     return data
 
 
+def _widen_numeric(labels):
+    # step points in narrow, unsigned or nullable dtypes overflow, or raise errors, in arithmetic
+    if not is_numeric_dtype(labels) or is_bool_dtype(labels):
+        return labels
+    if is_integer_dtype(labels) and not labels.hasnans:
+        fits = len(labels) == 0 or labels.max() <= np.iinfo("int64").max
+        return labels.astype("int64") if fits else labels
+    return labels.astype("float64")
+
+
 def _equals_float(x, value):
     return pd.api.types.is_number(x) and x == float(value)
 
-- 
2.43.0


From 9226d0867ebcf445bcad50e4b7316e3ad2c56ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 56/57] fix: integral and mean of datetime-like functions
 truncated each piece to whole nanoseconds

---
 staircase/core/stats/statistic.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index d096e72..8cf8f6d 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -1,4 +1,5 @@
 import contextlib
+import math
 import warnings
 
 import numpy as np
@@ -18,6 +19,22 @@ from staircase.util._decorators import Appender
 _OVERFLOW_MESSAGE = "Integral calculation results in overflow error.  Consider scaling down step function values to accommodate."
 
 
+def _cache_integral_and_mean_timedelta(self, value_sums):
+    lengths = value_sums.values
+    unit, _ = np.datetime_data(lengths.dtype)
+    lengths = lengths.astype("int64").tolist()
+    products = [x * y for x, y in zip(value_sums.index.tolist(), lengths)]
+    mean = math.fsum(products) / sum(lengths)
+    self._integral_and_mean = (None, mean)  # if integral is not representable
+    # rounding to whole units is left until last, so that errors do not accumulate
+    whole = sum(int(x) for x in products)
+    integral = whole + round(math.fsum(x - int(x) for x in products))
+    if abs(integral) > np.iinfo("int64").max:
+        raise OverflowError
+    integral = pd.Timedelta(np.timedelta64(integral, unit))
+    self._integral_and_mean = (integral, mean)
+
+
 def _cache_integral_and_mean(self):
     if self._data is None or len(self._data) < 2:
         self._integral_and_mean = np.nan, np.nan
@@ -28,6 +45,9 @@ def _cache_integral_and_mean(self):
             # undefined between all step points
             self._integral_and_mean = value_sums.sum(), np.nan
             return
+        if value_sums.dtype.kind == "m":
+            _cache_integral_and_mean_timedelta(self, value_sums)
+            return
         try:
             with warnings.catch_warnings():
                 warnings.simplefilter("ignore")
-- 
2.43.0


From e8031701e29829f5e2ecece5b13b561293f2ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 57/57] fix: cancellation in cov and corr of functions whose
 values are large relative to their variation

---
 staircase/core/stats/statistic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/staircase/core/stats/statistic.py b/staircase/core/stats/statistic.py
index 8cf8f6d..4e7487c 100644
--- a/staircase/core/stats/statistic.py
+++ b/staircase/core/stats/statistic.py
@@ -252,9 +252,10 @@ def cov(self, other, where=(-inf, inf), lag=0, clip="pre"):
     mask = self.isna() | other.isna()
     self = self.mask(mask)
     other = other.mask(mask)
-    return (self * other).clip(*where).mean() - self.clip(*where).mean() * other.clip(
-        *where
-    ).mean()
+    # subtracting means beforehand avoids cancellation between large numbers
+    self = self - self.clip(*where).mean()
+    other = other - other.clip(*where).mean()
+    return (self * other).clip(*where).mean()
 
 
 @Appender(examples.corr_example, join="\n", indents=1)
-- 
2.43.0

