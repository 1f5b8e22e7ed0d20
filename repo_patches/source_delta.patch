From b0fd73b1617563095f3bb9e5df0f279ca2bddbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 01/67] fix: union of spatial constraints on a boolean mask
 keeps both regions

---
 swiftsimio/masks.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..1919009 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -664,9 +664,9 @@ class SWIFTMask(HandleProvider):
         """
         Update the particle masks using the cell masks.
 
-        We actually overwrite all non-used cells with ``False``, rather than the
-        inverse, as we assume initially that we want to read all particles in,
-        and we want to respect other masks that may have been applied to the data.
+        Only spatial constraints can have been applied when this is called, so the
+        rows of each cell are selected exactly if the cell is (boolean masks may lack
+        cells from an earlier spatial constraint that a union adds back).
         """
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
@@ -681,18 +681,15 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-
                 # We must do the whole boolean mask business.
                 this_mask = getattr(self, data_name)
 
-                for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                for count, offset, selected in zip(
+                    self.counts[count_name],
+                    self.offsets[count_name],
+                    self.cell_mask[count_name],
+                ):
+                    this_mask[offset : count + offset] = selected
 
         return
 
-- 
2.43.0


From e5b4469db65941d2065a8dd0b69d65761ab5b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:15 +0000
Subject: [PATCH 02/67] fix: a spatial mask that selects no cells is an empty
 list of ranges

---
 swiftsimio/masks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 1919009..ee8f7c1 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -677,7 +677,9 @@ class SWIFTMask(HandleProvider):
 
                 this_mask = [[o, c + o] for c, o in zip(counts, offsets)]
 
-                setattr(self, data_name, np.array(this_mask))
+                setattr(
+                    self, data_name, np.array(this_mask, dtype=np.int64).reshape(-1, 2)
+                )
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-- 
2.43.0


From fcf63949ddbece8097e245ccbb62e3199f83692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 03/67] fix: constructing a cosmo_array in the other frame must
 not convert its input in place

---
 swiftsimio/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..2a157ca 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1165,6 +1165,9 @@ class cosmo_array(unyt_array):
 
         if isinstance(input_array, cosmo_array):
             obj = input_array.view(cls)
+            if comoving is not None and comoving != input_array.comoving:
+                # we'll convert in place, don't modify the data in `input_array`
+                obj = obj.copy()
             if comoving is None:
                 # we could be dealing with unyt creating an object for us so copy the
                 # value across to avoid defaulting to None
-- 
2.43.0


From b678f90b5f2eba9b653e7bc42b722533348aef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 04/67] fix: the compression attribute of a result is the
 compression of its inputs, not a tuple

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..fc32526 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From 78f91826a0f7a460b31d21573e4b0e8e7883d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 05/67] fix: squeeze, ravel and flatten of a cosmo_quantity
 keep its attributes and give an array when they should

---
 swiftsimio/objects.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 2a157ca..2404d3a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1382,8 +1382,12 @@ class cosmo_array(unyt_array):
     byteswap = _propagate_cosmo_array_attributes_to_result(unyt_array.byteswap)
     compress = _propagate_cosmo_array_attributes_to_result(unyt_array.compress)
     diagonal = _propagate_cosmo_array_attributes_to_result(unyt_array.diagonal)
-    flatten = _propagate_cosmo_array_attributes_to_result(unyt_array.flatten)
-    ravel = _propagate_cosmo_array_attributes_to_result(unyt_array.ravel)
+    flatten = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.flatten)
+    )
+    ravel = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.ravel)
+    )
     repeat = _propagate_cosmo_array_attributes_to_result(unyt_array.repeat)
     swapaxes = _propagate_cosmo_array_attributes_to_result(unyt_array.swapaxes)
     transpose = _propagate_cosmo_array_attributes_to_result(unyt_array.transpose)
@@ -1403,7 +1407,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From 71a415732cc5d72ee248b79e34f9d168bcccb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 06/67] fix: a cosmo_array raised to the power 0 does not scale
 with the scale factor

---
 swiftsimio/objects.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 2404d3a..a121aa9 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2349,6 +2349,31 @@ class cosmo_array(unyt_array):
         else:
             return super().__mul__(b)
 
+    def __pow__(self, p: int | float | np.ndarray, mod: None = None, /) -> "cosmo_array":
+        """
+        Raise this :class:`~swiftsimio.objects.cosmo_array` to a power.
+
+        We delegate to :mod:`unyt`, but it makes a special case of a power of 0 that does
+        not go through the ufunc machinery, so we need to handle the ``cosmo_factor``.
+
+        Parameters
+        ----------
+        p : :class:`~numpy.ndarray`, :obj:`int` or :obj:`float`
+            The exponent.
+
+        mod : None
+            Not used.
+
+        Returns
+        -------
+        ~swiftsimio.objects.cosmo_array
+            The result of raising to the power.
+        """
+        result = super().__pow__(p, mod)
+        if np.isscalar(p) and p == 0.0:
+            result.cosmo_factor = self.cosmo_factor**0
+        return result
+
     def __rmul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From 83ec1c14dd106cf90864a93c9951a8388b0622f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:45 +0000
Subject: [PATCH 07/67] fix: the quotient of divmod does not scale like its
 arguments

---
 swiftsimio/objects.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index a121aa9..3e66290 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2091,6 +2091,8 @@ class cosmo_array(unyt_array):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
             ret_cf = cls._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
+        # divmod is the only multiple output ufunc whose outputs scale differently
+        ret_cfs = (_divide_cosmo_factor(*cfs) if ufunc is divmod_ else ret_cf, ret_cf)
         # if we get a tuple we have multiple return values to deal with
         if isinstance(result, tuple):
             result = tuple(
@@ -2105,10 +2107,10 @@ class cosmo_array(unyt_array):
                 )
                 for r in result
             )
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, unyt_array):  # also recognizes cosmo_quantity
@@ -2150,10 +2152,10 @@ class cosmo_array(unyt_array):
                     )
                     for o in out
                 )
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
         return result
@@ -2216,16 +2218,18 @@ class cosmo_array(unyt_array):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
+        # divmod is the only multiple output ufunc whose outputs scale differently
+        ret_cfs = (_divide_cosmo_factor(*cfs) if ufunc is divmod_ else ret_cf, ret_cf)
 
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
             ufunc, method, *helper_result["args"], **helper_result["kwargs"]
         )
         # if we get a tuple we have multiple return values to deal with
         if isinstance(result, tuple):
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, cosmo_array):  # also recognizes cosmo_quantity
@@ -2243,10 +2247,10 @@ class cosmo_array(unyt_array):
                     out.valid_transform = helper_result["valid_transform"]
                     out.compression = helper_result["compression"]
             else:
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
 
-- 
2.43.0


From 3d42c9597e0ece13ecb36fd1e3665d1b175260e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 08/67] fix: mixed frames are really converted to physical when
 some data have no comoving form

---
 swiftsimio/_array_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index fc32526..4d4eb50 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From 5ef24f148b0b357376e62757fcaba49827799f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 09/67] fix: histogram_bin_edges accepts given bin edges

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4d4eb50..0929123 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1314,9 +1314,7 @@ def histogram_bin_edges(  # noqa: ANN202
     else:
         # bins based on values in a
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    res = unyt_histogram_bin_edges(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 3216f8d3b14912ffd6f206b0c00c42896e824486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 10/67] fix: the cosmo_factor of a block array is a
 cosmo_factor, not a list

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0929123..fd74312 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1633,7 +1633,7 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
+    cfs = [hr["cfs"][0] for hr in helper_results]
     convert_to_cm = False
     if all(cms):
         ret_cm = True
-- 
2.43.0


From 437b361fbdf015953d94a16ca07eeb2d177ae0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 11/67] fix: choose converts its choices to a common frame and
 labels the result with it

---
 swiftsimio/_array_functions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index fd74312..cc9e865 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1864,11 +1864,10 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
 
 @implements(np.choose)
 def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(a, helper_result_choices["args"], out=out, mode=mode)
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
-- 
2.43.0


From ba8e4f2e3a7473d7335413df2e90815d5dc1ad3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 12/67] fix: the variance scales with the square of the data's
 scale-factor dependence

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index cc9e865..9fdb75f 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1824,7 +1824,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From 3ccf73bb909e4fa90071abf0352319577fc73cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:47 +0000
Subject: [PATCH 13/67] fix: einsum multiplies the scale-factor dependences of
 its operands

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9fdb75f..85aefeb 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2155,7 +2155,7 @@ def einsum(  # noqa numpydoc ignore=GL08
         optimize=optimize,
     )
     helper_result_operands = _prepare_array_func_args(*operands)
-    ret_cf = _preserve_cosmo_factor(*helper_result_operands["cfs"])
+    ret_cf = _multiply_cosmo_factor(*helper_result_operands["cfs"])
     res = unyt_einsum(
         helper_result["args"][0],
         *helper_result_operands["args"],
-- 
2.43.0


From 37651d42fa00b0349eedda909356888d9b22b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 14/67] fix: average uses the arguments converted to a common
 frame

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 85aefeb..2a18ce5 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2272,9 +2272,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From 0f15f9377e9af5594af4abd872cbc0b5e8efd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 15/67] fix: apply_over_axes works with functions that remove
 the axis

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 2a18ce5..a8e5684 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1976,6 +1976,8 @@ def savetxt(  # noqa numpydoc ignore=GL08
 @implements(np.apply_over_axes)
 def apply_over_axes(func, a, axes):  # noqa numpydoc ignore=GL08
     res = func(a, axes[0])
+    if np.ndim(res) != np.ndim(a):
+        res = np.expand_dims(res, axes[0])
     if len(axes) > 1:
         # this function is recursive by nature,
         # here we intentionally do not call the base _implementation
-- 
2.43.0


From f0cb261006af53134128910293b34c96acd3b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 16/67] fix: where with only a condition returns the indices

---
 swiftsimio/_array_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a8e5684..afecc9b 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2123,8 +2123,7 @@ def clip(  # noqa numpydoc ignore=GL08
 def where(condition, *args):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condition, *args)
     if len(args) == 0:  # just condition
-        ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return unyt_where(*helper_result["args"], **helper_result["kwargs"])
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From 07f062523a8a480be23b16267349af6156d7cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 17/67] fix: joining functions check the scale-factor
 dependence of every array

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index afecc9b..6e32d66 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1263,7 +1263,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From 8b2eaaa08848be0c3eb1c8022f52e2aaa097e025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 18/67] fix: functions that write into an array leave the
 source array as it was

---
 swiftsimio/_array_functions.py | 68 +++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6e32d66..1390348 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -977,6 +977,33 @@ def _prepare_array_func_args(
     }
 
 
+def _in_frame_of(src: object, dst: object) -> object:
+    """
+    Get source data in the frame of a destination, without modifying the source.
+
+    Parameters
+    ----------
+    src : object
+        The data to be written.
+
+    dst : object
+        The array that they are written into.
+
+    Returns
+    -------
+    object
+        The data in the destination's frame.
+    """
+    comoving = getattr(dst, "comoving", None)
+    if (
+        not isinstance(src, objects.cosmo_array)
+        or comoving is None
+        or src.comoving is comoving
+    ):
+        return src
+    return src.to_comoving() if comoving else src.to_physical()
+
+
 def implements(numpy_function: Callable) -> Callable:
     """
     Register an __array_function__ implementation for cosmo_array objects.
@@ -1789,12 +1816,7 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
         # if we're copyting across two
         _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass dst directly here because it's modified in-place
-    if isinstance(src, objects.cosmo_array):
-        comoving = getattr(dst, "comoving", None)
-        if comoving:
-            src.convert_to_comoving()
-        elif comoving is False:
-            src.convert_to_physical()
+    src = _in_frame_of(src, dst)
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
 
@@ -1991,11 +2013,7 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
+    val = _in_frame_of(val, a)
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
 
@@ -2007,12 +2025,7 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, mask, vals)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(vals, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            vals.convert_to_comoving()
-        elif comoving is False:
-            vals.convert_to_physical()
+    vals = _in_frame_of(vals, arr)
     unyt_place(arr, mask, vals)
 
 
@@ -2021,12 +2034,7 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, ind, v, mode=mode)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(v, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            v.convert_to_comoving()
-        elif comoving is False:
-            v.convert_to_physical()
+    v = _in_frame_of(v, a)
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
 
@@ -2035,12 +2043,7 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(arr, indices, values, axis)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(arr, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _in_frame_of(values, arr)
     unyt_put_along_axis(arr, indices, values, axis)
 
 
@@ -2049,12 +2052,7 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, mask, values)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][2])
     # must pass arr directly here because it's modified in-place
-    if isinstance(values, objects.cosmo_array):
-        comoving = getattr(a, "comoving", None)
-        if comoving:
-            values.convert_to_comoving()
-        elif comoving is False:
-            values.convert_to_physical()
+    values = _in_frame_of(values, a)
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From b807489f80eec98ebb89e0b713fcd761a9d652d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 19/67] fix: density histograms in several dimensions label bin
 edges with the frame they are in

---
 swiftsimio/_array_functions.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 1390348..4a4fabe 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1475,6 +1475,8 @@ def histogram2d(  # noqa: ANN202
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
+        # the edges are now in the frame common to both dimensions
+        helper_result_x = helper_result_y = helper_result
         ret_cf_xy = _multiply_cosmo_factor(
             helper_result["cfs"][0], helper_result["cfs"][1]
         )
@@ -1556,20 +1558,19 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample, *bins, *ranges, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        helper_results = D * [helper_result]
+        ret_cfs = helper_result["cfs"][:D]
+        safe_ranges = helper_result["args"][2 * D :]
         counts, bins = unyt_histogramdd(
-            helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
-            range=helper_result["kwargs"]["range"],
+            helper_result["args"][:D],
+            bins=helper_result["args"][D : 2 * D],
+            range=None if all(r is None for r in safe_ranges) else safe_ranges,
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-        if len(helper_result["cfs"]) == 1:
-            ret_cf_sample = _preserve_cosmo_factor(helper_result["cfs"][0])
-        else:
-            ret_cf_sample = _multiply_cosmo_factor(*helper_result["cfs"])
+        ret_cf_sample = _multiply_cosmo_factor(*ret_cfs)
         if weights is not None:
             ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
             inv_ret_cf_sample = _reciprocal_cosmo_factor(ret_cf_sample)
-- 
2.43.0


From 8211325417ea425986feabdfa17ae335a40f5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 20/67] fix: select converts choices and default to a common
 frame

---
 swiftsimio/_array_functions.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4a4fabe..a8505c5 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2064,14 +2064,11 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
-    res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
-    )
+    helper_result = _prepare_array_func_args(*choicelist, default=default)
+    ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    if isinstance(default, objects.cosmo_array):
+        ret_cf = _preserve_cosmo_factor(ret_cf, helper_result["kw_cfs"]["default"])
+    res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From cff0e47120ce8924edcf063724451cfea10c7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 21/67] fix: the initial value of a reduction is taken in the
 frame of the array

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a8505c5..8a39998 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -197,6 +197,8 @@ def _propagate_cosmo_array_attributes_to_result(func: Callable) -> Callable:
         **kwargs: dict[str, Any],
     ) -> object:  # noqa numpydoc ignore=GL08
         # omit docstring so that sphinx picks up docstring of wrapped function
+        if "initial" in kwargs:
+            kwargs["initial"] = _in_frame_of(kwargs["initial"], obj)
         return _copy_cosmo_array_attributes_if_present(obj, func(obj, *args, **kwargs))
 
     return wrapped
-- 
2.43.0


From c327010a9c11e3ab72293b38f760382a8f3a4d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 22/67] fix: digitize converts data and bins to a common frame

---
 swiftsimio/_array_functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 8a39998..c646d87 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2059,6 +2059,15 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     unyt_putmask(a, mask, values)
 
 
+@implements(np.digitize)
+def digitize(x, bins, right=False):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(x, bins, right=right)
+    _return_without_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
+    return np.digitize._implementation(
+        *helper_result["args"], **helper_result["kwargs"]
+    )
+
+
 implements(np.searchsorted)(
     _default_binary_wrapper(unyt_searchsorted, _return_without_cosmo_factor)
 )
-- 
2.43.0


From 2818e22ff610f29ea36098d1937581672fcdcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:55 +0000
Subject: [PATCH 23/67] fix: cosmo_factors with different expressions differ
 also where their values coincide

---
 swiftsimio/objects.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3e66290..1cf1f85 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -794,7 +794,21 @@ class cosmo_factor(object):
             a_factor_match = True
         else:
             a_factor_match = False
-        return scale_factor_match and a_factor_match
+        expr_match = (
+            self.expr is None
+            or b.expr is None
+            or self.expr == b.expr
+            # could be the same but written differently, the values at the scale factor
+            # of the data are not enough to tell (e.g. if it is 1)
+            or bool(
+                np.isclose(
+                    float(self.expr.subs(a, 0.5)),
+                    float(b.expr.subs(a, 0.5)),
+                    rtol=1e-6,
+                )
+            )
+        )
+        return bool(scale_factor_match and a_factor_match and expr_match)
 
     def __ne__(self, b: "cosmo_factor") -> bool:
         """
-- 
2.43.0


From d1a753d5bbead7ea395c5476af9e645b5459dd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 24/67] fix: the initial value of a reduction must scale like
 the array

---
 swiftsimio/_array_functions.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index c646d87..74fe5cc 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -198,6 +198,7 @@ def _propagate_cosmo_array_attributes_to_result(func: Callable) -> Callable:
     ) -> object:  # noqa numpydoc ignore=GL08
         # omit docstring so that sphinx picks up docstring of wrapped function
         if "initial" in kwargs:
+            _check_same_cosmo_factor(obj, kwargs["initial"])
             kwargs["initial"] = _in_frame_of(kwargs["initial"], obj)
         return _copy_cosmo_array_attributes_if_present(obj, func(obj, *args, **kwargs))
 
@@ -979,6 +980,26 @@ def _prepare_array_func_args(
     }
 
 
+def _check_same_cosmo_factor(*objs: tuple[object]) -> None:
+    """
+    Raise if any of the objects that have a ``cosmo_factor`` differ in it.
+
+    Parameters
+    ----------
+    *objs : tuple[object]
+        The objects that are to be combined.
+
+    Raises
+    ------
+    ValueError
+        If the ``cosmo_factor`` attributes differ.
+    """
+    cfs = [getattr(obj, "cosmo_factor", None) for obj in objs]
+    cfs = [cf for cf in cfs if cf is not None]
+    if cfs:
+        _preserve_cosmo_factor(*cfs)
+
+
 def _in_frame_of(src: object, dst: object) -> object:
     """
     Get source data in the frame of a destination, without modifying the source.
-- 
2.43.0


From aa51e4210272a125029bc12f285e7f9ae4c20c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 25/67] fix: values joined to an array by diff, ediff1d and pad
 must scale like the array

---
 swiftsimio/_array_functions.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 74fe5cc..6e99d46 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1892,8 +1892,30 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-implements(np.diff)(_default_unary_wrapper(unyt_diff, _preserve_cosmo_factor))
-implements(np.ediff1d)(_default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor))
+
+
+@implements(np.diff)
+def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):  # noqa numpydoc ignore=GL08
+    _check_same_cosmo_factor(a, prepend, append)
+    helper_result = _prepare_array_func_args(
+        a, n=n, axis=axis, prepend=prepend, append=append
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_diff(*helper_result["args"], **helper_result["kwargs"])
+    return _return_helper(res, helper_result, ret_cf)
+
+
+
+@implements(np.ediff1d)
+def ediff1d(ary, to_end=None, to_begin=None):  # noqa numpydoc ignore=GL08
+    _check_same_cosmo_factor(ary, to_end, to_begin)
+    helper_result = _prepare_array_func_args(ary, to_end=to_end, to_begin=to_begin)
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_ediff1d(*helper_result["args"], **helper_result["kwargs"])
+    return _return_helper(res, helper_result, ret_cf)
+
+
+
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
@@ -1903,6 +1925,8 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
     helper_result = _prepare_array_func_args(array, pad_width, mode=mode, **kwargs)
     # the number of options is huge, including user defined functions to handle data
     # let's just preserve the cosmo_factor of the input `array` and trust the user...
+    for key in ("constant_values", "end_values"):
+        _check_same_cosmo_factor(array, kwargs.get(key))
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
     res = unyt_pad(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
-- 
2.43.0


From 4aa087854b5ae1ce1eb83d0f7665a81aa1e86b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 26/67] fix: interp raises when positions and table scale
 differently

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6e99d46..eedd4a1 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2248,6 +2248,8 @@ def unwrap(  # noqa: ANN202
 
 @implements(np.interp)
 def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc ignore=GL08
+    _check_same_cosmo_factor(x, xp, period)
+    _check_same_cosmo_factor(fp, left, right)
     helper_result = _prepare_array_func_args(
         x, xp, fp, left=left, right=right, period=period
     )
-- 
2.43.0


From 2e8bd20f6c2cf2a35c3e44238aaed8f04244b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:33 +0000
Subject: [PATCH 27/67] fix: histograms raise when data and bins scale
 differently

---
 swiftsimio/_array_functions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index eedd4a1..111b270 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1358,6 +1358,7 @@ def histogram_bin_edges(  # noqa: ANN202
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
+    _check_same_cosmo_factor(a, bins, range)
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
@@ -1393,6 +1394,7 @@ def histogram(  # noqa: ANN202
     helper_result = _prepare_array_func_args(
         a, bins=bins, range=range, density=density, weights=weights
     )
+    _check_same_cosmo_factor(a, bins, range)
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
     ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
     counts, bins = unyt_histogram(*helper_result["args"], **helper_result["kwargs"])
@@ -1434,6 +1436,8 @@ def histogram2d(  # noqa: ANN202
         xbins = ybins = bins
     elif N == 2:
         xbins, ybins = bins
+    _check_same_cosmo_factor(x, xbins, xrange)
+    _check_same_cosmo_factor(y, ybins, yrange)
     helper_result_x = _prepare_array_func_args(x, bins=xbins, range=xrange)
     helper_result_y = _prepare_array_func_args(y, bins=ybins, range=yrange)
     if not density:
@@ -1541,6 +1545,8 @@ def histogramdd(  # noqa: ANN202
     except TypeError:
         # bins is an integer
         bins = D * [bins]
+    for s, b, r in zip(sample, bins, ranges):
+        _check_same_cosmo_factor(s, b, r)
     helper_results = [
         _prepare_array_func_args(s, bins=b, range=r)
         for s, b, r in zip(sample, bins, ranges)
@@ -1892,8 +1898,6 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-
-
 @implements(np.diff)
 def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):  # noqa numpydoc ignore=GL08
     _check_same_cosmo_factor(a, prepend, append)
@@ -1905,7 +1909,6 @@ def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):  # noqa nump
     return _return_helper(res, helper_result, ret_cf)
 
 
-
 @implements(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):  # noqa numpydoc ignore=GL08
     _check_same_cosmo_factor(ary, to_end, to_begin)
@@ -1915,7 +1918,6 @@ def ediff1d(ary, to_end=None, to_begin=None):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
-- 
2.43.0


From 78bc2ff9f9d3129966917e30cbb0dbc5940cddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:26 +0000
Subject: [PATCH 28/67] fix: the writer records a scale exponent of 0 for data
 that do not scale

---
 swiftsimio/snapshot_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..6ecf2bc 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -272,7 +272,9 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    0.0
+                    if field.cosmo_factor.expr == 1
+                    else float(getattr(field.cosmo_factor.expr, "exp", 1.0))
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From b23d045051a78a1b9505c633f209d6898b8b68d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 29/67] fix: slices and volume renders include the last pixel a
 kernel reaches

---
 swiftsimio/visualisation/slice_backends/sph.py     |  7 +++++--
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From 295ecc10659178a3c0259d16e2f492dba317c620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:46 +0000
Subject: [PATCH 30/67] fix: unresolved particles near the far edge of a pixel
 are shared with the next pixel

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..5a3625a 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..74f3538 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From a4e6c1f00b8eae1a3d8c3f553f0e834c3382d17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 31/67] fix: renormalisation sums over every pixel that gets a
 share of the particle

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From 56f29f32d22479ece7b86e00b34727e87590726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 32/67] fix: volume renders with fewer voxels in z tile the
 periodic box like the others

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 1e5d795..62b22d9 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -329,19 +329,19 @@ def scatter_limited_z(
         xshift_max = 1
     else:
         xshift_min = -1
-        xshift_max = 2
+        xshift_max = int(np.ceil(1 / box_x) + 1)  # tile the box to cover [0, 1]
     if box_y == 0.0:
         yshift_min = 0
         yshift_max = 1
     else:
         yshift_min = -1
-        yshift_max = 2
+        yshift_max = int(np.ceil(1 / box_y) + 1)  # tile the box to cover [0, 1]
     if box_z == 0.0:
         zshift_min = 0
         zshift_max = 1
     else:
         zshift_min = -1
-        zshift_max = 2
+        zshift_max = int(np.ceil(1 / box_z) + 1)  # tile the box to cover [0, 1]
 
     for x_pos_original, y_pos_original, z_pos_original, mass, hsml in zip(
         x, y, z, m, h
-- 
2.43.0


From 3024837dfd7c15488a6d261941355287d4a5caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 33/67] fix: parallel volume renders accept fewer voxels in z

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 62b22d9..44f7d18 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -531,7 +531,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From d85ed4058b30c10aa229e273f1fc2f2069ae26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 34/67] fix: mesh deposition keeps positions that fold onto the
 box edge inside the mesh

---
 swiftsimio/visualisation/power_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..254290b 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,11 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position. Rounding can fold a position onto the far edge
+        # of the box (e.g. tiny negative ones), which belongs to the last cell.
+        x_pix = min(np.int32(x_pos_scaled * float_res), res - 1)
+        y_pix = min(np.int32(y_pos_scaled * float_res), res - 1)
+        z_pix = min(np.int32(z_pos_scaled * float_res), res - 1)
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 9454fe6303a84c3bf4e96b2c7d88793ee19440f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 35/67] fix: mesh deposition takes the box size in the frame of
 the positions

---
 swiftsimio/visualisation/power_spectrum.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 254290b..f0d0b94 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -236,8 +236,9 @@ def render_to_deposit(
                 "coordinates!"
             )
 
-    # Get the box size
+    # Get the box size, in the same frame as the positions
     boxsize = data.metadata.boxsize
+    boxsize = boxsize.to_comoving() if positions.comoving else boxsize.to_physical()
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -263,10 +264,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From 118d98a600b6c3a71e567efd08a9538adf15caeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 36/67] fix: projections of regions that are not square are
 normalised by the area the image spans

---
 swiftsimio/visualisation/projection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..a80b3ac 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,8 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    # the backends work in units of the longest side of the region
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 9248470adfcc555798f5349f0d109b09cd62e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 37/67] fix: periodic visualisation leaves the coordinates of
 the dataset as they were

---
 swiftsimio/visualisation/_vistools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..3094053 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,8 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        # not in place: these may be the coordinates of the dataset itself
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From 218c21a3a90d26b43c9e61a57abaef399a76f78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 38/67] fix: rotation matrices for vectors along the axis are
 rotations, not reflections

---
 swiftsimio/visualisation/rotation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..5b1217a 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,16 +45,18 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
+        # This case only covers when we point the vector along the axis (nothing to
+        # do) or in the exact opposite direction (half a turn around another axis).
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if np.dot(original_direction, normed_vector) < 0.0:
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 1, switch[axis] - 1] = -1.0
 
         return output
     else:
+        cross_product = cross_product / mod_cross_product
         cos_theta = np.dot(original_direction, normed_vector)
         sin_theta = np.sin(np.arccos(cos_theta))
 
-- 
2.43.0


From b14bcd62fe99e2d978e4ea63132006a4b1a5fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 39/67] fix: two-dimensional colour maps accept lists of
 vertical values

---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From b11234fb27717856fde230c90e3520a615ea6cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 40/67] fix: two-dimensional colour maps look colours up the
 way round they are generated and plotted

---
 swiftsimio/visualisation/tools/cmaps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..30c442e 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -75,8 +75,9 @@ def apply_color_map(
         (number_of_values, 4)
     )
 
-    norm_x = np.float32(len(map_grid) - 1)
-    norm_y = np.float32(len(map_grid[0]) - 1)
+    # the grid is laid out like an image: the vertical component comes first
+    norm_x = np.float32(len(map_grid[0]) - 1)
+    norm_y = np.float32(len(map_grid) - 1)
 
     for index in range(number_of_values):
         horizontal = norm_x * min(max(first_values[index], 0.0), 1.0)
@@ -86,7 +87,7 @@ def apply_color_map(
         vertical_base = np.int32(vertical)
 
         # Could do some more fancy interpolation but I'm sure this will do.
-        output_values[index] = map_grid[horizontal_base, vertical_base]
+        output_values[index] = map_grid[vertical_base, horizontal_base]
 
     return output_values
 
-- 
2.43.0


From 2515b7a2bd3d42d6efc71868e0fcb798901eeaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 41/67] fix: smoothing length generation takes the box size in
 the frame of the coordinates

---
 swiftsimio/visualisation/smoothing_length/generate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..277df3c 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,9 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    if isinstance(coordinates, cosmo_array) and isinstance(boxsize, cosmo_array):
+        boxsize = boxsize.to(coordinates.units, comoving=coordinates.comoving)
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 4cb6c5d4e96dc4fe0addd7cf005024ac67af4e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 42/67] fix: smoothing lengths can be generated from the
 nearest neighbour alone

---
 swiftsimio/visualisation/smoothing_length/generate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 277df3c..ea6c565 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -99,7 +99,7 @@ def generate_smoothing_lengths(
         try:
             d, _ = tree.query(
                 coordinates[starting_index:ending_index].to_value(coordinates.units),
-                k=neighbours_search,
+                k=[neighbours_search],
                 workers=-1,
             )
         except TypeError:
@@ -107,7 +107,7 @@ def generate_smoothing_lengths(
             # scipy.
             d, _ = tree.query(
                 coordinates[starting_index:ending_index].to_value(coordinates.units),
-                k=neighbours_search,
+                k=[neighbours_search],
                 n_jobs=-1,
             )
 
-- 
2.43.0


From 4944901bde15430fb5176829b780ad1d68c7ddd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 43/67] fix: smoothing lengths can be generated for no
 particles

---
 swiftsimio/visualisation/smoothing_length/generate.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index ea6c565..1865837 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -70,7 +70,6 @@ def generate_smoothing_lengths(
     )
 
     smoothing_lengths = np.empty(number_of_parts, dtype=np.float32)
-    smoothing_lengths[-1] = -0.1
 
     # Include speedup_fac stuff here:
     neighbours_search = neighbours // speedup_fac
-- 
2.43.0


From 49f4e01b3562d0cf65ea941aac2375c741409219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 44/67] fix: Fourier transforms scale like their input

---
 swiftsimio/_array_functions.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 111b270..020f3d0 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1740,35 +1740,35 @@ def block(arrays):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result_block, ret_cf)
 
 
-implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
-implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _reciprocal_cosmo_factor))
-implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _reciprocal_cosmo_factor))
-implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _reciprocal_cosmo_factor))
+implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _preserve_cosmo_factor))
+implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _preserve_cosmo_factor))
+implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _preserve_cosmo_factor))
+implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _preserve_cosmo_factor))
+implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _preserve_cosmo_factor))
 implements(np.fft.rfft2)(
-    _default_unary_wrapper(unyt_fft_rfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.rfftn)(
-    _default_unary_wrapper(unyt_fft_rfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_rfftn, _preserve_cosmo_factor)
 )
-implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _reciprocal_cosmo_factor))
+implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _preserve_cosmo_factor))
 implements(np.fft.ifft2)(
-    _default_unary_wrapper(unyt_fft_ifft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifft2, _preserve_cosmo_factor)
 )
 implements(np.fft.ifftn)(
-    _default_unary_wrapper(unyt_fft_ifftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ifftn, _preserve_cosmo_factor)
 )
 implements(np.fft.ihfft)(
-    _default_unary_wrapper(unyt_fft_ihfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_ihfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft)(
-    _default_unary_wrapper(unyt_fft_irfft, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft, _preserve_cosmo_factor)
 )
 implements(np.fft.irfft2)(
-    _default_unary_wrapper(unyt_fft_irfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.irfftn)(
-    _default_unary_wrapper(unyt_fft_irfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfftn, _preserve_cosmo_factor)
 )
 implements(np.fft.fftshift)(
     _default_unary_wrapper(unyt_fft_fftshift, _preserve_cosmo_factor)
-- 
2.43.0


From e5de91412054c6b5cb17dc341b17b1ee1ffe07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 45/67] fix: singular values keep their frame and scaling

---
 swiftsimio/_array_functions.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 020f3d0..36ef245 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1378,9 +1378,27 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+
+
+@implements(np.linalg.svd)
+def linalg_svd(  # noqa numpydoc ignore=GL08
+    a,  # noqa: ANN001
+    full_matrices=True,  # noqa: ANN001
+    compute_uv=True,  # noqa: ANN001
+    hermitian=False,  # noqa: ANN001
+):
+    helper_result = _prepare_array_func_args(
+        a,
+        full_matrices=full_matrices,
+        compute_uv=compute_uv,
+        hermitian=hermitian,
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    ress = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if not compute_uv:
+        return _return_helper(ress, helper_result, ret_cf)
+    # only the singular values carry the scaling of the input
+    return (ress[0], _return_helper(ress[1], helper_result, ret_cf), ress[2])
 
 
 @implements(np.histogram)
-- 
2.43.0


From a6eca157435fd42b615e45b39219fde38f889ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 46/67] fix: array and dimensionless cosmo exponents give one
 cosmo_factor or raise

---
 swiftsimio/_array_functions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 36ef245..c943f26 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -521,14 +521,21 @@ def _power_cosmo_factor(
     if hasattr(power, "units"):
         if not power.units.is_dimensionless:
             raise ValueError("Exponent must be dimensionless.")
-        elif power.units is not unyt.dimensionless:
-            power = power.to_value(unyt.dimensionless)
-        # else power.units is unyt.dimensionless, do nothing
+        power = power.to_value(unyt.dimensionless)
     exp_afactor = getattr(cf2, "a_factor", None)
     if (exp_afactor is not None) and (exp_afactor != 1.0):
         raise ValueError("Exponent has scaling with scale factor != 1.")
     if cf1 is None:
         return None
+    if np.ndim(power) > 0:
+        # elements can only have different exponents if they share the resulting scaling
+        powers = np.unique(power)
+        if powers.size == 1:
+            power = powers[0]
+        elif cf1.a_factor == 1.0:
+            return cf1
+        else:
+            raise ValueError("Exponents would scale elements differently.")
     return np.power(cf1, power)
 
 
-- 
2.43.0


From 28a8fdaf534292048bb9c8c2d7cccee501d431f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 47/67] fix: exponents with units are used as the number they
 stand for

---
 swiftsimio/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 1cf1f85..9a62739 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2235,8 +2235,12 @@ class cosmo_array(unyt_array):
         # divmod is the only multiple output ufunc whose outputs scale differently
         ret_cfs = (_divide_cosmo_factor(*cfs) if ufunc is divmod_ else ret_cf, ret_cf)
 
+        args = helper_result["args"]
+        if ufunc is power and all(hasattr(arg, "units") for arg in args):
+            # otherwise unyt ignores the units of the exponent, e.g. percent
+            args = (args[0], args[1].to_value(unyt.dimensionless))
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
-            ufunc, method, *helper_result["args"], **helper_result["kwargs"]
+            ufunc, method, *args, **helper_result["kwargs"]
         )
         # if we get a tuple we have multiple return values to deal with
         if isinstance(result, tuple):
-- 
2.43.0


From 8f9197aecd9ef2fb8581afbfeeae400a563e6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 48/67] fix: cells keep their file order when some are empty

---
 swiftsimio/masks.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index ee8f7c1..f1a4b3d 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,24 +379,15 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
-
-        # Now perform sort:
+        # When using MPI, we cannot assume that the cells are sorted. The order must be
+        # the same for all particle types, and an empty cell has the same offset as the
+        # one after it, so sort by the offsets and numbers of all types together.
+        self.cell_sort = np.lexsort(
+            (sum(self.counts.values()), sum(self.offsets.values()))
+        )
         for key in self.offsets.keys():
-            offsets = self.offsets[key]
-            counts = self.counts[key]
-
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
-            self.offsets[key] = offsets[self.cell_sort]
-            self.counts[key] = counts[self.cell_sort]
+            self.offsets[key] = self.offsets[key][self.cell_sort]
+            self.counts[key] = self.counts[key][self.cell_sort]
 
         # Also need to sort centers in the same way
         self.centers = cosmo_array(
-- 
2.43.0


From 65c35d96e8e32e1b5fc2b24339a8ff1ba0624e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 49/67] fix: subsets keep links that are not at the top level
 of the file

---
 swiftsimio/subset_writer.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..0e0ff27 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -126,6 +126,9 @@ def _find_datasets(
 
     for key in keys:
         subpath = f"{path}/{key}"
+        if is_soft_link(input_file.get(subpath, getlink=True)):
+            # links are found by `_find_links`
+            continue
         if is_dataset(input_file[subpath]):
             dataset_names.append(subpath)
         elif input_file[subpath].keys() is not None:
@@ -136,8 +139,8 @@ def _find_datasets(
 
 def _find_links(
     input_file: h5py.File,
-    link_names: list = [],
-    link_paths: list = [],
+    link_names: list | None = None,
+    link_paths: list | None = None,
     path: str | None = None,
 ) -> tuple[list[str], list[str]]:
     """
@@ -148,10 +151,10 @@ def _find_links(
     input_file : h5py.File
         HDF5 file handle for snapshot.
 
-    link_names : list
+    link_names : list, optional
         Names of links found in the snapshot.
 
-    link_paths : list
+    link_paths : list, optional
         Paths where links found in the snapshot point to.
 
     path : str, optional
@@ -171,8 +174,8 @@ def _find_links(
         keys = input_file.keys()
         path = ""
 
-    link_names = []
-    link_paths = []
+    link_names = [] if link_names is None else link_names
+    link_paths = [] if link_paths is None else link_paths
     for key in keys:
         subpath = f"{path}/{key}"
         dataset = input_file.get(subpath, getlink=True)
@@ -392,7 +395,9 @@ def _connect_links(
         List of paths specifying how to link each soft link.
     """
     for i in range(len(links_list)):
-        outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
+        if outfile.get(links_list[i], getlink=True) is None:
+            # links in groups copied as a whole are there already
+            outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
 
 
 def write_subset(
-- 
2.43.0


From 2226fae4817527ba7a3a39bb4e87ec09c7396e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 50/67] fix: subsets keep datasets and groups whose names
 contain those of others

---
 swiftsimio/subset_writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 0e0ff27..8eae140 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -279,7 +279,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if field not in skip_list:
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -346,11 +346,11 @@ def _write_datasubset(
     links_list : list
         Names of links found in the snapshot.
     """
-    skip_list = links_list.copy()
-    skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
+    masked_groups = set(group.split("/")[0] for group in mask.metadata.present_groups)
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
+            # datasets elsewhere are copied with the metadata
+            if name.lstrip("/").split("/")[0] not in masked_groups:
                 continue
 
             # get output dtype and size
-- 
2.43.0


From 88e0a6b37e2b44c2bb95fba039b1901d268497fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 51/67] fix: subsets keep the shape of datasets and can be made
 of types without particles

---
 swiftsimio/subset_writer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 8eae140..5730831 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -354,13 +354,9 @@ def _write_datasubset(
                 continue
 
             # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From e595f775bf11b34a3dacd6d7e5e016e5286cb4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 52/67] fix: masked reads of datasets with more than two
 dimensions

---
 swiftsimio/accelerated.py | 2 +-
 swiftsimio/reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..13ad102 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -386,7 +386,7 @@ def read_ranges_from_file_chunked(
     chunk_range_size = np.diff(chunk_ranges).sum()
 
     try:
-        output_shape = (chunk_range_size, output_shape[1])
+        output_shape = (chunk_range_size, *output_shape[1:])
     except (TypeError, IndexError):
         # Output shape is just a number, we have a 1D array.
         output_shape = chunk_range_size
diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..e5c4245 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -137,7 +137,7 @@ def _generate_getter(
                     if mask is not None:
                         output_type = handle[field].dtype
                         output_shape = (
-                            (mask_size, handle[field].shape[1])
+                            (mask_size, *handle[field].shape[1:])
                             if handle[field].ndim > 1 and not use_columns
                             else mask_size
                         )
-- 
2.43.0


From 0e57eecd62b2e4b84ef319c766d4e4997cc1e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 53/67] fix: subsets keep datasets stored in the header

---
 swiftsimio/subset_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 5730831..0b2abe9 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -315,6 +315,8 @@ def _write_metadata(
                     ]:
                         v = [_get_dataset_size(mask, "_shared")]
                     header.attrs[k] = v
+                for k in infile[field].keys():
+                    infile.copy(f"{field}/{k}", header, name=k)
             else:
                 infile.copy(field, outfile)
 
-- 
2.43.0


From 7da4177e1cf066942b4cab8f197dac3be43badb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 54/67] fix: write a box size given in physical coordinates as
 comoving

---
 swiftsimio/snapshot_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 6ecf2bc..12e3c39 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -686,6 +686,9 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if getattr(self.boxsize, "comoving", None) is not None:
+            # the box size is comoving in the file, like every other dataset
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From 44aa1869d663caaed4adcdf63fcc7e2b11d902f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 55/67] fix: writing a particle type with no particles

---
 swiftsimio/snapshot_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 12e3c39..463384c 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -776,7 +776,10 @@ class SWIFTSnapshotWriter(object):
                 number_of_particles[_ptype_str_to_int(number)] = getattr(
                     self, name
                 ).n_part
-                mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[0]
+                if getattr(self, name).n_part > 0:
+                    mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[
+                        0
+                    ]
 
         attrs = {
             "BoxSize": self.boxsize,
-- 
2.43.0


From f9058fe318ecdd20ce52752a2af0773838fc79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 56/67] fix: write the current unit of the unit system in the
 snapshot units

---
 swiftsimio/snapshot_writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 463384c..75e9ec3 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -845,11 +845,17 @@ class SWIFTSnapshotWriter(object):
             # 1 array (rather than as a single float).
             return np.array([conversion_factor])
 
+        # cgs has no base unit for currents, swift uses Amperes
+        current_unit = unyt.unit_object.Unit(base.get(dim.current_mks) or "A")
+        current_conversion = current_unit.get_conversion_factor(
+            unyt.unit_object.Unit("A")
+        )[0]
+
         attrs = {
             "Unit mass in cgs (U_M)": get_conversion(dim.mass),
             "Unit length in cgs (U_L)": get_conversion(dim.length),
             "Unit time in cgs (U_t)": get_conversion(dim.time),
-            "Unit current in cgs (U_I)": np.array([1.0]),
+            "Unit current in cgs (U_I)": np.array([current_conversion]),
             "Unit temperature in cgs (U_T)": get_conversion(dim.temperature),
         }
 
-- 
2.43.0


From 5ae83cab4626eb953acda64f82305332c98c3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 57/67] fix: write arrays converted after they were given to
 the writer in its own units

---
 swiftsimio/snapshot_writer.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 75e9ec3..86007be 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -147,6 +147,23 @@ class __SWIFTWriterParticleDataset(object):
 
         return True
 
+    def convert_to_output_units(self) -> None:
+        """
+        Convert all datasets to the writer's units and to comoving coordinates.
+
+        They are converted when they are set, but the arrays are shared with the user
+        (or with other writers) and may have been converted to something else since.
+        """
+        for name, required_field_info in getattr(
+            metadata.required_fields, self.particle_name
+        ).items():
+            value = getattr(self, f"_{name}")
+            if value is not None and required_field_info["dimensions"] != 1:
+                value.convert_to_base(self.unit_system)
+                value.convert_to_comoving()
+
+        return
+
     def generate_smoothing_lengths(self) -> None:
         """
         Generate smoothing lengths as 2 times the mean interparticle spacing.
@@ -883,6 +900,7 @@ class SWIFTSnapshotWriter(object):
 
             if not this_dataset.check_empty():
                 if this_dataset.check_consistent():
+                    this_dataset.convert_to_output_units()
                     names_to_write.append(name)
                     generate_ids = (
                         generate_ids or this_dataset.requires_particle_ids_before_write
-- 
2.43.0


From c0656e99ce57f4751585ef14f43a8e38ea52b5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 58/67] fix: check particle IDs when writing, without going
 through floats

---
 swiftsimio/snapshot_writer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 86007be..6032e18 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -909,9 +909,12 @@ class SWIFTSnapshotWriter(object):
         if generate_ids:
             self._generate_ids(names_to_write)
         else:
-            all_ids = np.concatenate(
-                [getattr(self, name).particle_ids for name in names_to_write]
-            )
+            ids = [getattr(self, name).particle_ids for name in names_to_write]
+            # the IDs are checked when set, but may have been changed in place since
+            if any((x <= 0).any() for x in ids):
+                raise ValueError("Particle IDs must be >= 1.")
+            # signed and unsigned integers would be concatenated as (inexact) floats
+            all_ids = np.concatenate([x.astype(np.uint64) for x in ids])
             if np.unique(all_ids).size != all_ids.size:
                 raise ValueError(
                     "Particle IDs must be unique across all particle types."
-- 
2.43.0


From a97a7ab069d2a824e69d35fa0c26955d1eca11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 59/67] fix: statistics columns that start with integers (or
 nan) and continue with floats

---
 swiftsimio/accelerated.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 13ad102..eb30563 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -575,6 +575,12 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
 
     for index, line in enumerate(lines):
         for dtype, (array, value) in zip(dtypes, enumerate(line.split())):
-            arrays[array][index] = dtype(value)
+            try:
+                arrays[array][index] = dtype(value)
+            except ValueError:
+                # Not an integer, even if the column started with integers.
+                dtypes[array] = np.float64
+                arrays[array] = arrays[array].astype(np.float64)
+                arrays[array][index] = np.float64(value)
 
     return arrays
-- 
2.43.0


From 26fddc4b127a62cfd543c508d476fbf7de1b2fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 60/67] fix: arrays made from astropy and pint quantities
 ignored valid_transform

---
 swiftsimio/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9a62739..ec50e28 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1935,7 +1935,8 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform if comoving is not None else False
+        _verify_valid_transform_validity(obj)
 
         return obj
 
@@ -1997,7 +1998,8 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform if comoving is not None else False
+        _verify_valid_transform_validity(obj)
 
         return obj
 
-- 
2.43.0


From fc4fee0631bca775487b1215df90a158d119bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 61/67] fix: constructing an array from others converts them
 all to the requested frame

---
 swiftsimio/objects.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index ec50e28..3fd8c09 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1248,6 +1248,14 @@ class cosmo_array(unyt_array):
             )
 
             input_array = helper_result["args"]
+            if comoving is not None:
+                # the inputs could all be in the other frame
+                input_array = [
+                    (arg.to_comoving() if comoving else arg.to_physical())
+                    if getattr(arg, "comoving", None) not in (None, comoving)
+                    else arg
+                    for arg in input_array
+                ]
 
             # default to comoving, cosmo_factor and compression given as kwargs
             comoving = helper_result["comoving"] if comoving is None else comoving
@@ -2552,6 +2560,14 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
         if not isinstance(input_scalar, (numeric_type, np.number, np.ndarray)):
             raise RuntimeError("cosmo_quantity values must be numeric")
 
+        if getattr(input_scalar, "comoving", None) is not None:
+            # convert to the frame asked for, data that cannot be transformed stay so
+            if comoving is not None and comoving != input_scalar.comoving:
+                input_scalar = (
+                    input_scalar.to_comoving() if comoving else input_scalar.to_physical()
+                )
+            valid_transform = valid_transform and input_scalar.valid_transform
+
         # Use values from kwargs, if None use values from input_scalar
         units = getattr(input_scalar, "units", None) if units is None else units
         name = getattr(input_scalar, "name", None) if name is None else name
-- 
2.43.0


From 8218d25952b03f78c9717644202c967b33188afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 62/67] fix: arrays constructed from data that cannot be
 transformed stay that way

---
 swiftsimio/objects.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3fd8c09..3aecf07 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1216,8 +1216,8 @@ class cosmo_array(unyt_array):
             # else is already copied from input_array
 
             # only overwrite valid_transform after transforming so that invalid
-            # transformations raise:
-            obj.valid_transform = valid_transform
+            # transformations raise, data that cannot be transformed stay that way:
+            obj.valid_transform = valid_transform and input_array.valid_transform
             _verify_valid_transform_validity(obj)
             obj.compression = (
                 compression if compression is not None else obj.compression
@@ -1273,8 +1273,13 @@ class cosmo_array(unyt_array):
                 helper_result["compression"] if compression is None else compression
             )
             # valid_transform has a non-None default, so we have to decide to always
-            # respect it, unless comoving is None
+            # respect it, unless comoving is None or an input can't be transformed
             valid_transform = valid_transform if comoving is not None else default_vt
+            valid_transform = valid_transform and all(
+                getattr(arg, "valid_transform", True)
+                for arg in input_array
+                if getattr(arg, "comoving", None) is not None
+            )
         else:
             # if the input isn't even iterable, this is an error
             raise ValueError(
-- 
2.43.0


From e2ffda5ab93b0c8fd32df81fb7da6117834cdd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:00 +0000
Subject: [PATCH 63/67] fix: array constructors dropped the cosmo_factor given
 with data that have none

---
 swiftsimio/objects.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 3aecf07..9427533 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1171,7 +1171,7 @@ class cosmo_array(unyt_array):
             obj.comoving = comoving
             obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                obj.cosmo_factor = type(NULL_CF).create(scale_factor, scale_exponent)
             obj.valid_transform = valid_transform
             obj.compression = compression
 
@@ -1192,11 +1192,8 @@ class cosmo_array(unyt_array):
             obj.valid_transform = input_array.valid_transform
 
             # do cosmo_factor first since it can be used in comoving/physical conversion:
-            cosmo_factor = (
-                input_array.cosmo_factor
-                if input_array.cosmo_factor != NULL_CF
-                else None
-            )
+            if input_array.cosmo_factor != NULL_CF:
+                cosmo_factor = input_array.cosmo_factor
             cosmo_factor = _parse_cosmo_factor_args(
                 cf=cosmo_factor,
                 scale_factor=scale_factor,
@@ -2581,6 +2578,8 @@ class cosmo_quantity(cosmo_array, unyt_quantity):
             if cosmo_factor is None
             else cosmo_factor
         )
+        if cosmo_factor is not None and cosmo_factor == NULL_CF:
+            cosmo_factor = None
         comoving = (
             getattr(input_scalar, "comoving", None) if comoving is None else comoving
         )
-- 
2.43.0


From 4acc99a3b276862c36c788771f897dbc5156f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 64/67] fix: objects that opened no file have none to close

---
 swiftsimio/_handle_provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 6610e9d..5fecac0 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -58,7 +58,7 @@ class HandleProvider:
 
     def _close_handle_if_manager(self) -> None:
         """Close the file handle if this object is the manager of the handle."""
-        if self.handle_manager:
+        if self.handle_manager and self._handle:
             self._handle.close()
 
     @contextmanager
-- 
2.43.0


From 2ef502aa4c9f2129a1e4a65b6bfe3907f568d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 65/67] fix: combined power spectra carried the inverse of
 their cosmo_factor

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index f0d0b94..aac894f 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -386,7 +386,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 5726c9da46cea1c3059140b40181956f4e36d53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 66/67] fix: item assignment writes values in the frame of the
 array

---
 swiftsimio/objects.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9427533..44781ac 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -103,6 +103,8 @@ from numpy import (
 )
 from numpy._core.umath import _ones_like, clip
 from ._array_functions import (
+    _check_same_cosmo_factor,
+    _in_frame_of,
     _propagate_cosmo_array_attributes_to_result,
     _ensure_result_is_cosmo_array_or_quantity,
     _copy_cosmo_array_attributes_if_present,
@@ -2351,6 +2353,25 @@ class cosmo_array(unyt_array):
             function_to_invoke = func._implementation
         return function_to_invoke(*args, **kwargs)
 
+    def __setitem__(
+        self, item: int | slice | np.ndarray | tuple, value: float | np.ndarray
+    ) -> None:
+        """
+        Write values into part of this :class:`~swiftsimio.objects.cosmo_array`.
+
+        We delegate to :mod:`unyt`, once the values are in this array's frame.
+
+        Parameters
+        ----------
+        item : int, slice, :class:`~numpy.ndarray` or tuple
+            The part to be written.
+
+        value : float or :class:`~numpy.ndarray`
+            The values to write.
+        """
+        _check_same_cosmo_factor(self, value)
+        super().__setitem__(item, _in_frame_of(value, self))
+
     def __mul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From 5b55a16acf6a32f0c4548a36de24a87d00f2225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:28 +0000
Subject: [PATCH 67/67] fix: foldings that sample none of the bins have no best
 sampled wavenumber

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index aac894f..ff9cc13 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -430,7 +430,7 @@ def folded_depositions_to_power_spectrum(
                 2.0**folding * np.min(depositions[folding].shape) / np.min(boxsize)
             )
 
-            if cutoff_above_wavenumber_fraction is not None:
+            if cutoff_above_wavenumber_fraction is not None and use_bins.any():
                 maximally_sampled_wavenumber = np.max(
                     folded_wavenumber_centers[use_bins]
                 )
-- 
2.43.0

