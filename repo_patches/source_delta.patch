From 60d3d74fbaba8e15b21846964c09a04b73648383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 01/27] fix: parallel insert raised because lax.select got
 cases of different shapes

---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..28cecf9 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jnp.where(successful, slot_u32, jnp.uint32(0)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jnp.where(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From 7a1e76a09039c90e71ab8d0ea8ce5ced29d0e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 02/27] fix: from_tuple passed one zip object instead of the
 field values

---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..30dc41f 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0


From 1a6c6b8995b73b207c430f2da118bdba9f0c4ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 03/27] fix: shape of a structure with an unstructured nested
 array field raised TypeError

---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..07bb5ba 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -82,7 +82,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 if default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
-                elif shape.batch[-len(default_shape_field) :] == default_shape_field:
+                elif (
+                    shape.batch != -1
+                    and shape.batch[-len(default_shape_field) :] == default_shape_field
+                ):
                     batch_shapes.append(shape.batch[: -len(default_shape_field)])
                     cuted_batch_shape = shape.batch[-len(default_shape_field) :]
                     shape = shape.__class__(cuted_batch_shape, *shape[1:])
-- 
2.43.0


From 484e78752896742ade8d9a8a5653bc38d9d5ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 04/27] fix: conditional update with multi-dimensional index
 arrays ignored or rejected batched values

---
 xtructure/core/xtructure_numpy/array_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..74e7b16 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -83,6 +83,9 @@ def _update_array_on_condition(
 
     safe_indices = jnp.where(winners, indices_array, invalid_index)
     value_array = jnp.asarray(values_to_set, dtype=original_array.dtype)
+    item_shape = original_array.shape[1:]
+    if value_array.shape == (*condition.shape, *item_shape):
+        value_array = value_array.reshape((num_updates, *item_shape))
     return original_array.at[safe_indices].set(value_array, mode="drop")
 
 
-- 
2.43.0


From 889783e745ff1b63096d5230e589e656ff796952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 05/27] fix: conditional update through a slice silently
 changed nothing

---
 xtructure/core/xtructure_numpy/array_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 74e7b16..e73c43a 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -33,6 +33,9 @@ def _update_array_on_condition(
         )
         return result.reshape(original_array.shape)
 
+    if isinstance(indices, slice):
+        indices = jnp.arange(original_array.shape[0])[indices]
+
     condition = jnp.asarray(condition, dtype=jnp.bool_)
     num_updates = condition.size
     if num_updates == 0:
-- 
2.43.0


From 847463aa5486bc1ef8fcb6eb55b662ce12f6ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 06/27] fix: packing or unpacking an empty array raised or lost
 the element type

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..68cd006 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -156,6 +156,8 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     )
 
     values_flat = values.reshape((-1,))
+    if values_flat.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
 
     # Fast path for byte-aligned packing.
     if active_bits == 8:
@@ -222,7 +224,9 @@ def from_uint8(
         # Preserve dtype semantics even for empty tensors.
         if active_bits == 1:
             return jnp.zeros(target_shape, dtype=jnp.bool_)
-        return jnp.zeros(target_shape, dtype=jnp.uint8)
+        return jnp.zeros(
+            target_shape, dtype=jnp.uint8 if active_bits <= 8 else jnp.uint32
+        )
 
     if active_bits == 1:
         bits = jnp.unpackbits(
-- 
2.43.0


From c28289dad0fff5d95ebfe495fd41cb862a16d599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 07/27] fix: packed fields without elements or with an empty
 batch could not be read or written

---
 .../xtructure_decorators/bitpack_accessors.py    | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index ac5fbf6..c03c5d6 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -103,12 +103,10 @@ def _unpack_value(
             f"got {packed_arr.shape[-1]}."
         )
 
-    flat = packed_arr.reshape((-1, expected_packed_len))
+    if num_values == 0 or packed_arr.size == 0:
+        return jnp.zeros(batch_shape + unpacked_shape, dtype=unpacked_dtype)
 
-    if num_values == 0:
-        out_dtype = jnp.bool_ if packed_bits == 1 else jnp.uint8
-        out = jnp.zeros((flat.shape[0], 0), dtype=out_dtype)
-        return out.reshape(batch_shape + unpacked_shape)
+    flat = packed_arr.reshape((-1, expected_packed_len))
 
     if packed_bits == 1:
         bits = jnp.unpackbits(flat, count=num_values, bitorder="little", axis=1)
@@ -183,12 +181,10 @@ def _pack_value(
     num_values = int(np.prod(np.array(unpacked_shape, dtype=np.int64)))
     expected_packed_len = packed_num_bytes(num_values, packed_bits)
 
-    flat = arr.reshape((-1, num_values))
+    if arr.size == 0:
+        return jnp.zeros(batch_shape + (expected_packed_len,), dtype=jnp.uint8)
 
-    if num_values == 0:
-        return jnp.zeros((flat.shape[0], expected_packed_len), dtype=jnp.uint8).reshape(
-            batch_shape + (expected_packed_len,)
-        )
+    flat = arr.reshape((-1, num_values))
 
     if packed_bits == 1:
         bits = flat
-- 
2.43.0


From dad840549569be6b18fcc3eb87d6a4bb6530c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 08/27] fix: from_unpacked ignored unknown field names when
 every field was given

---
 xtructure/core/xtructure_decorators/bitpack_accessors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/bitpack_accessors.py b/xtructure/core/xtructure_decorators/bitpack_accessors.py
index c03c5d6..7f5ca1c 100644
--- a/xtructure/core/xtructure_decorators/bitpack_accessors.py
+++ b/xtructure/core/xtructure_decorators/bitpack_accessors.py
@@ -289,6 +289,9 @@ def add_bitpack_accessors(cls: Type[T]) -> Type[T]:
         """
         # Direct-build path if caller provides all required fields.
         all_fields = list(field_descriptors.keys())
+        for name in kwargs:
+            if name not in field_descriptors:
+                raise KeyError(f"Unknown field '{name}' for {cls.__name__}.")
         has_all = all(name in kwargs for name in all_fields)
         if has_all:
             values = {}
@@ -304,8 +307,6 @@ def add_bitpack_accessors(cls: Type[T]) -> Type[T]:
         base = cls.default(shape=shape)
         updates = {}
         for name, value in kwargs.items():
-            if name not in field_descriptors:
-                raise KeyError(f"Unknown field '{name}' for {cls.__name__}.")
             descriptor = field_descriptors[name]
             if _is_packed_descriptor(descriptor):
                 updates[name] = _pack_value(value, descriptor, shape)
-- 
2.43.0


From 815ce66636a08229b2436f49b10ffefbbe6d8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 09/27] fix: unpack_field with a slice read neighbouring fields
 for out-of-range or negative bounds

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..8c09bf7 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,10 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
-            return jnp.arange(start, stop, step, dtype=jnp.int32)
+            return jnp.arange(*indices.indices(nvalues), dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
         return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From 6c9ac4f43947afc4105917c5e3515214cdc001b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 10/27] fix: aggregate packing silently truncated floating
 point fields

---
 xtructure/core/xtructure_decorators/__init__.py       |  3 ++-
 .../xtructure_decorators/aggregate_bitpack/spec.py    | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/__init__.py b/xtructure/core/xtructure_decorators/__init__.py
index 211f93e..b5e3e1b 100644
--- a/xtructure/core/xtructure_decorators/__init__.py
+++ b/xtructure/core/xtructure_decorators/__init__.py
@@ -6,6 +6,7 @@ from xtructure.core.protocol import Xtructurable
 from xtructure.core.type_utils import is_xtructure_dataclass_type
 
 from .aggregate_bitpack import add_aggregate_bitpack
+from .aggregate_bitpack.spec import _is_bitpackable_dtype
 from .bitpack_accessors import add_bitpack_accessors
 from .default import add_default_method
 from .hash import hash_function_decorator
@@ -101,7 +102,7 @@ def xtructure_dataclass(
                         if not _all_bits_no_nested_arrays(fd.dtype):
                             return False
                     else:
-                        if fd.bits is None:
+                        if fd.bits is None or not _is_bitpackable_dtype(fd.dtype):
                             return False
                 return True
 
diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py
index b45698c..9f4ea36 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/spec.py
@@ -58,6 +58,11 @@ def _default_unpack_dtype(bits: int) -> Any:
     return jnp.uint32
 
 
+def _is_bitpackable_dtype(dtype: Any) -> bool:
+    """Whether values of ``dtype`` survive the packer's conversion to uint32."""
+    return jnp.issubdtype(dtype, jnp.integer) or jnp.issubdtype(dtype, jnp.bool_)
+
+
 def _mask_u32_np(bits: int) -> np.uint32:
     if bits <= 0:
         return np.uint32(0)
@@ -171,6 +176,12 @@ def _build_agg_spec(root_cls: Type[Any]) -> tuple[list[_AggLeafSpec], int]:
                     f"Missing on {cls.__name__}.{name}."
                 )
 
+            if not _is_bitpackable_dtype(descriptor.dtype):
+                raise TypeError(
+                    f"aggregate_bitpack supports only integer and bool fields. "
+                    f"Got dtype={descriptor.dtype} on {cls.__name__}.{name}."
+                )
+
             bits = int(descriptor.bits)
             unpacked_shape = tuple(descriptor.intrinsic_shape)
             nvalues = (
-- 
2.43.0


From 8ec8bcb3ac2909304d2fd05108dc497078c0d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 11/27] fix: conditional update rejected or ignored narrow
 index dtypes on longer arrays

---
 xtructure/core/xtructure_numpy/array_ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index e73c43a..f2d722f 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -49,13 +49,18 @@ def _update_array_on_condition(
 
     indices_array = jnp.reshape(indices_array, (num_updates,))
     index_dtype = indices_array.dtype
-    invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
     # Enforce drop semantics for out-of-bounds 1D indices.
     # Avoid int64 casts; many environments run with x64 disabled.
     if not jnp.issubdtype(index_dtype, jnp.integer):
         raise TypeError(f"indices must be an integer array, got dtype={index_dtype}")
 
+    # Narrow index dtypes may be unable to represent the out-of-bounds marker.
+    if jnp.iinfo(index_dtype).max < original_array.shape[0]:
+        index_dtype = jnp.dtype(jnp.int32)
+        indices_array = indices_array.astype(index_dtype)
+
+    invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
     n0 = jnp.array(original_array.shape[0], dtype=index_dtype)
     if jnp.issubdtype(index_dtype, jnp.unsignedinteger):
         in_bounds = indices_array < n0
-- 
2.43.0


From 7523999c6317f4733f0c91145e582d870c2699ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 12/27] fix: streaming hash of items without any words differed
 from the plain hash

---
 xtructure/core/xtructure_decorators/hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..3f9d948 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -241,7 +241,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_streaming_from_leaves(flat_leaves, seed):
         """Hash without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(jnp.size(leaf) == 0 for leaf in flat_leaves):
             return _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
 
         combined = jnp.uint32(0)
@@ -265,7 +265,7 @@ def byterize_hash_func_builder(x: Xtructurable):
     def _hash_pair_streaming_from_leaves(flat_leaves, seed):
         """Hash pair without materializing the full concatenated uint32ed buffer."""
         seed_u32 = jnp.uint32(seed)
-        if len(flat_leaves) == 0:
+        if all(jnp.size(leaf) == 0 for leaf in flat_leaves):
             h0 = _avalanche32(seed_u32 ^ jnp.uint32(0x9E3779B1))
             h1 = _avalanche32(seed_u32 ^ jnp.uint32(0x85EBCA6B))
             return h0, h1
-- 
2.43.0


From c28bfe2c721434113addd76a41799586253ea3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:42 +0000
Subject: [PATCH 13/27] fix: buckets with 256 or more slots lost their items
 (8-bit slot numbers)

---
 xtructure/hashtable/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/hashtable/constants.py b/xtructure/hashtable/constants.py
index 039f80f..64481ba 100644
--- a/xtructure/hashtable/constants.py
+++ b/xtructure/hashtable/constants.py
@@ -1,7 +1,7 @@
 import jax.numpy as jnp
 
 SIZE_DTYPE = jnp.uint32
-SLOT_IDX_DTYPE = jnp.uint8
+SLOT_IDX_DTYPE = jnp.uint32
 DOUBLE_HASH_SECONDARY_DELTA = jnp.uint32(0x9E3779B1)
 FINGERPRINT_MIX_CONSTANT_A = jnp.uint32(0x85EBCA6B)
 FINGERPRINT_MIX_CONSTANT_B = jnp.uint32(0xC2B2AE35)
-- 
2.43.0


From 82b9b8d613cb3f986d60535509f0ad2172967c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 14/27] fix: integer costs lost precision when choosing the
 representative of duplicate rows

---
 xtructure/hashtable/hash_utils.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..8453e2d 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,13 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _largest_cost(dtype) -> jax.Array:
+    """Largest value of a cost dtype, used for rows that cannot be representatives."""
+    if jnp.issubdtype(dtype, jnp.integer):
+        return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+    return jnp.array(jnp.inf, dtype=dtype)
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -271,15 +278,18 @@ def _compute_unique_mask_from_uint32eds(
         elif unique_key_arr.shape[0] != batch_len:
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
+        if unique_key_arr.dtype == jnp.bool_:
+            unique_key_arr = unique_key_arr.astype(jnp.int32)
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        largest = _largest_cost(sorted_unique_key.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, largest)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), largest, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -417,15 +427,18 @@ def _compute_unique_mask_from_hash_pairs(
             elif unique_key_arr.shape[0] != batch_len:
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
+            if unique_key_arr.dtype == jnp.bool_:
+                unique_key_arr = unique_key_arr.astype(jnp.int32)
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            largest = _largest_cost(sorted_unique_key.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, largest)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), largest, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 70468e98910f37792f4398f18f72e3299414780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:19 +0000
Subject: [PATCH 15/27] fix: batched insertion left rows out of tables with
 room and stored items beyond the lookup budget

---
 xtructure/hashtable/insert.py | 91 ++++++++++++++++++++++++-----------
 xtructure/hashtable/lookup.py | 17 ++++---
 xtructure/hashtable/table.py  |  2 +
 3 files changed, 77 insertions(+), 33 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 28cecf9..2fac5eb 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -51,7 +51,10 @@ def _scatter_set_xtructurable_drop(
     )
 
 
-def _resolve_slot_conflicts(flat_indices: chex.Array, active: chex.Array) -> chex.Array:
+def _resolve_slot_conflicts(
+    flat_indices: chex.Array, active: chex.Array, newcomers: chex.Array
+) -> chex.Array:
+    """One winner per slot: a row already holding the slot, else the first newcomer."""
     active = jnp.asarray(active, dtype=jnp.bool_).reshape(-1)
     flat_indices = jnp.asarray(flat_indices, dtype=jnp.uint32).reshape(-1)
     batch_size = int(flat_indices.shape[0])
@@ -60,10 +63,12 @@ def _resolve_slot_conflicts(flat_indices: chex.Array, active: chex.Array) -> che
     sentinel = jnp.uint32(0xFFFFFFFF)
     keys = cast(jax.Array, jnp.where(active, flat_indices, sentinel))
 
-    operand = cast(Any, (keys, batch_idx))
-    sorted_keys, sorted_batch_idx = cast(
-        tuple[jax.Array, jax.Array],
-        jax.lax.sort(operand, dimension=0, is_stable=True),
+    newcomers_u32 = jnp.asarray(newcomers, dtype=jnp.uint32).reshape(-1)
+
+    operand = cast(Any, (keys, newcomers_u32, batch_idx))
+    sorted_keys, _, sorted_batch_idx = cast(
+        tuple[jax.Array, jax.Array, jax.Array],
+        jax.lax.sort(operand, dimension=0, is_stable=True, num_keys=2),
     )
 
     is_first = jnp.concatenate(
@@ -138,38 +143,64 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
+    bucket_size = SIZE_DTYPE(table.bucket_size)
+    max_probes = SIZE_DTYPE(int(table.max_probes))
 
-    def _advance(idx: Any, step: chex.Array) -> Any:
-        next_bucket = idx.slot_index >= (table.bucket_size - 1)
+    # Each row continues the probe sequence of its lookup with the budget its lookup has
+    # left, so that a later lookup examines every bucket a row can be stored in. A row
+    # keeps the slot it won: if it could lose it to a row arriving later, it might have
+    # no budget left to reach the remaining free slots.
+    def _advance(idx: Any, used: chex.Array, step: chex.Array) -> Any:
+        same_bucket = idx.slot_index + 1 < bucket_size
+        has_budget = used < max_probes
 
         def _next_bucket() -> Any:
             mask = capacity - SIZE_DTYPE(1)
             next_index = (idx.index + step) & mask
             bucket_fill = table.bucket_fill_levels[next_index]
-            return BucketIdxCls(
-                index=SIZE_DTYPE(next_index),
-                slot_index=SLOT_IDX_DTYPE(bucket_fill),
+            return (
+                BucketIdxCls(
+                    index=SIZE_DTYPE(next_index),
+                    slot_index=SLOT_IDX_DTYPE(bucket_fill),
+                ),
+                used + bucket_size,
+            )
+
+        def _give_up() -> Any:
+            return (
+                BucketIdxCls(
+                    index=idx.index, slot_index=SLOT_IDX_DTYPE(table.bucket_size)
+                ),
+                used,
             )
 
         def _same_bucket() -> Any:
-            return BucketIdxCls(
-                index=idx.index,
-                slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
+            return (
+                BucketIdxCls(
+                    index=idx.index,
+                    slot_index=SLOT_IDX_DTYPE(idx.slot_index + 1),
+                ),
+                used,
             )
 
-        return jax.lax.cond(next_bucket, _next_bucket, _same_bucket)
+        return jax.lax.cond(
+            same_bucket,
+            _same_bucket,
+            lambda: jax.lax.cond(has_budget, _next_bucket, _give_up),
+        )
 
-    def _next_idx(idxs: Any, unupdateds: chex.Array) -> Any:
+    def _next_idx(idxs: Any, used: chex.Array, unupdateds: chex.Array) -> Any:
         return jax.vmap(
-            lambda active, current_idx, step: jax.lax.cond(
+            lambda active, current_idx, current_used, step: jax.lax.cond(
                 active,
-                lambda: _advance(current_idx, step),
-                lambda: current_idx,
+                lambda: _advance(current_idx, current_used, step),
+                lambda: (current_idx, current_used),
             )
-        )(unupdateds, idxs, probe_steps)
+        )(unupdateds, idxs, used, probe_steps)
 
     valid_initial = index.slot_index < table.bucket_size
     flat_initial_slots = index.index * SIZE_DTYPE(
@@ -177,7 +208,7 @@ def _hashtable_parallel_insert_internal(
     ) + index.slot_index.astype(SIZE_DTYPE)
     initial_candidates = jnp.logical_and(updatable, valid_initial)
     initial_unique_mask = _resolve_slot_conflicts(
-        flat_initial_slots, initial_candidates
+        flat_initial_slots, initial_candidates, initial_candidates
     )
     pending = jnp.logical_or(
         jnp.logical_and(updatable, jnp.logical_not(initial_unique_mask)),
@@ -185,14 +216,17 @@ def _hashtable_parallel_insert_internal(
     )
 
     def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+        idxs, pending, probes = val
+        given_up = jnp.logical_and(
+            idxs.slot_index >= bucket_size, probes >= max_probes
+        )
+        return jnp.any(jnp.logical_and(pending, jnp.logical_not(given_up)))
 
     def _body(
         val: tuple[Any, chex.Array, chex.Array],
     ) -> tuple[Any, chex.Array, chex.Array]:
         idxs, pending, probes = val
-        updated_idxs = _next_idx(idxs, pending)
+        updated_idxs, probes = _next_idx(idxs, probes, pending)
 
         valid = updated_idxs.slot_index < table.bucket_size
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
@@ -200,16 +234,18 @@ def _hashtable_parallel_insert_internal(
         ) + updated_idxs.slot_index.astype(SIZE_DTYPE)
 
         active_for_unique = jnp.logical_and(updatable, valid)
-        unique_mask = _resolve_slot_conflicts(flat_updated_slots, active_for_unique)
+        unique_mask = _resolve_slot_conflicts(
+            flat_updated_slots, active_for_unique, pending
+        )
 
         next_pending = jnp.logical_or(
             jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
             jnp.logical_and(updatable, jnp.logical_not(valid)),
         )
-        return updated_idxs, next_pending, probes + 1
+        return updated_idxs, next_pending, probes
 
     index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+        _cond, _body, (index, pending, jnp.asarray(probes, dtype=SIZE_DTYPE))
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
@@ -441,7 +477,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, probes = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -495,6 +531,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                probes,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..46c5939 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -100,15 +100,19 @@ def _hashtable_lookup_internal(
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
 
+        # Never point at a bucket beyond the probe budget: it has not been examined, so
+        # an insertion there could not be found again.
+        probes = probes + bucket_size_u32
+        stay = jnp.logical_or(should_stop, probes >= max_probes_u32)
+
         updated_idx = BucketIdxCls(
-            index=cast(jax.Array, jnp.where(should_stop, bucket_idx, next_bucket)),
+            index=cast(jax.Array, jnp.where(stay, bucket_idx, next_bucket)),
             slot_index=cast(
                 jax.Array,
                 jnp.where(should_stop, out_slot, SLOT_IDX_DTYPE(0)),
             ),
         )
 
-        probes = probes + bucket_size_u32
         probes = cast(jax.Array, jnp.where(should_stop, max_probes_u32, probes))
         return updated_idx, new_found, probes
 
@@ -146,7 +150,8 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
+    """Returns slot indices, found flags and the probes each row has used."""
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +298,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +325,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _ = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
diff --git a/xtructure/hashtable/table.py b/xtructure/hashtable/table.py
index 97a227f..10127e2 100644
--- a/xtructure/hashtable/table.py
+++ b/xtructure/hashtable/table.py
@@ -38,6 +38,8 @@ def _hashtable_build_jit(
     size = SIZE_DTYPE(0)
     if max_probes is None:
         max_probes = _capacity * bucket_size
+    if max_probes < 1:
+        raise ValueError("max_probes must be positive.")
 
     table = dataclass.default(((_capacity + 1) * bucket_size,))
     bucket_fill_levels = jnp.zeros((_capacity + 1), dtype=SIZE_DTYPE)
-- 
2.43.0


From fd46712c5ea12f4aec6b46f7e05fd9c1440de647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 16/27] fix: unique_mask dropped valid items whose key is all
 ones next to masked items

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..a452039 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -179,6 +179,10 @@ def unique_mask(
         inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
         valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
         perm = _stable_sort_perm(perm, valid_key)
+    if filled is not None or key is not None:
+        # A valid item whose hash equals MAX_KEY shares its group with the invalid items;
+        # put the valid ones first so that the group's first row is one of them.
+        perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
-- 
2.43.0


From f15d48b128ef1c0552776fd9585e5e8d09128b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:26 +0000
Subject: [PATCH 17/27] fix: unique_mask merged different wide rows that share
 a wide hash (e.g. two float sign flips)

---
 .../unique_ops/optimized_unique_ops.py        | 49 ++++++++++++++++---
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index a452039..5119d80 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -156,15 +156,18 @@ def unique_mask(
         effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
+    def _max_key(dtype) -> jax.Array:
+        if dtype == jnp.bool_:
+            return jnp.array(True)
+        if jnp.issubdtype(dtype, jnp.integer):
+            return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+        if jnp.issubdtype(dtype, jnp.floating):
+            return jnp.array(jnp.finfo(dtype).max, dtype=dtype)
+        raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
+
+    is_hashed = len(hashes) < keys_flat.shape[1]
     for i in range(len(hashes)):
-        dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
-            max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
-        elif jnp.issubdtype(dtype, jnp.floating):
-            max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-        else:
-            raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
-        hashes[i] = jnp.where(effective_filled, hashes[i], max_val)
+        hashes[i] = jnp.where(effective_filled, hashes[i], _max_key(hashes[i].dtype))
 
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
@@ -184,6 +187,8 @@ def unique_mask(
         # put the valid ones first so that the group's first row is one of them.
         perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
 
+    unsorted_perm = perm
+
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
@@ -197,6 +202,34 @@ def unique_mask(
     for d in diffs[1:]:
         is_diff = jnp.logical_or(is_diff, d)
 
+    if is_hashed:
+        # Different rows can share a wide hash (e.g. rows that differ in the sign of two
+        # float fields); sort by the whole rows when that happens.
+        rows = keys_flat[perm]
+        valid = effective_filled[perm]
+        collision = jnp.logical_and(
+            jnp.logical_not(is_diff), jnp.any(rows[1:] != rows[:-1], axis=1)
+        )
+        collision = jnp.any(
+            jnp.logical_and(collision, jnp.logical_and(valid[1:], valid[:-1]))
+        )
+
+        def _sort_by_rows() -> tuple[jax.Array, jax.Array]:
+            columns = jnp.where(
+                effective_filled[:, None], keys_flat, _max_key(keys_flat.dtype)
+            ).T
+
+            def _sort_by_column(i, perm_in):
+                return _stable_sort_perm(perm_in, columns[columns.shape[0] - 1 - i])
+
+            by_rows = lax.fori_loop(0, columns.shape[0], _sort_by_column, unsorted_perm)
+            sorted_columns = columns[:, by_rows]
+            return by_rows, jnp.any(
+                sorted_columns[:, 1:] != sorted_columns[:, :-1], axis=0
+            )
+
+        perm, is_diff = lax.cond(collision, _sort_by_rows, lambda: (perm, is_diff))
+
     mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
 
     # 7. Filter out the invalid group
-- 
2.43.0


From 5641369b0f3d8d54a343496896ded146ecfbc61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 18/27] fix: loop merge kernel could not be built with the
 installed Pallas (pl.load/pl.store are gone)

---
 xtructure/bgpq/merge_split/loop.py | 64 ++++++------------------------
 1 file changed, 12 insertions(+), 52 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..f9ce2d0 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -26,18 +26,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_a_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = current_idx_a
         return current_idx_a + 1, current_idx_b
 
     def false_branch_body_fn(cond_operands):
@@ -52,18 +42,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_b_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = n + current_idx_b
         return current_idx_a, current_idx_b + 1
 
     initial_main_loop_state = (
@@ -90,8 +70,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
+        val_a = loop_ak_ref[idx_a]
+        val_b = loop_bk_ref[idx_b]
         pred = val_a <= val_b
 
         updated_idx_a, updated_idx_b = jax.lax.cond(
@@ -153,20 +133,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
+        val_to_store = loop_ak_ref[current_idx_a]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = current_idx_a
         return (
             current_idx_a + 1,
             current_out_ptr + 1,
@@ -206,20 +176,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
+        val_to_store = loop_bk_ref[current_idx_b]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = n + current_idx_b
         return (
             current_idx_b + 1,
             current_out_ptr + 1,
-- 
2.43.0


From 44895e225352ca205a47fe5373645ae4a392f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 19/27] fix: merge_arrays_parallel_kv read outside its buffers
 when one block is empty

---
 xtructure/bgpq/merge_split/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..02f9c79 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -336,6 +336,12 @@ def _get_merge_arrays_parallel_kv(
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
+        if n == 0:
+            return bk, list(bv_leaves)
+
+        if m == 0:
+            return ak, list(av_leaves)
+
         total_len_padded = ((total_len + block_size - 1) // block_size) * block_size
         out_keys_shape_dtype = jax.ShapeDtypeStruct((total_len_padded,), key_dtype)
         out_val_shapes = [
-- 
2.43.0


From 9e311dbd1f439d39d10d9f83976d57da1eb258ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 20/27] fix: GPU and TPU slot reservation ignored the table's
 probe limit

---
 xtructure/hashtable/insert.py        | 20 ++++++++++++++++++++
 xtructure/hashtable/insert_pallas.py | 13 ++++++++++++-
 xtructure/hashtable/insert_triton.py |  9 +++++++--
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 2fac5eb..3d33dcc 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -291,6 +291,20 @@ def _hashtable_parallel_insert_internal(
     return table, index, successful
 
 
+def _remaining_probe_buckets(table: Any, probes: chex.Array) -> jax.Array:
+    """Number of buckets, the current one included, a row may still be stored in.
+
+    A row has used `probes` of its budget when its lookup stops; a later lookup of the
+    row examines no bucket beyond that budget.
+    """
+    max_probes = SIZE_DTYPE(int(table.max_probes))
+    probes = jnp.asarray(probes, dtype=SIZE_DTYPE)
+    further = (max_probes - probes - 1) // SIZE_DTYPE(table.bucket_size) + 1
+    further = jnp.where(probes < max_probes, further, 0)
+    limit = SIZE_DTYPE(table._capacity - 1)
+    return jnp.minimum(further, limit).astype(jnp.int32) + 1
+
+
 def _hashtable_parallel_insert_internal_triton(
     table: Any,
     inputs: Xtructurable,
@@ -298,6 +312,7 @@ def _hashtable_parallel_insert_internal_triton(
     start_bucket_idx: chex.Array,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     bucket_size = int(table.bucket_size)
     capacity = int(table._capacity)
@@ -309,6 +324,7 @@ def _hashtable_parallel_insert_internal_triton(
             start_bucket_idx,
             probe_steps,
             updatable,
+            _remaining_probe_buckets(table, probes),
             bucket_size=bucket_size,
             capacity=capacity,
         ),
@@ -366,6 +382,7 @@ def _hashtable_parallel_insert_internal_pallas(
     start_bucket_idx: chex.Array,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     bucket_size = int(table.bucket_size)
     capacity = int(table._capacity)
@@ -378,6 +395,7 @@ def _hashtable_parallel_insert_internal_pallas(
             start_bucket_idx,
             probe_steps,
             updatable,
+            _remaining_probe_buckets(table, probes),
             bucket_size=bucket_size,
             capacity=capacity,
             backend="mosaic_tpu",
@@ -510,6 +528,7 @@ def _hashtable_parallel_insert_jit(
                     idx.index,
                     updatable,
                     fingerprints,
+                    probes,
                 )
             )
         elif use_pallas:
@@ -521,6 +540,7 @@ def _hashtable_parallel_insert_jit(
                     idx.index,
                     updatable,
                     fingerprints,
+                    probes,
                 )
             )
         else:
diff --git a/xtructure/hashtable/insert_pallas.py b/xtructure/hashtable/insert_pallas.py
index 9e3034e..45b3c5f 100644
--- a/xtructure/hashtable/insert_pallas.py
+++ b/xtructure/hashtable/insert_pallas.py
@@ -118,6 +118,7 @@ def _get_reserve_slots_fn(
         start_buckets: chex.Array,
         probe_steps: chex.Array,
         active: chex.Array,
+        budgets: chex.Array,
     ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array, chex.Array]:
         batch = int(start_buckets.shape[0])
         if batch == 0:
@@ -131,6 +132,7 @@ def _get_reserve_slots_fn(
         start_buckets = jnp.asarray(start_buckets, dtype=jnp.uint32).reshape(-1)
         probe_steps = jnp.asarray(probe_steps, dtype=jnp.uint32).reshape(-1)
         active = jnp.asarray(active, dtype=jnp.bool_).reshape(-1)
+        budgets = jnp.asarray(budgets, dtype=jnp.int32).reshape(-1)
 
         result_bucket = start_buckets
         result_slot = jnp.zeros((batch,), dtype=jnp.uint32)
@@ -219,6 +221,7 @@ def _get_reserve_slots_fn(
                 pending, jnp.bitwise_and(cur_bucket + probe_steps, cap_mask), cur_bucket
             )
             rounds = rounds + 1
+            pending = jnp.logical_and(pending, rounds < budgets)
             return fill, occ, cur_bucket, res_b, res_s, ins, pending, rounds
 
         fill_out, occ_out, _, res_b, res_s, inserted, _, _ = jax.lax.while_loop(
@@ -247,6 +250,7 @@ def reserve_slots_pallas(
     start_buckets: chex.Array,
     probe_steps: chex.Array,
     active: chex.Array,
+    budgets: chex.Array,
     *,
     bucket_size: int,
     capacity: int,
@@ -259,4 +263,11 @@ def reserve_slots_pallas(
         max_probe_buckets=int(cfg_max),
         backend=str(backend),
     )
-    return fn(bucket_fill_levels, bucket_occupancy, start_buckets, probe_steps, active)
+    return fn(
+        bucket_fill_levels,
+        bucket_occupancy,
+        start_buckets,
+        probe_steps,
+        active,
+        budgets,
+    )
diff --git a/xtructure/hashtable/insert_triton.py b/xtructure/hashtable/insert_triton.py
index 6296b12..d857ef4 100644
--- a/xtructure/hashtable/insert_triton.py
+++ b/xtructure/hashtable/insert_triton.py
@@ -69,6 +69,7 @@ def _make_reserve_slots_kernel(
         start_bucket_ref,
         probe_step_ref,
         active_ref,
+        budget_ref,
         occ_ref,
         out_bucket_ref,
         out_slot_ref,
@@ -78,12 +79,13 @@ def _make_reserve_slots_kernel(
         is_active = jnp.asarray(active_ref[pid], dtype=jnp.bool_)
         start_bucket = jnp.asarray(start_bucket_ref[pid], dtype=jnp.uint32)
         step = jnp.asarray(probe_step_ref[pid], dtype=jnp.uint32)
+        budget = jnp.asarray(budget_ref[pid], dtype=jnp.int32)
 
         def _outer_cond(state):
             probe, _bucket, inserted, _slot = state
             return jnp.logical_and(
                 jnp.logical_and(is_active, jnp.logical_not(inserted)),
-                probe < max_probe_buckets,
+                probe < jnp.minimum(budget, max_probe_buckets),
             )
 
         def _outer_body(state):
@@ -176,6 +178,7 @@ def _get_reserve_slots_fn(
         start_buckets: chex.Array,
         probe_steps: chex.Array,
         active: chex.Array,
+        budgets: chex.Array,
     ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array]:
         batch = int(start_buckets.shape[0])
         occ_shape = jax.ShapeDtypeStruct(bucket_occupancy.shape, bucket_occupancy.dtype)
@@ -197,6 +200,7 @@ def _get_reserve_slots_fn(
             start_buckets,
             probe_steps,
             active,
+            budgets,
         )
         return occ_out, out_bucket, out_slot, inserted
 
@@ -208,6 +212,7 @@ def reserve_slots_triton(
     start_buckets: chex.Array,
     probe_steps: chex.Array,
     active: chex.Array,
+    budgets: chex.Array,
     *,
     bucket_size: int,
     capacity: int,
@@ -237,4 +242,4 @@ def reserve_slots_triton(
         num_warps=num_warps,
         num_stages=num_stages,
     )
-    return fn(bucket_occupancy, start_buckets, probe_steps, active)
+    return fn(bucket_occupancy, start_buckets, probe_steps, active, budgets)
-- 
2.43.0


From 8cd1d6f21758910a2ec9f878ef4f07306b7d0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 21/27] fix: an instance whose shape was inspected could not be
 pickled

---
 xtructure/core/dataclass.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 30dc41f..d09abb8 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -134,7 +134,10 @@ class _Dataclass:
             return dataclasses.replace(self, **kwargs)
 
         def _getstate(self):
-            return self.__dict__
+            # Inspection caches hold locally defined classes that cannot be pickled.
+            return {
+                k: v for k, v in self.__dict__.items() if k not in _INTERNAL_CACHE_KEYS
+            }
 
         # Register the dataclass at definition. As long as the dataclass is defined
         # outside __main__, this is sufficient to make JAX's PyTree registry
-- 
2.43.0


From f756504db467fd769a42cba684648db6e2dfe729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 22/27] fix: validated structures accepted nested fields
 without their declared trailing batch shape

---
 xtructure/core/xtructure_decorators/validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/validation.py b/xtructure/core/xtructure_decorators/validation.py
index 79e30bb..bb54aa3 100644
--- a/xtructure/core/xtructure_decorators/validation.py
+++ b/xtructure/core/xtructure_decorators/validation.py
@@ -61,6 +61,14 @@ def add_runtime_validation(cls: Type[T], *, enabled: bool) -> Type[T]:
                         f"{cls.__name__}.{field_name} expected instance of "
                         f"{descriptor.dtype.__name__}, got {type(value).__name__}."
                     )
+                intrinsic_shape = tuple(descriptor.intrinsic_shape)
+                if intrinsic_shape:
+                    batch = value.shape.batch
+                    if batch == -1 or batch[-len(intrinsic_shape) :] != intrinsic_shape:
+                        raise ValueError(
+                            f"{cls.__name__}.{field_name} expected trailing batch shape "
+                            f"{intrinsic_shape}, but got batch shape {batch}."
+                        )
                 continue
             _validate_array_field(field_name, descriptor, value)
 
-- 
2.43.0


From 6f2d56e8194967c66d0d16b769c4245587625d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 23/27] fix: zeros_like, ones_like and broadcast_to silently
 ignored out_sharding on structures

---
 xtructure/core/xtructure_numpy/__init__.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/__init__.py b/xtructure/core/xtructure_numpy/__init__.py
index a932779..b24d019 100644
--- a/xtructure/core/xtructure_numpy/__init__.py
+++ b/xtructure/core/xtructure_numpy/__init__.py
@@ -285,7 +285,13 @@ def full_like(
 
 def zeros_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
     if _is_xtructurable(a):
-        _reject_dataclass_kwargs("zeros_like", dtype=dtype, shape=shape, device=device)
+        _reject_dataclass_kwargs(
+            "zeros_like",
+            dtype=dtype,
+            shape=shape,
+            device=device,
+            out_sharding=out_sharding,
+        )
         return _dc.zeros_like(a)
     return jnp.zeros_like(
         a, dtype=dtype, shape=shape, device=device, out_sharding=out_sharding
@@ -294,7 +300,13 @@ def zeros_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
 
 def ones_like(a, dtype=None, shape=None, *, device=None, out_sharding=None):
     if _is_xtructurable(a):
-        _reject_dataclass_kwargs("ones_like", dtype=dtype, shape=shape, device=device)
+        _reject_dataclass_kwargs(
+            "ones_like",
+            dtype=dtype,
+            shape=shape,
+            device=device,
+            out_sharding=out_sharding,
+        )
         return _dc.ones_like(a)
     return jnp.ones_like(
         a, dtype=dtype, shape=shape, device=device, out_sharding=out_sharding
@@ -349,6 +361,7 @@ def moveaxis(
 
 def broadcast_to(array, shape, *, out_sharding=None):
     if _is_xtructurable(array):
+        _reject_dataclass_kwargs("broadcast_to", out_sharding=out_sharding)
         return _dc.broadcast_to(array, shape)
     return jnp.broadcast_to(array, shape, out_sharding=out_sharding)
 
-- 
2.43.0


From 2b08a0af0433d2bdba261e489ecea97b09f36d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 24/27] fix: structure pad silently ignored options that
 constant padding does not have

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..05d49b5 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -113,7 +113,7 @@ def pad(
         pad_before, pad_after = normalized_pad_width[0]
         target_size = 1 + pad_before + pad_after
 
-        if mode == "constant" and "constant_values" not in kwargs:
+        if mode == "constant" and not kwargs:
             result = type(dataclass_instance).default((target_size,))
             return result.at[pad_before].set(dataclass_instance)
 
@@ -143,7 +143,7 @@ def pad(
         if all(before == 0 and after == 0 for before, after in normalized_pad_width):
             return dataclass_instance
 
-        if mode == "constant" and "constant_values" not in kwargs:
+        if mode == "constant" and not kwargs:
             target_shape = tuple(
                 dim + before + after
                 for dim, (before, after) in zip(batch_shape, normalized_pad_width)
-- 
2.43.0


From f960b0a52cc0113e4854a0b4a21e8694851451c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 25/27] fix: nested and packed structure classes could be saved
 but not found again on load

---
 .../xtructure_decorators/aggregate_bitpack/__init__.py     | 7 ++++++-
 xtructure/io/io.py                                         | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 8c09bf7..3c55b8f 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -50,7 +50,12 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
     packed_name = f"{cls.__name__}Packed"
 
     # Create class dynamically so user doesn't have to write it.
-    Packed = type(packed_name, (), {"__module__": cls.__module__})
+    # Its qualified name is where it can be found again (pickling, `save`/`load`).
+    Packed = type(
+        packed_name,
+        (),
+        {"__module__": cls.__module__, "__qualname__": f"{cls.__qualname__}.Packed"},
+    )
 
     # Attach xtructure annotations: words + tail.
     Packed.__annotations__ = {
diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..ebd37f7 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -2,6 +2,7 @@
 
 import dataclasses
 import importlib
+import operator
 import os
 from typing import Any, Dict, Tuple
 
@@ -96,7 +97,8 @@ def save(path: str, instance: Xtructurable, *, packed: bool = True):
     # Add metadata for reconstruction
     cls = instance.__class__
     data_to_save[METADATA_MODULE_KEY] = np.array(cls.__module__)
-    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(cls.__name__)
+    # The qualified name also identifies classes nested in other classes (e.g. `K.Packed`).
+    data_to_save[METADATA_CLASS_NAME_KEY] = np.array(cls.__qualname__)
 
     # Ensure the directory exists
     directory = os.path.dirname(path)
@@ -175,7 +177,7 @@ def load(path: str) -> Xtructurable:
         # Dynamically import the class
         try:
             module = importlib.import_module(module_name)
-            cls = getattr(module, class_name)
+            cls = operator.attrgetter(class_name)(module)
         except (ImportError, AttributeError) as e:
             raise ImportError(
                 f"Could not find class '{class_name}' in module '{module_name}'. "
-- 
2.43.0


From 2cef52b6924d7077effb9d8c44f7aabe30b04f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:56 +0000
Subject: [PATCH 26/27] fix: extended dtypes such as bfloat16 could be saved
 but not loaded

---
 xtructure/io/io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index ebd37f7..703b9ce 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -147,7 +147,17 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                value = data[full_key]
+                if value.dtype.kind == "V" and field_descriptor is not None:
+                    # The npz format keeps only the bytes of extended dtypes (e.g. bfloat16).
+                    declared_dtype = np.dtype(field_descriptor.dtype)
+                    if value.dtype.itemsize != declared_dtype.itemsize:
+                        raise ValueError(
+                            f"Field '{full_key}' holds {value.dtype.itemsize}-byte elements, "
+                            f"expected {declared_dtype}."
+                        )
+                    value = value.view(declared_dtype)
+                field_values[field_name] = jnp.array(value)
     return field_values
 
 
-- 
2.43.0


From ac930192f923787b2d0f1bed25b0d4cbc13d6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:11 +0000
Subject: [PATCH 27/27] fix: a structure extending another one used only the
 base's field descriptors

---
 xtructure/core/field_descriptors.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xtructure/core/field_descriptors.py b/xtructure/core/field_descriptors.py
index 59cf579..9b8fcbc 100644
--- a/xtructure/core/field_descriptors.py
+++ b/xtructure/core/field_descriptors.py
@@ -1,3 +1,4 @@
+import inspect
 from typing import Any, Callable, Dict, Tuple, Type
 
 import jax.numpy as jnp
@@ -342,15 +343,20 @@ def extract_field_descriptors_from_annotations(
 
 
 def cache_field_descriptors(cls: Type[Any]) -> Dict[str, FieldDescriptor]:
-    descriptors = extract_field_descriptors_from_annotations(
-        getattr(cls, "__annotations__", {})
+    # Like dataclass fields: those of the base structures first, then the class's own.
+    descriptors: Dict[str, FieldDescriptor] = {}
+    for base in reversed(cls.__mro__[1:]):
+        if is_xtructure_dataclass_type(base):
+            descriptors.update(get_field_descriptors(base))
+    descriptors.update(
+        extract_field_descriptors_from_annotations(inspect.get_annotations(cls))
     )
     setattr(cls, _FIELD_DESCRIPTOR_ATTR, descriptors)
     return descriptors
 
 
 def get_field_descriptors(cls: Type[Any]) -> Dict[str, FieldDescriptor]:
-    descriptors = getattr(cls, _FIELD_DESCRIPTOR_ATTR, None)
+    descriptors = cls.__dict__.get(_FIELD_DESCRIPTOR_ATTR)
     if descriptors is None:
         descriptors = cache_field_descriptors(cls)
     return descriptors
-- 
2.43.0

