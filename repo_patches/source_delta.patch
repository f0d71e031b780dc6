From 5e2bd1bb1584052d6911c3037e4370bc52f3244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 01/31] fix: parallel key/value merge indexed an empty side out
 of bounds (batch size 1)

---
 xtructure/bgpq/merge_split/parallel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/bgpq/merge_split/parallel.py b/xtructure/bgpq/merge_split/parallel.py
index b213a8e..0789b11 100644
--- a/xtructure/bgpq/merge_split/parallel.py
+++ b/xtructure/bgpq/merge_split/parallel.py
@@ -333,6 +333,12 @@ def _get_merge_arrays_parallel_kv(
             return out_keys, out_vals
 
         key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+        if n == 0:
+            return bk.astype(key_dtype), list(bv_leaves)
+
+        if m == 0:
+            return ak.astype(key_dtype), list(av_leaves)
+
         ak = ak.astype(key_dtype)
         bk = bk.astype(key_dtype)
 
-- 
2.43.0


From b5be6b1696aa2030b502e3f6856122656a3bfaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 02/31] fix: loop merge backend used the removed
 pl.load/pl.store

---
 xtructure/bgpq/merge_split/loop.py | 64 ++++++------------------------
 1 file changed, 12 insertions(+), 52 deletions(-)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index 7d491be..f9ce2d0 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -26,18 +26,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_a_casted = val_a_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_a_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_a_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = current_idx_a
         return current_idx_a + 1, current_idx_b
 
     def false_branch_body_fn(cond_operands):
@@ -52,18 +42,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             merged_indices_ref_from_cond,
         ) = cond_operands
         val_b_casted = val_b_to_store.astype(merged_keys_ref_from_cond.dtype)
-        pl.store(
-            merged_keys_ref_from_cond,
-            (current_out_ptr_val,),
-            val_b_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            merged_indices_ref_from_cond,
-            (current_out_ptr_val,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        merged_keys_ref_from_cond[current_out_ptr_val] = val_b_casted
+        merged_indices_ref_from_cond[current_out_ptr_val] = n + current_idx_b
         return current_idx_a, current_idx_b + 1
 
     initial_main_loop_state = (
@@ -90,8 +70,8 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_a = pl.load(loop_ak_ref, (idx_a,))
-        val_b = pl.load(loop_bk_ref, (idx_b,))
+        val_a = loop_ak_ref[idx_a]
+        val_b = loop_bk_ref[idx_b]
         pred = val_a <= val_b
 
         updated_idx_a, updated_idx_b = jax.lax.cond(
@@ -153,20 +133,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_ak_ref, (current_idx_a,))
+        val_to_store = loop_ak_ref[current_idx_a]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            current_idx_a,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = current_idx_a
         return (
             current_idx_a + 1,
             current_out_ptr + 1,
@@ -206,20 +176,10 @@ def merge_indices_kernel_loop(ak_ref, bk_ref, merged_keys_ref, merged_indices_re
             loop_merged_keys_ref,
             loop_merged_indices_ref,
         ) = state
-        val_to_store = pl.load(loop_bk_ref, (current_idx_b,))
+        val_to_store = loop_bk_ref[current_idx_b]
         val_casted = val_to_store.astype(loop_merged_keys_ref.dtype)
-        pl.store(
-            loop_merged_keys_ref,
-            (current_out_ptr,),
-            val_casted,
-            eviction_policy="evict_last",
-        )
-        pl.store(
-            loop_merged_indices_ref,
-            (current_out_ptr,),
-            n + current_idx_b,
-            eviction_policy="evict_last",
-        )
+        loop_merged_keys_ref[current_out_ptr] = val_casted
+        loop_merged_indices_ref[current_out_ptr] = n + current_idx_b
         return (
             current_idx_b + 1,
             current_out_ptr + 1,
-- 
2.43.0


From 1760080e51bb56db4ad7a15acb556013d0f9b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:56 +0000
Subject: [PATCH 03/31] fix: loop merge backend failed on an empty side

---
 xtructure/bgpq/merge_split/loop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/bgpq/merge_split/loop.py b/xtructure/bgpq/merge_split/loop.py
index f9ce2d0..1a23202 100644
--- a/xtructure/bgpq/merge_split/loop.py
+++ b/xtructure/bgpq/merge_split/loop.py
@@ -210,6 +210,12 @@ def merge_arrays_indices_loop(
     m = bk.shape[0]
 
     key_dtype = jnp.result_type(ak.dtype, bk.dtype)
+    if n == 0:
+        return bk.astype(key_dtype), jnp.arange(m, dtype=jnp.int32)
+
+    if m == 0:
+        return ak.astype(key_dtype), jnp.arange(n, dtype=jnp.int32)
+
     out_keys_shape_dtype = jax.ShapeDtypeStruct((n + m,), key_dtype)
     out_idx_shape_dtype = jax.ShapeDtypeStruct((n + m,), jnp.int32)
 
-- 
2.43.0


From 2625de9cfebb6c6b4bb3554f0a9d34f084b55046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 04/31] fix: parallel_insert raised TypeError for bucket_size
 <= 32 (select on mismatched shapes)

---
 xtructure/hashtable/insert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index f342f60..28cecf9 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -242,12 +242,12 @@ def _hashtable_parallel_insert_internal(
         bucket_i32 = jnp.asarray(index.index, dtype=jnp.int32)
         slot_u32 = jnp.asarray(index.slot_index, dtype=jnp.uint32)
         safe_slot_u32 = jnp.asarray(
-            jax.lax.select(successful, slot_u32, jnp.uint32(0)),
+            jnp.where(successful, slot_u32, jnp.uint32(0)),
             dtype=jnp.uint32,
         )
         bit = jnp.left_shift(jnp.uint32(1), safe_slot_u32)
         bit = jnp.asarray(
-            jax.lax.select(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
+            jnp.where(successful, bit, jnp.uint32(0)), dtype=jnp.uint32
         )
         table = table.replace(
             bucket_occupancy=table.bucket_occupancy.at[bucket_i32].add(bit)
-- 
2.43.0


From cab9957c1b1c7fb46931cd5cd4f4162c6b4e0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 05/31] fix: parallel_insert gave up on displaced keys while
 slots were free (shared probe budget)

---
 xtructure/hashtable/insert.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 28cecf9..c346e7a 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -184,32 +184,36 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
+    # Each item has its own probe budget: an item that loses its slot to a smaller batch
+    # index late in the loop must still be able to walk its whole probe sequence.
     def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
         _, pending, probes = val
-        return jnp.logical_and(jnp.any(pending), probes < table.max_probes)
+        return jnp.any(jnp.logical_and(pending, probes < table.max_probes))
 
     def _body(
         val: tuple[Any, chex.Array, chex.Array],
     ) -> tuple[Any, chex.Array, chex.Array]:
         idxs, pending, probes = val
-        updated_idxs = _next_idx(idxs, pending)
+        movable = jnp.logical_and(pending, probes < table.max_probes)
+        updated_idxs = _next_idx(idxs, movable)
 
         valid = updated_idxs.slot_index < table.bucket_size
         flat_updated_slots = updated_idxs.index * SIZE_DTYPE(
             table.bucket_size
         ) + updated_idxs.slot_index.astype(SIZE_DTYPE)
 
-        active_for_unique = jnp.logical_and(updatable, valid)
+        # Items that ran out of probes no longer compete for a slot.
+        live = jnp.logical_and(
+            updatable, jnp.logical_or(jnp.logical_not(pending), movable)
+        )
+        active_for_unique = jnp.logical_and(live, valid)
         unique_mask = _resolve_slot_conflicts(flat_updated_slots, active_for_unique)
 
-        next_pending = jnp.logical_or(
-            jnp.logical_and(updatable, jnp.logical_not(unique_mask)),
-            jnp.logical_and(updatable, jnp.logical_not(valid)),
-        )
-        return updated_idxs, next_pending, probes + 1
+        next_pending = jnp.logical_and(updatable, jnp.logical_not(unique_mask))
+        return updated_idxs, next_pending, probes + movable.astype(SIZE_DTYPE)
 
     index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.uint32(0))
+        _cond, _body, (index, pending, jnp.zeros(updatable.shape, dtype=SIZE_DTYPE))
     )
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
-- 
2.43.0


From 31aecd803965ee12dcd2fa0fcb8b7a1ccf5b259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:39 +0000
Subject: [PATCH 06/31] fix: slot indices wrapped at 8 bits for bucket_size >=
 256

---
 xtructure/hashtable/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/hashtable/constants.py b/xtructure/hashtable/constants.py
index 039f80f..64481ba 100644
--- a/xtructure/hashtable/constants.py
+++ b/xtructure/hashtable/constants.py
@@ -1,7 +1,7 @@
 import jax.numpy as jnp
 
 SIZE_DTYPE = jnp.uint32
-SLOT_IDX_DTYPE = jnp.uint8
+SLOT_IDX_DTYPE = jnp.uint32
 DOUBLE_HASH_SECONDARY_DELTA = jnp.uint32(0x9E3779B1)
 FINGERPRINT_MIX_CONSTANT_A = jnp.uint32(0x85EBCA6B)
 FINGERPRINT_MIX_CONSTANT_B = jnp.uint32(0xC2B2AE35)
-- 
2.43.0


From 29ae59022e495624a753aa0bd2ce4e9f3a6f3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 07/31] fix: with a small max_probes, inserts stored keys where
 lookups never look

---
 xtructure/hashtable/insert.py | 39 +++++++++++++++++++++++++----------
 xtructure/hashtable/lookup.py | 13 +++++++-----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index c346e7a..3ff1800 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -112,7 +112,11 @@ def _hashtable_insert_jit(
 
     idx, found, fingerprint = _hashtable_lookup_bucket_jit(table, input)
 
-    is_empty = idx.slot_index >= table.bucket_fill_levels[idx.index]
+    # A lookup that ran out of probes stops on a full bucket.
+    fill_level = table.bucket_fill_levels[idx.index]
+    is_empty = jnp.logical_and(
+        idx.slot_index >= fill_level, fill_level < table.bucket_size
+    )
     can_insert = jnp.logical_and(jnp.logical_not(found), is_empty)
 
     def _no_insert():
@@ -138,6 +142,7 @@ def _hashtable_parallel_insert_internal(
     index: Any,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     capacity = jnp.asarray(table._capacity, dtype=SIZE_DTYPE)
     probe_steps = jnp.asarray(probe_steps, dtype=SIZE_DTYPE)
@@ -184,17 +189,29 @@ def _hashtable_parallel_insert_internal(
         jnp.logical_and(updatable, jnp.logical_not(valid_initial)),
     )
 
-    # Each item has its own probe budget: an item that loses its slot to a smaller batch
-    # index late in the loop must still be able to walk its whole probe sequence.
+    # Each item continues the probe count of its own lookup, and may enter another bucket
+    # exactly when a lookup for it would: nothing is stored where it cannot be found, and an
+    # item displaced by a smaller batch index can still walk its whole probe sequence.
+    max_probes_u32 = SIZE_DTYPE(int(table.max_probes))
+    bucket_size_u32 = SIZE_DTYPE(table.bucket_size)
+
+    def _can_move(idxs: Any, pending: chex.Array, probes: chex.Array) -> chex.Array:
+        in_bucket = idxs.slot_index < (table.bucket_size - 1)
+        return jnp.logical_and(
+            pending, jnp.logical_or(in_bucket, probes < max_probes_u32)
+        )
+
     def _cond(val: tuple[Any, chex.Array, chex.Array]) -> chex.Array:
-        _, pending, probes = val
-        return jnp.any(jnp.logical_and(pending, probes < table.max_probes))
+        idxs, pending, probes = val
+        return jnp.any(_can_move(idxs, pending, probes))
 
     def _body(
         val: tuple[Any, chex.Array, chex.Array],
     ) -> tuple[Any, chex.Array, chex.Array]:
         idxs, pending, probes = val
-        movable = jnp.logical_and(pending, probes < table.max_probes)
+        movable = _can_move(idxs, pending, probes)
+        hops = jnp.logical_and(movable, idxs.slot_index >= (table.bucket_size - 1))
+        probes = probes + hops.astype(SIZE_DTYPE) * bucket_size_u32
         updated_idxs = _next_idx(idxs, movable)
 
         valid = updated_idxs.slot_index < table.bucket_size
@@ -210,11 +227,10 @@ def _hashtable_parallel_insert_internal(
         unique_mask = _resolve_slot_conflicts(flat_updated_slots, active_for_unique)
 
         next_pending = jnp.logical_and(updatable, jnp.logical_not(unique_mask))
-        return updated_idxs, next_pending, probes + movable.astype(SIZE_DTYPE)
+        return updated_idxs, next_pending, probes
 
-    index, pending, _ = jax.lax.while_loop(
-        _cond, _body, (index, pending, jnp.zeros(updatable.shape, dtype=SIZE_DTYPE))
-    )
+    probes = jnp.asarray(probes, dtype=SIZE_DTYPE).reshape(-1)
+    index, pending, _ = jax.lax.while_loop(_cond, _body, (index, pending, probes))
 
     successful = jnp.logical_and(updatable, jnp.logical_not(pending))
     successful = jnp.logical_and(successful, index.slot_index < table.bucket_size)
@@ -445,7 +461,7 @@ def _hashtable_parallel_insert_jit(
         )
 
         initial_found = jnp.logical_not(unique_filled)
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, probes = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idx,
@@ -499,6 +515,7 @@ def _hashtable_parallel_insert_jit(
                 idx,
                 updatable,
                 fingerprints,
+                probes,
             )
 
         cond_found = jnp.asarray(found, dtype=jnp.bool_)
diff --git a/xtructure/hashtable/lookup.py b/xtructure/hashtable/lookup.py
index b514a57..694dd45 100644
--- a/xtructure/hashtable/lookup.py
+++ b/xtructure/hashtable/lookup.py
@@ -95,7 +95,10 @@ def _hashtable_lookup_internal(
         match_slot = cast(jax.Array, jnp.where(found_fast, first_match_slot, match_fb))
 
         bucket_full = filled_limit_u32 == bucket_size_u32
-        should_stop = jnp.logical_or(new_found, jnp.logical_not(bucket_full))
+        out_of_probes = probes + bucket_size_u32 >= max_probes_u32
+        should_stop = jnp.logical_or(
+            jnp.logical_or(new_found, jnp.logical_not(bucket_full)), out_of_probes
+        )
 
         out_slot = cast(jax.Array, jnp.where(new_found, match_slot, filled_limit))
         next_bucket = (bucket_idx + probe_step) & mask
@@ -146,7 +149,7 @@ def _hashtable_lookup_parallel_internal(
     fingerprints: chex.Array,
     founds: chex.Array,
     active: chex.Array | None = None,
-) -> tuple[Any, chex.Array]:
+) -> tuple[Any, chex.Array, chex.Array]:
     if active is None:
         active = jnp.ones(inputs.shape.batch, dtype=jnp.bool_)
 
@@ -293,10 +296,10 @@ def _hashtable_lookup_parallel_internal(
         active = continue_mask
         return idxs, founds, probes, active
 
-    idxs, founds, _, _ = jax.lax.while_loop(
+    idxs, founds, probes, _ = jax.lax.while_loop(
         _cond, _body, (idxs, founds, probes, active)
     )
-    return idxs, founds
+    return idxs, founds, probes
 
 
 @jax.jit
@@ -320,7 +323,7 @@ def _hashtable_lookup_parallel_jit(
         )
         founds = jnp.zeros(batch_size, dtype=jnp.bool_)
 
-        idx, found = _hashtable_lookup_parallel_internal(
+        idx, found, _ = _hashtable_lookup_parallel_internal(
             table,
             inputs,
             idxs,
-- 
2.43.0


From 45aee16257348514b3dba2878ae95fbd32d85132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 08/31] fix: integer unique_key lost precision through float32,
 and masked rows could represent +inf-cost rows

---
 xtructure/hashtable/hash_utils.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 66433c8..63cc181 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -96,6 +96,15 @@ def _first_occurrence_mask(
     return jnp.logical_and(mask, active)
 
 
+def _max_key(dtype: jnp.dtype) -> jax.Array:
+    """Largest value of a unique_key dtype (integer costs stay integers)."""
+    if jnp.issubdtype(dtype, jnp.integer):
+        return jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
+    if dtype == jnp.bool_:
+        return jnp.array(True)
+    return jnp.array(jnp.inf, dtype=dtype)
+
+
 def _compute_unique_mask_from_uint32eds(
     uint32eds: chex.Array,
     filled: chex.Array,
@@ -272,14 +281,15 @@ def _compute_unique_mask_from_uint32eds(
             raise ValueError("unique_key must match uint32eds leading dimension.")
 
         sorted_unique_key = unique_key_arr[sorted_indices]
-        masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+        max_key = _max_key(sorted_unique_key.dtype)
+        masked_key = jnp.where(sorted_filled, sorted_unique_key, max_key)
         min_keys = (
-            jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+            jnp.full((batch_len,), max_key, dtype=masked_key.dtype)
             .at[group_id]
             .min(masked_key)
         )
         candidate_indices = jnp.where(
-            masked_key == min_keys[group_id],
+            jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
             sorted_indices,
             batch_len_i32,
         )
@@ -418,14 +428,15 @@ def _compute_unique_mask_from_hash_pairs(
                 raise ValueError("unique_key must match hash arrays leading dimension.")
 
             sorted_unique_key = unique_key_arr[sorted_indices]
-            masked_key = jnp.where(sorted_filled, sorted_unique_key, jnp.inf)
+            max_key = _max_key(sorted_unique_key.dtype)
+            masked_key = jnp.where(sorted_filled, sorted_unique_key, max_key)
             min_keys = (
-                jnp.full((batch_len,), jnp.inf, dtype=masked_key.dtype)
+                jnp.full((batch_len,), max_key, dtype=masked_key.dtype)
                 .at[group_id]
                 .min(masked_key)
             )
             candidate_indices = jnp.where(
-                masked_key == min_keys[group_id],
+                jnp.logical_and(sorted_filled, masked_key == min_keys[group_id]),
                 sorted_indices,
                 batch_len_i32,
             )
-- 
2.43.0


From 39c907c998188e8063b10342bdeed9a4b2f363e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:50 +0000
Subject: [PATCH 09/31] fix: a masked row hid a hash collision of filled rows
 at the sentinel from safe dedupe

---
 xtructure/hashtable/hash_utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xtructure/hashtable/hash_utils.py b/xtructure/hashtable/hash_utils.py
index 63cc181..213f990 100644
--- a/xtructure/hashtable/hash_utils.py
+++ b/xtructure/hashtable/hash_utils.py
@@ -236,8 +236,12 @@ def _compute_unique_mask_from_uint32eds(
         if _DEDUPE_MODE == "safe":
             sorted_filled_sig = filled[sorted_indices_sig]
             same_sig = jnp.logical_not(row_changed_sig)
-            same_sig = jnp.logical_and(same_sig, sorted_filled_sig[1:])
-            same_sig = jnp.logical_and(same_sig, sorted_filled_sig[:-1])
+            # A filled row whose signature equals the sentinel sorts among the masked rows,
+            # so a masked neighbour must not hide it from the comparison.
+            same_sig = jnp.logical_and(
+                same_sig,
+                jnp.logical_or(sorted_filled_sig[1:], sorted_filled_sig[:-1]),
+            )
             has_sig_dups = jnp.any(same_sig)
 
             def _check_collision(_):
@@ -487,8 +491,11 @@ def _compute_unique_mask_from_hash_pairs(
             sorted_h1[1:] == sorted_h1[:-1],
             sorted_h2[1:] == sorted_h2[:-1],
         )
-        same_pair = jnp.logical_and(same_pair, sorted_filled[1:])
-        same_pair = jnp.logical_and(same_pair, sorted_filled[:-1])
+        # A filled row whose hash pair equals the sentinel sorts among the masked rows,
+        # so a masked neighbour must not hide it from the comparison.
+        same_pair = jnp.logical_and(
+            same_pair, jnp.logical_or(sorted_filled[1:], sorted_filled[:-1])
+        )
         has_dups = jnp.any(same_pair)
 
         def _check_collision(_):
-- 
2.43.0


From 62593dbdbc666cd8d60162ec22f96a687eb4703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 10/31] fix: accelerator slot reservation stores nothing beyond
 max_probes

---
 xtructure/hashtable/insert.py        | 15 +++++++++++++++
 xtructure/hashtable/insert_pallas.py | 14 +++++++++++++-
 xtructure/hashtable/insert_triton.py | 13 +++++++++++--
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/xtructure/hashtable/insert.py b/xtructure/hashtable/insert.py
index 3ff1800..27f3062 100644
--- a/xtructure/hashtable/insert.py
+++ b/xtructure/hashtable/insert.py
@@ -275,6 +275,15 @@ def _hashtable_parallel_insert_internal(
     return table, index, successful
 
 
+def _remaining_probe_buckets(table: Any, probes: chex.Array) -> chex.Array:
+    """Buckets each item may still use: the one its lookup ended in, and those left to probe."""
+    bucket_size_u32 = SIZE_DTYPE(int(table.bucket_size))
+    max_probes_u32 = SIZE_DTYPE(int(table.max_probes))
+    probes = jnp.minimum(jnp.asarray(probes, dtype=SIZE_DTYPE), max_probes_u32)
+    hops = (max_probes_u32 - probes + bucket_size_u32 - 1) // bucket_size_u32
+    return (hops + 1).astype(jnp.int32)
+
+
 def _hashtable_parallel_insert_internal_triton(
     table: Any,
     inputs: Xtructurable,
@@ -282,6 +291,7 @@ def _hashtable_parallel_insert_internal_triton(
     start_bucket_idx: chex.Array,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     bucket_size = int(table.bucket_size)
     capacity = int(table._capacity)
@@ -295,6 +305,7 @@ def _hashtable_parallel_insert_internal_triton(
             updatable,
             bucket_size=bucket_size,
             capacity=capacity,
+            probe_limits=_remaining_probe_buckets(table, probes),
         ),
     )
 
@@ -350,6 +361,7 @@ def _hashtable_parallel_insert_internal_pallas(
     start_bucket_idx: chex.Array,
     updatable: chex.Array,
     fingerprints: chex.Array,
+    probes: chex.Array,
 ) -> tuple[Any, Any, chex.Array]:
     bucket_size = int(table.bucket_size)
     capacity = int(table._capacity)
@@ -365,6 +377,7 @@ def _hashtable_parallel_insert_internal_pallas(
             bucket_size=bucket_size,
             capacity=capacity,
             backend="mosaic_tpu",
+            probe_limits=_remaining_probe_buckets(table, probes),
         ),
     )
 
@@ -494,6 +507,7 @@ def _hashtable_parallel_insert_jit(
                     idx.index,
                     updatable,
                     fingerprints,
+                    probes,
                 )
             )
         elif use_pallas:
@@ -505,6 +519,7 @@ def _hashtable_parallel_insert_jit(
                     idx.index,
                     updatable,
                     fingerprints,
+                    probes,
                 )
             )
         else:
diff --git a/xtructure/hashtable/insert_pallas.py b/xtructure/hashtable/insert_pallas.py
index 9e3034e..e04148f 100644
--- a/xtructure/hashtable/insert_pallas.py
+++ b/xtructure/hashtable/insert_pallas.py
@@ -118,6 +118,7 @@ def _get_reserve_slots_fn(
         start_buckets: chex.Array,
         probe_steps: chex.Array,
         active: chex.Array,
+        probe_limits: chex.Array,
     ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array, chex.Array]:
         batch = int(start_buckets.shape[0])
         if batch == 0:
@@ -215,6 +216,7 @@ def _get_reserve_slots_fn(
             ins = jnp.logical_or(ins, newly_inserted)
 
             pending = jnp.logical_and(pending, jnp.logical_not(inserted_round))
+            pending = jnp.logical_and(pending, rounds + 1 < probe_limits)
             cur_bucket = jnp.where(
                 pending, jnp.bitwise_and(cur_bucket + probe_steps, cap_mask), cur_bucket
             )
@@ -251,6 +253,7 @@ def reserve_slots_pallas(
     bucket_size: int,
     capacity: int,
     backend: str,
+    probe_limits: chex.Array | None = None,
 ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array, chex.Array]:
     cfg_max = _parse_max_probe_buckets(int(capacity))
     fn = _get_reserve_slots_fn(
@@ -259,4 +262,13 @@ def reserve_slots_pallas(
         max_probe_buckets=int(cfg_max),
         backend=str(backend),
     )
-    return fn(bucket_fill_levels, bucket_occupancy, start_buckets, probe_steps, active)
+    if probe_limits is None:
+        probe_limits = jnp.full(start_buckets.shape, int(capacity), dtype=jnp.int32)
+    return fn(
+        bucket_fill_levels,
+        bucket_occupancy,
+        start_buckets,
+        probe_steps,
+        active,
+        probe_limits,
+    )
diff --git a/xtructure/hashtable/insert_triton.py b/xtructure/hashtable/insert_triton.py
index 6296b12..42117a9 100644
--- a/xtructure/hashtable/insert_triton.py
+++ b/xtructure/hashtable/insert_triton.py
@@ -69,6 +69,7 @@ def _make_reserve_slots_kernel(
         start_bucket_ref,
         probe_step_ref,
         active_ref,
+        probe_limit_ref,
         occ_ref,
         out_bucket_ref,
         out_slot_ref,
@@ -78,12 +79,15 @@ def _make_reserve_slots_kernel(
         is_active = jnp.asarray(active_ref[pid], dtype=jnp.bool_)
         start_bucket = jnp.asarray(start_bucket_ref[pid], dtype=jnp.uint32)
         step = jnp.asarray(probe_step_ref[pid], dtype=jnp.uint32)
+        probe_limit = jnp.minimum(
+            jnp.asarray(probe_limit_ref[pid], dtype=jnp.int32), max_probe_buckets
+        )
 
         def _outer_cond(state):
             probe, _bucket, inserted, _slot = state
             return jnp.logical_and(
                 jnp.logical_and(is_active, jnp.logical_not(inserted)),
-                probe < max_probe_buckets,
+                probe < probe_limit,
             )
 
         def _outer_body(state):
@@ -176,6 +180,7 @@ def _get_reserve_slots_fn(
         start_buckets: chex.Array,
         probe_steps: chex.Array,
         active: chex.Array,
+        probe_limits: chex.Array,
     ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array]:
         batch = int(start_buckets.shape[0])
         occ_shape = jax.ShapeDtypeStruct(bucket_occupancy.shape, bucket_occupancy.dtype)
@@ -197,6 +202,7 @@ def _get_reserve_slots_fn(
             start_buckets,
             probe_steps,
             active,
+            probe_limits,
         )
         return occ_out, out_bucket, out_slot, inserted
 
@@ -211,6 +217,7 @@ def reserve_slots_triton(
     *,
     bucket_size: int,
     capacity: int,
+    probe_limits: chex.Array | None = None,
 ) -> Tuple[chex.Array, chex.Array, chex.Array, chex.Array]:
     if jax.default_backend() != "gpu":
         raise ValueError("reserve_slots_triton requires a GPU backend.")
@@ -237,4 +244,6 @@ def reserve_slots_triton(
         num_warps=num_warps,
         num_stages=num_stages,
     )
-    return fn(bucket_occupancy, start_buckets, probe_steps, active)
+    if probe_limits is None:
+        probe_limits = jnp.full(start_buckets.shape, int(capacity), dtype=jnp.int32)
+    return fn(bucket_occupancy, start_buckets, probe_steps, active, probe_limits)
-- 
2.43.0


From 28675bb859790226a4a1d6b2cbc396821bb8b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 11/31] fix: to_uint8 raised on an empty array for
 block-aligned widths

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index 36bf01b..c23ba07 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -156,6 +156,8 @@ def to_uint8(values: chex.Array, active_bits: int = 1) -> chex.Array:
     )
 
     values_flat = values.reshape((-1,))
+    if values_flat.size == 0:
+        return jnp.zeros((0,), dtype=jnp.uint8)
 
     # Fast path for byte-aligned packing.
     if active_bits == 8:
-- 
2.43.0


From 4d5f5ae0056648c9ebc764728926c136d7d35219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 12/31] fix: from_uint8 of an empty array had the wrong dtype
 above 8 bits

---
 .../core/xtructure_decorators/aggregate_bitpack/bitpack.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
index c23ba07..68cd006 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/bitpack.py
@@ -224,7 +224,9 @@ def from_uint8(
         # Preserve dtype semantics even for empty tensors.
         if active_bits == 1:
             return jnp.zeros(target_shape, dtype=jnp.bool_)
-        return jnp.zeros(target_shape, dtype=jnp.uint8)
+        return jnp.zeros(
+            target_shape, dtype=jnp.uint8 if active_bits <= 8 else jnp.uint32
+        )
 
     if active_bits == 1:
         bits = jnp.unpackbits(
-- 
2.43.0


From b46b4582e6946373a293d4bf50a413dcfab14b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:37 +0000
Subject: [PATCH 13/31] fix: unpack_field slices did not follow Python slice
 semantics and read other fields

---
 .../core/xtructure_decorators/aggregate_bitpack/__init__.py   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
index 09c31f4..4c01986 100644
--- a/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
+++ b/xtructure/core/xtructure_decorators/aggregate_bitpack/__init__.py
@@ -260,9 +260,7 @@ def add_aggregate_bitpack(cls: Type[T]) -> Type[T]:
         if indices is None:
             return jnp.arange(nvalues, dtype=jnp.int32)
         if isinstance(indices, slice):
-            start = 0 if indices.start is None else int(indices.start)
-            stop = nvalues if indices.stop is None else int(indices.stop)
-            step = 1 if indices.step is None else int(indices.step)
+            start, stop, step = indices.indices(nvalues)
             return jnp.arange(start, stop, step, dtype=jnp.int32)
         if isinstance(indices, (list, tuple, np.ndarray)):
             return jnp.asarray(indices, dtype=jnp.int32).reshape((-1,))
-- 
2.43.0


From b7faf6ae89681c5034d8a7b4803ef65698bdf145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 14/31] fix: records equal up to the sign of zero hashed
 differently

---
 xtructure/core/xtructure_decorators/hash.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xtructure/core/xtructure_decorators/hash.py b/xtructure/core/xtructure_decorators/hash.py
index a13e461..b070031 100644
--- a/xtructure/core/xtructure_decorators/hash.py
+++ b/xtructure/core/xtructure_decorators/hash.py
@@ -217,6 +217,8 @@ def byterize_hash_func_builder(x: Xtructurable):
                 return _split_uint64_to_uint32(leaf.astype(jnp.uint64))
 
         if jnp.issubdtype(dtype, jnp.floating):
+            # -0.0 == 0.0, so both must hash alike.
+            leaf = jnp.where(leaf == 0, jnp.zeros_like(leaf), leaf)
             if dtype == jnp.float32:
                 return jax.lax.bitcast_convert_type(leaf, jnp.uint32).reshape(-1)
             if dtype == jnp.float64:
-- 
2.43.0


From ac6fffd0dc2716014f27ad255bd400a6accbf03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 15/31] fix: concat with a negative axis joined tensor fields
 along their own dimensions

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index 56913bf..be03076 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -66,7 +66,7 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
         first_batch_shape = dataclasses[0].shape.batch
         concat_axis_adjusted = axis if axis >= 0 else len(first_batch_shape) + axis
 
-        if concat_axis_adjusted >= len(first_batch_shape):
+        if not 0 <= concat_axis_adjusted < len(first_batch_shape):
             raise ValueError(
                 f"Concatenation axis {axis} is out of bounds for batch shape {first_batch_shape}"
             )
@@ -85,7 +85,8 @@ def concat(dataclasses: List[T], axis: int = 0) -> T:
                     )
 
         return jax.tree_util.tree_map(
-            lambda *arrays: jnp.concatenate(arrays, axis=axis), *dataclasses
+            lambda *arrays: jnp.concatenate(arrays, axis=concat_axis_adjusted),
+            *dataclasses,
         )
 
     raise ValueError(
-- 
2.43.0


From 655b8e5a990747952561390e56ea9d3455863f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 16/31] fix: stack with a negative axis put the new axis behind
 the fields' own dimensions

---
 xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
index be03076..0c509e6 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/batch_ops.py
@@ -175,6 +175,10 @@ def stack(dataclasses: List[T], axis: int = 0) -> T:
     if not dataclasses:
         raise ValueError("Cannot stack empty list of dataclasses")
 
+    if axis < 0 and dataclasses[0].shape.batch != -1:
+        # A negative axis counts from the end of the new batch shape.
+        axis += len(dataclasses[0].shape.batch) + 1
+
     if len(dataclasses) == 1:
         return jax.tree_util.tree_map(
             lambda x: jnp.expand_dims(x, axis=axis), dataclasses[0]
-- 
2.43.0


From 7951378ed2c275d83ab8eb9191f09e8e190cd5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:49 +0000
Subject: [PATCH 17/31] fix: take on a dataclass defaults to axis 0 as
 documented instead of flattening every field

---
 xtructure/core/xtructure_numpy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtructure/core/xtructure_numpy/__init__.py b/xtructure/core/xtructure_numpy/__init__.py
index a932779..08cc032 100644
--- a/xtructure/core/xtructure_numpy/__init__.py
+++ b/xtructure/core/xtructure_numpy/__init__.py
@@ -136,6 +136,7 @@ def take(
 ):
     if _is_xtructurable(a):
         _reject_dataclass_kwargs("take", out=out)
+        axis = 0 if axis is None else axis
         return jax.tree_util.tree_map(
             lambda x: jnp.take(
                 x,
-- 
2.43.0


From e13bf21241bf58b5cceee6e5f15b3663cb69535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 18/31] fix: broadcast_to takes the target batch shape, also
 for classes with tensor fields

---
 .../core/xtructure_numpy/dataclass_ops/shape_ops.py      | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
index 4521966..3e6a44f 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/shape_ops.py
@@ -191,7 +191,14 @@ def moveaxis(
 
 
 def broadcast_to(array: T, shape: Sequence[int]) -> T:
-    """Broadcast an array to a new shape."""
+    """Broadcast an array to a new batch shape."""
+    batch_shape = array.shape.batch
+    if batch_shape != -1:
+        batch_dim = len(batch_shape)
+        return jax.tree_util.tree_map(
+            lambda x: jnp.broadcast_to(x, tuple(shape) + jnp.shape(x)[batch_dim:]),
+            array,
+        )
     return jax.tree_util.tree_map(lambda x: jnp.broadcast_to(x, shape=shape), array)
 
 
-- 
2.43.0


From 33e8ae234c0a8defe533b62a2372d46d70119bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 19/31] fix: where with one flag per record misaligned tensor
 fields

---
 .../core/xtructure_numpy/dataclass_ops/logical_ops.py      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
index fc4461c..00b3296 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/logical_ops.py
@@ -16,10 +16,17 @@ def where(
 ) -> Xtructurable:
     """Apply jnp.where across every field of a dataclass."""
     condition_array = jnp.asarray(condition, dtype=jnp.bool_)
+    # One flag per record selects whole records, whatever the shapes of the fields.
+    per_record = condition_array.shape == x.shape.batch
 
     def _align_condition(target_shape: tuple[int, ...]) -> jnp.ndarray:
         if condition_array.shape == target_shape:
             return condition_array
+        if per_record and len(target_shape) > condition_array.ndim:
+            extra = (1,) * (len(target_shape) - condition_array.ndim)
+            return jnp.broadcast_to(
+                condition_array.reshape(condition_array.shape + extra), target_shape
+            )
         try:
             return jnp.broadcast_to(condition_array, target_shape)
         except ValueError as err:
-- 
2.43.0


From c968df21fb12b1d631b5d9328c6256ccb1f6253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 20/31] fix: out-of-bounds tuple indices of a conditional
 update wrote to a clipped position

---
 xtructure/core/xtructure_numpy/array_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index aebea61..d500025 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -27,6 +27,12 @@ def _update_array_on_condition(
         reshaped_array = original_array.reshape((flat_batch_size, *item_shape))
 
         raveled_indices = jnp.ravel_multi_index(indices, batch_shape, mode="clip")
+        # Out-of-bounds positions are dropped, as for 1D indices.
+        for index, dim in zip(indices, batch_shape):
+            index = jnp.asarray(index)
+            raveled_indices = jnp.where(
+                (index >= 0) & (index < dim), raveled_indices, flat_batch_size
+            )
 
         result = _update_array_on_condition(
             reshaped_array, raveled_indices, condition, values_to_set
-- 
2.43.0


From 80a58cbda82390c95207e21d53d4aea796113c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:31 +0000
Subject: [PATCH 21/31] fix: conditional update with 8- or 16-bit indices
 failed on arrays longer than their range

---
 xtructure/core/xtructure_numpy/array_ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index d500025..586334c 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -51,6 +51,12 @@ def _update_array_on_condition(
         )
 
     indices_array = jnp.reshape(indices_array, (num_updates,))
+    if (
+        jnp.issubdtype(indices_array.dtype, jnp.integer)
+        and jnp.dtype(indices_array.dtype).itemsize < 4
+    ):
+        # 8- and 16-bit indices cannot hold the out-of-bounds marker of a long array.
+        indices_array = indices_array.astype(jnp.int32)
     index_dtype = indices_array.dtype
     invalid_index = jnp.array(original_array.shape[0], dtype=index_dtype)
 
-- 
2.43.0


From 7502933cf047890ada962d33774bf21a714badfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 22/31] fix: a conditional update through a slice silently
 changed nothing

---
 xtructure/core/xtructure_numpy/array_ops.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xtructure/core/xtructure_numpy/array_ops.py b/xtructure/core/xtructure_numpy/array_ops.py
index 586334c..e48bc45 100644
--- a/xtructure/core/xtructure_numpy/array_ops.py
+++ b/xtructure/core/xtructure_numpy/array_ops.py
@@ -16,6 +16,19 @@ def _update_array_on_condition(
 
     This is an internal utility function for array-level conditional updates.
     """
+    # A slice selects every position at most once: choose inside the selected region.
+    basic = indices if isinstance(indices, tuple) else (indices,)
+    if any(isinstance(i, slice) for i in basic) and all(
+        isinstance(i, (int, slice)) for i in basic
+    ):
+        region = original_array[indices]
+        condition = jnp.asarray(condition, dtype=jnp.bool_)
+        condition = condition.reshape(
+            condition.shape + (1,) * (region.ndim - condition.ndim)
+        )
+        values = jnp.asarray(values_to_set, dtype=original_array.dtype)
+        return original_array.at[indices].set(jnp.where(condition, values, region))
+
     # For advanced indexing, reshape the array to flatten the batch dimensions
     # and compute on the flattened version, then reshape back.
     if isinstance(indices, tuple) and hasattr(original_array, "shape"):
-- 
2.43.0


From aec8d14bae995e241c163ef1dc2ee53a80156a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 23/31] fix: unique_mask lost or misattributed a valid all-ones
 row next to unfilled rows

---
 .../unique_ops/optimized_unique_ops.py         | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index d376481..9446426 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -155,22 +155,11 @@ def unique_mask(
         finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
         effective_filled = jnp.logical_and(effective_filled, finite_key)
 
-    # 4. Handle filled: invalid items get MAX_KEY so they sort to the end
-    for i in range(len(hashes)):
-        dtype = hashes[i].dtype
-        if jnp.issubdtype(dtype, jnp.integer) or dtype == jnp.bool_:
-            max_val = jnp.array(jnp.iinfo(dtype).max, dtype=dtype)
-        elif jnp.issubdtype(dtype, jnp.floating):
-            max_val = jnp.array(jnp.finfo(dtype).max, dtype=dtype)
-        else:
-            raise TypeError(f"Unsupported key dtype for unique_mask: {dtype}")
-        hashes[i] = jnp.where(effective_filled, hashes[i], max_val)
-
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
         return perm_in[order]
 
-    # 5. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
+    # 4. Stable multi-pass argsort to avoid lexsort / multi-key lax.sort.
     # Start perm as arange to get smallest-index tie-breaking for free.
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
@@ -184,6 +173,9 @@ def unique_mask(
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
 
+    # 5. Invalid items sort to the end, behind every valid item.
+    perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
+
     # 6. Compute unique mask from sorted hashes
     sorted_hashes = [h[perm] for h in hashes]
 
@@ -195,7 +187,7 @@ def unique_mask(
 
     mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
 
-    # 7. Filter out the invalid group
+    # 7. Filter out the invalid items
     is_valid_sorted = effective_filled[perm]
     mask_sorted = jnp.logical_and(mask_sorted, is_valid_sorted)
 
-- 
2.43.0


From 2ce6d1cc775d3e2f29cb43457d789784f9f9bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 24/31] fix: unique_mask raised OverflowError for an integer
 key

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py   | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index 9446426..f4884f0 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -152,8 +152,9 @@ def unique_mask(
     if key is not None:
         key_arr = jnp.asarray(key)
         # Docstring semantics: entries with +inf cost are excluded.
-        finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
-        effective_filled = jnp.logical_and(effective_filled, finite_key)
+        if jnp.issubdtype(key_arr.dtype, jnp.floating):
+            finite_key = key_arr < jnp.array(jnp.inf, dtype=key_arr.dtype)
+            effective_filled = jnp.logical_and(effective_filled, finite_key)
 
     def _stable_sort_perm(perm_in: jax.Array, key_1d: jax.Array) -> jax.Array:
         order = jnp.argsort(key_1d[perm_in], stable=True)
@@ -164,10 +165,7 @@ def unique_mask(
     perm = jnp.arange(batch_len_i, dtype=jnp.int32)
 
     if key is not None:
-        key_arr2 = jnp.asarray(key)
-        inf_fill = jnp.array(jnp.inf, dtype=key_arr2.dtype)
-        valid_key = jnp.where(effective_filled, key_arr2, inf_fill)
-        perm = _stable_sort_perm(perm, valid_key)
+        perm = _stable_sort_perm(perm, jnp.asarray(key))
 
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
-- 
2.43.0


From b24567abfb926c2db5989d3629086cdaa6cfc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 25/31] fix: unique_mask ignored the tail bytes of
 aggregate-packed records

---
 .../dataclass_ops/unique_ops/optimized_unique_ops.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index f4884f0..e628a6a 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -108,7 +108,9 @@ def unique_mask(
         def _key_fn(x):
             # Prefer aggregate-packed representation if available for density
             if hasattr(x, "packed") and hasattr(x, "bitpack_schema"):
-                return x.packed.words
+                # The whole storage: words and the bytes behind them.
+                packed = x.packed
+                return jnp.concatenate([packed.words, packed.tail.astype(jnp.uint32)])
             return x.uint32ed
 
         key_fn_local = _key_fn
-- 
2.43.0


From a867e549cce6a6aa7ba95d8ba6977f5590ba27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:39 +0000
Subject: [PATCH 26/31] fix: unique_mask merged distinct records whose wide
 hashes collide

---
 .../unique_ops/optimized_unique_ops.py        | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
index e628a6a..8cbc9b1 100644
--- a/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
+++ b/xtructure/core/xtructure_numpy/dataclass_ops/unique_ops/optimized_unique_ops.py
@@ -169,21 +169,42 @@ def unique_mask(
     if key is not None:
         perm = _stable_sort_perm(perm, jnp.asarray(key))
 
+    cost_perm = perm
+
     # Hash keys: least significant first so the first hash becomes most significant.
     for h in reversed(hashes):
         perm = _stable_sort_perm(perm, h)
 
     # 5. Invalid items sort to the end, behind every valid item.
-    perm = _stable_sort_perm(perm, jnp.logical_not(effective_filled))
+    invalid = jnp.logical_not(effective_filled)
+    perm = _stable_sort_perm(perm, invalid)
+
+    num_cols = keys_flat.shape[1]
+    if num_cols > len(hashes):
+        # The wide hash may collide: if valid neighbors share a hash but not the key,
+        # sort on the key columns themselves.
+        sorted_keys = keys_flat[perm]
+        collided = jnp.any(sorted_keys[1:] != sorted_keys[:-1], axis=1)
+        for h in hashes:
+            collided = jnp.logical_and(collided, h[perm][1:] == h[perm][:-1])
+        collided = jnp.logical_and(collided, effective_filled[perm][1:])
+
+        def _sort_by_key_columns(_):
+            def _step(i, p):
+                return _stable_sort_perm(p, jnp.take(keys_flat, num_cols - 1 - i, axis=1))
+
+            return _stable_sort_perm(
+                lax.fori_loop(0, num_cols, _step, cost_perm), invalid
+            )
 
-    # 6. Compute unique mask from sorted hashes
-    sorted_hashes = [h[perm] for h in hashes]
+        hash_perm = perm
+        perm = lax.cond(
+            jnp.any(collided), _sort_by_key_columns, lambda _: hash_perm, None
+        )
 
-    # Row i is unique if it differs from i-1 in ANY of the hashes
-    diffs = [h[1:] != h[:-1] for h in sorted_hashes]
-    is_diff = diffs[0]
-    for d in diffs[1:]:
-        is_diff = jnp.logical_or(is_diff, d)
+    # 6. Compute unique mask: row i is unique if it differs from row i-1
+    sorted_keys = keys_flat[perm]
+    is_diff = jnp.any(sorted_keys[1:] != sorted_keys[:-1], axis=1)
 
     mask_sorted = jnp.concatenate([jnp.array([True]), is_diff])
 
-- 
2.43.0


From 26dd347bcc5a3a923ac815b6e1787c701768b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 27/31] fix: loading a bfloat16 field failed, .npz keeps only
 its raw bytes

---
 xtructure/io/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xtructure/io/io.py b/xtructure/io/io.py
index 11679a2..17997a1 100644
--- a/xtructure/io/io.py
+++ b/xtructure/io/io.py
@@ -145,7 +145,11 @@ def _unflatten_data_for_load(
                 field_values[field_name] = unpacked
             elif full_key in data:
                 # Load JAX array from NumPy array
-                field_values[field_name] = jnp.array(data[full_key])
+                array = np.asarray(data[full_key])
+                if array.dtype.kind == "V" and field_descriptor is not None:
+                    # .npz stores bfloat16 and other extended dtypes as raw bytes.
+                    array = array.view(jnp.dtype(field_descriptor.dtype))
+                field_values[field_name] = jnp.array(array)
     return field_values
 
 
-- 
2.43.0


From 7df8ba0f76f3828c3a5bc40c95bb957e81c7c744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 28/31] fix: the default fill of an unsigned field did not fit
 its declared bits

---
 xtructure/core/field_descriptors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xtructure/core/field_descriptors.py b/xtructure/core/field_descriptors.py
index 59cf579..4d31d6f 100644
--- a/xtructure/core/field_descriptors.py
+++ b/xtructure/core/field_descriptors.py
@@ -129,6 +129,13 @@ class FieldDescriptor:
             self.fill_value = None
         else:
             self.fill_value = _default_fill_value_for_dtype(dtype)
+            if (
+                bits is not None
+                and isinstance(self.fill_value, int)
+                and self.fill_value >> bits
+            ):
+                # The default must survive packing: the largest value the field can hold.
+                self.fill_value = (1 << bits) - 1
         self.intrinsic_shape: Tuple[int, ...] = intrinsic_shape
 
     def __repr__(self) -> str:
-- 
2.43.0


From b7ce01d5b1135e8af83ceb4dd7be544775e9078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 29/31] fix: shape of an instance holding an unstructured
 nested instance is unstructured

Reading .shape raised TypeError when a nested instance in a field with a declared
shape was itself UNSTRUCTURED (its batch is -1, which cannot be sliced).
---
 xtructure/core/xtructure_decorators/shape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtructure/core/xtructure_decorators/shape.py b/xtructure/core/xtructure_decorators/shape.py
index b6511dc..99d81d7 100644
--- a/xtructure/core/xtructure_decorators/shape.py
+++ b/xtructure/core/xtructure_decorators/shape.py
@@ -79,7 +79,10 @@ def add_shape_dtype_len(cls: Type[T]) -> Type[T]:
                 and shape.__class__.__name__ == "shape"
             ):
                 # If the field is itself a xtructure_dataclass (nested shape_tuple)
-                if default_shape_field == ():
+                if shape.batch == -1:
+                    # The nested instance itself is unstructured.
+                    batch_shapes.append(-1)
+                elif default_shape_field == ():
                     batch_shapes.append(shape.batch)
                     shape = shape.__class__((), *shape[1:])
                 elif shape.batch[-len(default_shape_field) :] == default_shape_field:
-- 
2.43.0


From e445d25cfd1ce636a1195779b3b1eb60f99bc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 30/31] fix: round the hash table storage up

With hash_size_multiplier=1 rounding down could leave fewer slots than the
requested capacity.
---
 xtructure/hashtable/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xtructure/hashtable/table.py b/xtructure/hashtable/table.py
index 97a227f..a4c4eab 100644
--- a/xtructure/hashtable/table.py
+++ b/xtructure/hashtable/table.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 from functools import partial
 from typing import Any, cast
 
@@ -29,7 +30,8 @@ def _hashtable_build_jit(
     hash_size_multiplier: int = 2,
     max_probes: int | None = None,
 ) -> "HashTable":
-    _target_cap = int(hash_size_multiplier * capacity / bucket_size)
+    # Round up: rounding down could leave fewer slots than `capacity`.
+    _target_cap = math.ceil(hash_size_multiplier * capacity / bucket_size)
     if _target_cap <= 1:
         _capacity = 1
     else:
-- 
2.43.0


From 698f4796f027b1f57504270d18050bcaa928ea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 31/31] fix: from_tuple restores the instance given by to_tuple

The zip object was passed as the first field instead of as keyword arguments.
---
 xtructure/core/dataclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtructure/core/dataclass.py b/xtructure/core/dataclass.py
index 7c1395f..30dc41f 100644
--- a/xtructure/core/dataclass.py
+++ b/xtructure/core/dataclass.py
@@ -125,7 +125,7 @@ class _Dataclass:
             )
 
         def _from_tuple(args):
-            return dcls(zip(dcls.__dataclass_fields__.keys(), args))
+            return dcls(**dict(zip(dcls.__dataclass_fields__.keys(), args)))
 
         def _to_tuple(self):
             return tuple(getattr(self, k) for k in self.__dataclass_fields__.keys())
-- 
2.43.0

