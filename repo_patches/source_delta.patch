From 4d6d807575b59224a1549152053e628075a4291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 01/31] fix: keep accumulators whose first entry merely equals
 the default in NumPyCombiner

min/max accumulators hold [-min, max]. A batch made only of +inf (or of the
dtype's maximum for integers) has -min equal to the default value, and the whole
accumulator was discarded together with its max, so tft.max depended on how the
input was batched. An accumulator is only empty if all of its entries are.
---
 tensorflow_transform/analyzers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 2caa9ad..49789bb 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -286,6 +286,11 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def _is_default_sub_accumulator(self, array):
         raise NotImplementedError("Implementation should be set in __init__.")
 
+    def _is_default_accumulator(self, accumulator):
+        # A single subaccumulator may be equal to the default value even though the
+        # accumulator has observed inputs (e.g. -min of a batch of infinities).
+        return all(map(self._is_default_sub_accumulator, accumulator))
+
     def create_accumulator(self):
         return [self._create_sub_accumulator(shape) for shape in self._output_shapes]
 
@@ -300,9 +305,9 @@ class NumPyCombiner(analyzer_nodes.Combiner):
     def add_input(self, accumulator, batch_values):
         # TODO(b/112414577): Go back to accepting only a single input.
         # See comment in _numeric_combine.
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
-        if self._is_default_sub_accumulator(accumulator[0]):
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
+        if self._is_default_accumulator(accumulator):
             return batch_values
         else:
             return [
@@ -311,12 +316,12 @@ class NumPyCombiner(analyzer_nodes.Combiner):
             ]
 
     def merge_accumulators(self, accumulators):
-        # If the first subaccumulator is default, then the accumulator is default
-        # and can be discarded.
+        # If all subaccumulators are default, then the accumulator is default and
+        # can be discarded.
         non_default_accumulators = [
             accumulator
             for accumulator in accumulators
-            if not self._is_default_sub_accumulator(accumulator[0])
+            if not self._is_default_accumulator(accumulator)
         ]
         if non_default_accumulators:
             return [
-- 
2.43.0


From 7bc3fc98709347316b6c1f64b59b8039392082b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 02/31] fix: ignore non-finite values in the elementwise
 variance of sparse tensors

---
 tensorflow_transform/tf_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 2876c16..fd32575 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1072,16 +1072,21 @@ def _reduce_batch_count_mean_and_var_sparse(
 ) -> Tuple[tf.Tensor, tf.Tensor, tf.Tensor]:
     """Computes elementwise count, mean and var for the given sparse tensor."""
     x_count = tf.cast(reduce_batch_count(x, reduce_instance_dims=False), x.dtype)
+    x_is_finite = _is_finite(x.values)
+    zeros_like_values = tf.zeros_like(x.values)
     finite_x = tf.SparseTensor(
         indices=x.indices,
-        values=tf.where(_is_finite(x.values), x.values, tf.zeros_like(x.values)),
+        values=tf.where(x_is_finite, x.values, zeros_like_values),
         dense_shape=x.dense_shape,
     )
     x_sum = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_sum, finite_x)
     x_mean = tf.math.divide_no_nan(x_sum, x_count)
     x_minus_mean = tf.sparse.add(finite_x, -tf.broadcast_to(x_mean, tf.shape(x)))
+    # Non-finite values don't contribute to the variance.
     x_minus_mean_sparse = tf.SparseTensor(
-        x.indices, tf.gather_nd(x_minus_mean, x.indices), x.dense_shape
+        x.indices,
+        tf.where(x_is_finite, tf.gather_nd(x_minus_mean, x.indices), zeros_like_values),
+        x.dense_shape,
     )
     sum_of_squares = tf.math.reduce_sum(
         tf.square(tf.sparse.to_dense(x_minus_mean_sparse)), axis=0
-- 
2.43.0


From abf94e1acc128f38d737c181a67f74e2dbb00710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/31] fix: keep the shape of an all-missing column when
 merging with an empty mean/var accumulator

---
 tensorflow_transform/analyzers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 49789bb..557223c 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -1450,7 +1450,8 @@ class WeightedMeanAndVarCombiner(analyzer_nodes.Combiner):
             a, b = b, a
 
         if np.sum(a.count) == 0:
-            return b
+            # Neither side has observed a value, keep the widest of the two.
+            return a if np.size(a.mean) > np.size(b.mean) else b
 
         a_count, b_count = _pad_arrays_to_match(a.count, b.count)
         a_mean, b_mean = _pad_arrays_to_match(a.mean, b.mean)
-- 
2.43.0


From d077b40b491ec2b6c99366932f3be40746217864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 04/31] fix: make elementwise min/max of sparse tensors
 independent of which batch holds a non-finite value

---
 tensorflow_transform/tf_utils.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index fd32575..d838ab0 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1952,12 +1952,22 @@ def _sparse_minus_reduce_min_and_reduce_max(
     ------
       TypeError: If the type of `x` is not supported.
     """
-    minus_x = tf.SparseTensor(
-        indices=x.indices, values=0 - x.values, dense_shape=x.dense_shape
-    )
-    x_count = reduce_batch_count(x, reduce_instance_dims=False)
+    if x.dtype.is_floating:
+        # NaN stands for a missing value, and infinities are values.
+        is_nan = tf.math.is_nan(x.values)
+        lowest = tf.fill(tf.shape(x.values), tf.constant(-float("inf"), x.dtype))
+        has_value = x.with_values(tf.cast(tf.logical_not(is_nan), tf.int64))
+        minus_x = x.with_values(tf.where(is_nan, lowest, 0 - x.values))
+        x_max_candidates = x.with_values(tf.where(is_nan, lowest, x.values))
+        x_count = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_sum, has_value)
+    else:
+        minus_x = x.with_values(0 - x.values)
+        x_max_candidates = x
+        x_count = reduce_batch_count(x, reduce_instance_dims=False)
     batch_has_no_values = tf.equal(x_count, tf.constant(0, dtype=tf.int64))
-    x_batch_max = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_max, x)
+    x_batch_max = _sparse_reduce_batch_keep_shape(
+        tf.sparse.reduce_max, x_max_candidates
+    )
     x_batch_minus_min = _sparse_reduce_batch_keep_shape(tf.sparse.reduce_max, minus_x)
     missing_value = _get_missing_value(x.dtype)
     x_batch_max = tf.where(
-- 
2.43.0


From 33dcc09e6f5df87e7dd50b4acda10eb8097a62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 05/31] fix: allow a Context to be entered on a thread that did
 not construct it

---
 tensorflow_transform/beam/context.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tensorflow_transform/beam/context.py b/tensorflow_transform/beam/context.py
index 3d7f9e5..d8381ab 100644
--- a/tensorflow_transform/beam/context.py
+++ b/tensorflow_transform/beam/context.py
@@ -89,13 +89,6 @@ class Context:
         force_tf_compat_v1: Optional[bool] = None,
         save_options: Optional[tf.saved_model.SaveOptions] = None,
     ):
-        state = getattr(self._thread_local, "state", None)
-        if not state:
-            self._thread_local.state = self._StateStack()
-            self._thread_local.state.frames.append(
-                self._State(*(None,) * len(dataclasses.fields(self._State)))
-            )
-
         self._temp_dir = temp_dir
         self._desired_batch_size = desired_batch_size
         self._passthrough_keys = passthrough_keys
@@ -104,6 +97,15 @@ class Context:
         self._save_options = save_options
 
     def __enter__(self):
+        # The state belongs to the thread that enters the context, which may not be
+        # the thread that constructed it.
+        state = getattr(self._thread_local, "state", None)
+        if not state:
+            self._thread_local.state = self._StateStack()
+            self._thread_local.state.frames.append(
+                self._State(*(None,) * len(dataclasses.fields(self._State)))
+            )
+
         # Previous State's properties are inherited if not explicitly specified.
         last_frame = self._get_topmost_state_frame()
         self._thread_local.state.frames.append(
-- 
2.43.0


From cba50a922be49fddabccfc0a1d4417bef69d7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 06/31] fix: include the op type in the analyzer cache hash of
 a graph path

mean(log(x)) and mean(exp(x)), or x + 2 and x * 2, had the same cache entry
key, because only the attributes and inputs of an op were hashed.
---
 tensorflow_transform/graph_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 0792016..18333da 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -953,7 +953,7 @@ def describe_path_as_analyzer_cache_hash(
         return None
 
     if isinstance(x, tf.Operation):
-        values = _serialize_op_attr(x.node_def.attr)
+        values = [x.type] + _serialize_op_attr(x.node_def.attr)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From a53525bd984d0a6f03480398f033f6c28695d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 07/31] fix: distinguish quantiles sketches with different
 parameters in the cache key

tft.quantiles with and without reduce_instance_dims, or with another epsilon,
shared a cache entry although their sketches cannot be exchanged.
---
 tensorflow_transform/analyzers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 557223c..56831e8 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2427,6 +2427,13 @@ class QuantilesCombiner(analyzer_nodes.Combiner):
             self._output_shape = output_shape
         self._num_features = np.prod(feature_shape, dtype=np.int64).item()
 
+    def __repr__(self):
+        # The representation is part of the cache key, and sketches with other
+        # parameters are not interchangeable.
+        return "<{}[epsilon={}, num_features={}]>".format(
+            self.__class__.__name__, self._epsilon, self._num_features
+        )
+
     def create_accumulator(self):
         return sketches.QuantilesSketch(
             self._epsilon, self._max_num_values, self._num_features
-- 
2.43.0


From 1d6792b51abb39a09c2efe9f6c87ae299afdc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 08/31] fix: keep already moved outputs when publishing a
 transform function is retried

---
 .../beam/tft_beam_io/transform_fn_io.py       | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py b/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
index a3a9f92..ad8147a 100644
--- a/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
+++ b/tensorflow_transform/beam/tft_beam_io/transform_fn_io.py
@@ -110,15 +110,17 @@ class WriteTransformFn(beam.PTransform):
             if not tf.io.gfile.exists(self._path):
                 tf.io.gfile.makedirs(self._path)
 
-            if tf.io.gfile.exists(metadata_path):
-                tf.io.gfile.rmtree(metadata_path)
-            tf.io.gfile.rename(metadata_source_path, metadata_path, overwrite=True)
-
-            if tf.io.gfile.exists(transform_fn_path):
-                tf.io.gfile.rmtree(transform_fn_path)
-            tf.io.gfile.rename(
-                transform_fn_source_path, transform_fn_path, overwrite=True
-            )
+            for source, destination in (
+                (metadata_source_path, metadata_path),
+                (transform_fn_source_path, transform_fn_path),
+            ):
+                # When this is a retry, an earlier attempt may have already moved the
+                # source, in which case the destination should be kept.
+                if tf.io.gfile.exists(destination) and not tf.io.gfile.exists(source):
+                    continue
+                if tf.io.gfile.exists(destination):
+                    tf.io.gfile.rmtree(destination)
+                tf.io.gfile.rename(source, destination, overwrite=True)
 
             # TODO(b/211615643): Remove the exists check once importing TFIO in S3
             # addresses NotFoundError.
-- 
2.43.0


From 7e771a6dd1acd6350408346011571a6aef2745d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 09/31] fix: do not mix the empty vocabulary placeholder with
 coverage tokens

---
 tensorflow_transform/beam/analyzer_impls.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 88be5ef..a23fac5 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -163,6 +163,7 @@ def _ApplyThresholdsAndTopK(  # pylint: disable=invalid-name
     input_dtype,
     info_threshold=float("-inf"),
     key_fn=None,
+    add_empty_dummy=True,
 ):
     """Applies `frequency_threshold` and `top_k` to (count, value) pairs."""
     # TODO(b/117796748): Filter frequency per-key when key feature input enabled.
@@ -231,13 +232,12 @@ def _ApplyThresholdsAndTopK(  # pylint: disable=invalid-name
             # output and fusion with the `FlattenList`. If changing this part of
             # implementation, either make sure that these hold true or adjust the
             # appropriate arg of `VocabularyOrderAndWrite` node.
-            counts = (
-                counts
-                | "Top(%s)" % top_k >> beam.combiners.Top.Of(top_k)
-                | "MaybeAddDummy"
-                >> beam.Map(maybe_add_empty_vocabulary_dummy, dtype=input_dtype)
-                | "FlattenList" >> beam.FlatMap(lambda lst: lst)
-            )
+            counts = counts | "Top(%s)" % top_k >> beam.combiners.Top.Of(top_k)
+            if add_empty_dummy:
+                counts |= "MaybeAddDummy" >> beam.Map(
+                    maybe_add_empty_vocabulary_dummy, dtype=input_dtype
+                )
+            counts |= "FlattenList" >> beam.FlatMap(lambda lst: lst)
             # LINT.ThenChange(../analyzers.py:input_is_sorted)
 
     return counts
@@ -454,6 +454,8 @@ class _VocabularyPruneImpl(beam.PTransform):
                 self._input_dtype,
                 self._informativeness_threshold,
                 None,
+                # The coverage arm may still contribute tokens.
+                add_empty_dummy=not self._key_fn,
             )
         )
 
-- 
2.43.0


From 99138e9a3c9140a6a74f22958b04653aaaeeb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 10/31] fix: keep further inputs of post-processing nodes when
 packing combine merges

---
 .../beam/combiner_packing_util.py             | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tensorflow_transform/beam/combiner_packing_util.py b/tensorflow_transform/beam/combiner_packing_util.py
index 92ad001..e5dd29c 100644
--- a/tensorflow_transform/beam/combiner_packing_util.py
+++ b/tensorflow_transform/beam/combiner_packing_util.py
@@ -352,6 +352,8 @@ class _PackMergeCombineVisitor(_ValidationVisitor):
 class _TensorBindingInfo:
     intermediate_post_processing_op_defs: Sequence[nodes.OperationDef]
     output_index: int
+    # Inputs following the first one, for each of the intermediate operations.
+    intermediate_extra_inputs: Sequence[Sequence[nodes.ValueNode]]
 
 
 # Maximum search depth for packed post-processing nodes.
@@ -484,11 +486,15 @@ class _RemoveRedundantPackedMergeCombineVisitor(_ValidationVisitor):
         result = []
         for value in input_values:
             intermidiate_post_processing_op_defs = []
+            intermidiate_extra_inputs = []
             intermidiate_value = value
             output_index = None
             while self._is_packed_post_processing_node(intermidiate_value):
                 intermidiate_op_def = intermidiate_value.parent_operation.operation_def
                 intermidiate_post_processing_op_defs.append(intermidiate_op_def)
+                intermidiate_extra_inputs.append(
+                    tuple(intermidiate_value.parent_operation.inputs[1:])
+                )
                 if isinstance(
                     intermidiate_op_def, analyzer_nodes.ExtractPackedCombineMergeOutputs
                 ):
@@ -506,7 +512,9 @@ class _RemoveRedundantPackedMergeCombineVisitor(_ValidationVisitor):
                 # CreateTensorBinding node's input value index.
                 result.append(
                     _TensorBindingInfo(
-                        intermidiate_post_processing_op_defs, output_index
+                        intermidiate_post_processing_op_defs,
+                        output_index,
+                        intermidiate_extra_inputs,
                     )
                 )
         return result
@@ -529,10 +537,13 @@ class _RemoveRedundantPackedMergeCombineVisitor(_ValidationVisitor):
             # Reconstruct the remaining inputs from the final packed merge node.
             for tensor_binding_info in to_be_created_tensor_bindings:
                 intermediate_nodes = (final_packed_merge_combine,)
-                for op_def in reversed(
-                    tensor_binding_info.intermediate_post_processing_op_defs
+                for op_def, extra_inputs in zip(
+                    reversed(tensor_binding_info.intermediate_post_processing_op_defs),
+                    reversed(tensor_binding_info.intermediate_extra_inputs),
                 ):
-                    intermediate_nodes = _maybe_create_node(op_def, intermediate_nodes)
+                    intermediate_nodes = _maybe_create_node(
+                        op_def, tuple(intermediate_nodes) + tuple(extra_inputs)
+                    )
                     if isinstance(
                         op_def, analyzer_nodes.ExtractPackedCombineMergeOutputs
                     ):
-- 
2.43.0


From 411a1b6f3279e07f9339d0fe8b98f3c03b5ec03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 11/31] fix: bucketize_per_key with two buckets or with keys of
 equal boundaries

With two buckets there is a single boundary which all keys share, so it may
not be shifted by the number of the key.  Equal boundaries are moved apart by
an epsilon, which has to be large enough to change boundaries of this
magnitude.
---
 tensorflow_transform/beam/analyzer_impls.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index a23fac5..7df68fe 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -1192,6 +1192,10 @@ def _make_strictly_increasing_boundaries_rows(
     # Make sure every value in epsilon is positive.
     epsilon[epsilon <= 0] = 1e-6
 
+    # And large enough to make a difference when added to the boundaries.
+    magnitude = np.max(np.abs(boundary_matrix), axis=1, keepdims=True)
+    epsilon = np.maximum(epsilon, np.spacing(magnitude))
+
     deltas = np.diff(boundary_matrix, axis=1)
     corrected_deltas = np.maximum(deltas, epsilon)
 
@@ -1276,7 +1280,12 @@ class _ScaleAndFlattenPerKeyBucketBouandariesImpl(beam.PTransform):
         self._name = operation.label
 
     def _transform_boundaries(self, boundary_matrix):
-        results = _join_boundary_rows(boundary_matrix)
+        boundaries, scale, shift, num_buckets = _join_boundary_rows(boundary_matrix)
+        if boundary_matrix.shape[1] == 1:
+            # There is a single boundary, which all keys share: do not shift it by
+            # the index of the key.
+            shift = -boundary_matrix[:, 0] * scale
+        results = (boundaries, scale, shift, num_buckets)
         assert len(self._OUTPUT_TAGS) == len(results)
         return [
             beam.pvalue.TaggedOutput(tag, value)
-- 
2.43.0


From 2737d1759f34415af0b913159b2ec49ccdd33e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 12/31] fix: interpolated buckets with one boundary map NaN to
 the middle

apply_buckets_with_interpolation documents .5 for NaN, but the result for a
single boundary was computed after NaNs were imputed.
---
 tensorflow_transform/mappers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index aede2b6..d1bb3b8 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -2277,12 +2277,6 @@ def apply_buckets_with_interpolation(
         # Normalize the interpolated values to the range [0, 1].
         denominator = tf.cast(tf.maximum(num_boundaries - 1, 1), return_type)
         normalized_values = bucket_indices_with_interpolation / denominator
-        if x_values.dtype.is_floating:
-            # Impute NaNs with .5, the middle value of the normalized output range.
-            imputed_values = tf.ones_like(x_values, dtype=return_type) / 2.0
-            normalized_values = tf.where(
-                tf.math.is_nan(x_values), imputed_values, normalized_values
-            )
         # If there is only one boundary, all values < the boundary are 0, all values
         # >= the boundary are 1.
         single_boundary_values = lambda: tf.where(  # pylint: disable=g-long-lambda
@@ -2293,6 +2287,12 @@ def apply_buckets_with_interpolation(
             single_boundary_values,
             lambda: normalized_values,
         )
+        if x_values.dtype.is_floating:
+            # Impute NaNs with .5, the middle value of the normalized output range.
+            imputed_values = tf.ones_like(x_values, dtype=return_type) / 2.0
+            normalized_result = tf.where(
+                tf.math.is_nan(x_values), imputed_values, normalized_result
+            )
         return compose_result_fn(normalized_result)
 
 
-- 
2.43.0


From a2d7771bc85175ea88b82010c53cb875d3cedb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 13/31] fix: per-key mean and variance of tensors of rank 3 and
 of elementwise float64

Reduce over all of the instance dimensions, and count in the type of x.
---
 tensorflow_transform/tf_utils.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index d838ab0..91593b2 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1784,25 +1784,24 @@ def reduce_batch_count_mean_and_var_per_key(
     x_is_finite = _is_finite(x)
 
     finite_x = tf.where(x_is_finite, x, tf.zeros_like(x))
+    instance_axes = list(range(1, x.get_shape().ndims))
     if reduce_instance_dims:
-        x_count = tf.cast(x_is_finite, x.dtype)
-        if x.get_shape().ndims != 1:
-            x_count = tf.reduce_sum(x_count, axis=1)
+        x_count = tf.reduce_sum(tf.cast(x_is_finite, x.dtype), axis=instance_axes)
         x_count = tf.math.unsorted_segment_sum(x_count, unique.idx, tf.size(unique.y))
-        sums = tf.reduce_sum(finite_x, axis=1) if x.get_shape().ndims != 1 else finite_x
+        sums = tf.reduce_sum(finite_x, axis=instance_axes)
         sums = tf.math.unsorted_segment_sum(sums, unique.idx, tf.size(unique.y))
     else:
         sums = tf.math.unsorted_segment_sum(finite_x, unique.idx, tf.size(unique.y))
         x_count = tf.math.unsorted_segment_sum(
-            tf.cast(x_is_finite, tf.float32), unique.idx, tf.size(unique.y)
+            tf.cast(x_is_finite, x.dtype), unique.idx, tf.size(unique.y)
         )
 
     means = tf.math.divide_no_nan(tf.cast(sums, x.dtype), x_count)
     sum_sqs = tf.math.unsorted_segment_sum(
         tf.square(finite_x), unique.idx, tf.size(input=unique.y)
     )
-    if sum_sqs.get_shape().ndims != 1 and reduce_instance_dims:
-        sum_sqs = tf.reduce_sum(sum_sqs, axis=1)
+    if reduce_instance_dims:
+        sum_sqs = tf.reduce_sum(sum_sqs, axis=instance_axes)
 
     variances = tf.math.divide_no_nan(sum_sqs, x_count) - tf.square(means)
 
-- 
2.43.0


From 267d6b8e31f60995170133f5848216c3f60cc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 14/31] fix: keys with spaces in per-key vocabulary files

Values and key are separated by a space, hence only the first word of a key was
read back.
---
 tensorflow_transform/beam/analyzer_impls.py | 7 ++++++-
 tensorflow_transform/tf_utils.py            | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/beam/analyzer_impls.py b/tensorflow_transform/beam/analyzer_impls.py
index 7df68fe..a262beb 100644
--- a/tensorflow_transform/beam/analyzer_impls.py
+++ b/tensorflow_transform/beam/analyzer_impls.py
@@ -1449,8 +1449,13 @@ class _CombinePerKeyFormatLargeImpl(beam.PTransform):
     def expand(self, inputs):
         to_str = tf.compat.as_str_any
         (pcoll,) = inputs
+        # Spaces separate the values from the key in the file, hence they are
+        # replaced in keys (here and in `tf_utils.apply_per_key_vocabulary`).
         return pcoll | "EncodeValueAndSwapWithKey" >> beam.MapTuple(
-            lambda k, v: (to_str(",".join(map(to_str, v))), k)
+            lambda k, v: (
+                to_str(",".join(map(to_str, v))),
+                tf.compat.as_bytes(k).replace(b" ", b"__SPACE__"),
+            )
         )
 
 
diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 91593b2..33c28a4 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1042,8 +1042,11 @@ def apply_per_key_vocabulary(
         )
         return tf.lookup.StaticHashTable(initializer, default_value=default_value)
 
+    # Spaces in keys are replaced when the file is written.
     table_lookup, unused_table_size = construct_and_lookup_table(
-        _construct_table, per_key_filename, key
+        _construct_table,
+        per_key_filename,
+        tf.strings.regex_replace(key, " ", "__SPACE__"),
     )
 
     sparse_result = tf.compat.v1.strings.split(table_lookup, sep=",")
-- 
2.43.0


From 043dc32e94694f2db08cb138aae8742466ce2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 15/31] fix: scaling composite tensors per key with a key
 vocabulary file

Look up the keys of the values of a sparse or ragged tensor, as scaling without
a file does, and also when there are none of them in a batch.
---
 tensorflow_transform/mappers.py  | 25 ++++++++++++++++++++-----
 tensorflow_transform/tf_utils.py | 10 +++++++++-
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index d1bb3b8..58f0be1 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -412,9 +412,7 @@ def _scale_by_min_max_internal(
                 raise NotImplementedError(
                     "Elementwise scaling does not support key_vocabulary_filename"
                 )
-            minus_min_max_for_key = tf_utils.apply_per_key_vocabulary(
-                key_values, key, target_ndims=x.get_shape().ndims
-            )
+            minus_min_max_for_key = _apply_per_key_vocabulary(key_values, x, key)
             min_x_value, max_x_value = (
                 -minus_min_max_for_key[:, 0],
                 minus_min_max_for_key[:, 1],
@@ -454,6 +452,23 @@ def _scale_by_min_max_internal(
     return compose_result_fn((scaled_result * (output_max - output_min)) + output_min)
 
 
+def _apply_per_key_vocabulary(
+    per_key_filename: tf.Tensor,
+    x: common_types.ConsistentTensorType,
+    key: common_types.TensorType,
+) -> tf.Tensor:
+    """Looks up the values stored for the key of each value (or instance) of x."""
+    if isinstance(x, tf.Tensor):
+        target_ndims = x.get_shape().ndims
+    else:
+        # The result lines up with the values of a composite x.
+        _, key = tf_utils._validate_and_get_dense_value_key_inputs(x, key)  # pylint: disable=protected-access
+        target_ndims = None
+    return tf_utils.apply_per_key_vocabulary(
+        per_key_filename, key, target_ndims=target_ndims
+    )
+
+
 @common.log_api_use(common.MAPPER_COLLECTION)
 def scale_to_0_1(
     x: common_types.ConsistentTensorType,
@@ -695,8 +710,8 @@ def _scale_to_z_score_internal(
                 raise NotImplementedError(
                     "Elementwise scaling does not support key_vocabulary_filename"
                 )
-            mean_var_for_key = tf_utils.apply_per_key_vocabulary(
-                mean_and_var_per_key_result, key, target_ndims=x.get_shape().ndims
+            mean_var_for_key = _apply_per_key_vocabulary(
+                mean_and_var_per_key_result, x, key
             )
             x_mean, x_var = (mean_var_for_key[:, 0], mean_var_for_key[:, 1])
 
diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 33c28a4..8b8259a 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1050,7 +1050,15 @@ def apply_per_key_vocabulary(
     )
 
     sparse_result = tf.compat.v1.strings.split(table_lookup, sep=",")
-    dense_result = tf.sparse.to_dense(sparse_result, "0")
+    # An empty batch has two values per key as well.
+    dense_result = tf.sparse.to_dense(
+        tf.SparseTensor(
+            sparse_result.indices,
+            sparse_result.values,
+            tf.maximum(sparse_result.dense_shape, [0, 2]),
+        ),
+        "0",
+    )
     # Add 0s where dense_result has empty strings.
     number_strings = tf.where(
         tf.strings.length(dense_result) > 0,
-- 
2.43.0


From 514633bad17c005167a1fb7f112b4888c3ff70ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 16/31] fix: scaling per key when no key has been analyzed

---
 tensorflow_transform/tf_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index 8b8259a..c449fbe 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1738,8 +1738,9 @@ def map_per_key_reductions(
     )
 
     # Append 0s to allow mapping OOVs to it.
+    # Note that there might be no keys at all.
     tensors_to_map = [
-        tf.concat([t, tf.expand_dims(tf.zeros_like(t[0]), 0)], axis=0)
+        tf.concat([t, tf.zeros_like(tf.expand_dims(tf.reduce_sum(t, axis=0), 0))], axis=0)
         for t in tensors_to_map
     ]
 
-- 
2.43.0


From 5e49a907fdeeea563f758ddd6f0aa8ed9ba7fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 17/31] fix: CSV cells of variable-length arrays, and of values
 that do not fit

A variable-length value given as an array of a single zero was written as an
empty cell.  Missing values of FixedLenFeatures were written as 'None', and all
but the first value of columns that are not multivalent were dropped.
---
 tensorflow_transform/coders/csv_coder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 0774c7c..9d2d5d4 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -66,6 +66,8 @@ class _FixedLenFeatureHandler:
 
     def encode_value(self, string_list, values):
         """Encode the value of this feature into the CSV line."""
+        if values is None:
+            raise ValueError('FixedLenFeature "{}" has no value'.format(self._name))
         if self._rank == 0:
             flattened_values = [values]
         elif self._rank == 1:
@@ -109,7 +111,15 @@ class _VarLenFeatureHandler:
         if self._encoder:
             string_list[self._index] = self._encoder.encode_record(values)
         else:
-            string_list[self._index] = _to_string(values[0]) if values else ""
+            # Note that `values` may be an array.
+            num_values = 0 if values is None else len(values)
+            if num_values > 1:
+                raise ValueError(
+                    'Column "{}" is not multivalent but got {} values'.format(
+                        self._name, num_values
+                    )
+                )
+            string_list[self._index] = _to_string(values[0]) if num_values else ""
 
 
 class CsvCoder:
-- 
2.43.0


From 41d6f0db1580e5a9a92f5aa7de0e712c499e784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:05 +0000
Subject: [PATCH 18/31] fix: refuse to encode a missing FixedLenFeature of rank
 2 or more

A missing float matrix of a single element was encoded as NaN.
---
 tensorflow_transform/coders/example_proto_coder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensorflow_transform/coders/example_proto_coder.py b/tensorflow_transform/coders/example_proto_coder.py
index c703c2a..8341145 100644
--- a/tensorflow_transform/coders/example_proto_coder.py
+++ b/tensorflow_transform/coders/example_proto_coder.py
@@ -122,6 +122,8 @@ class _FixedLenFeatureHandler:
             )
             self._value.append(self._cast_fn(scalar_value))
         else:
+            if values is None:
+                raise ValueError("FixedLenFeature %r has no value" % self._name)
             flattened_values = (
                 values
                 if self._rank == 1
-- 
2.43.0


From 020ea5482620211505239664e3dd9c43248348f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 19/31] fix: tfidf with a vocabulary of one term

Squeezing the inverse document frequencies of a vocabulary with a single
term leaves a scalar, which cannot be gathered from.
---
 tensorflow_transform/mappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index 58f0be1..e0e4242 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -982,7 +982,7 @@ def _to_tfidf(
     idf = tf_utils.document_frequency_to_idf(
         reduced_term_freq, corpus_size, smooth=smooth, add_baseline=True
     )
-    gathered_idfs = tf.gather(tf.squeeze(idf), term_frequency.indices[:, 1])
+    gathered_idfs = tf.gather(tf.reshape(idf, [-1]), term_frequency.indices[:, 1])
     tfidf_values = tf.cast(term_frequency.values, tf.float32) * tf.cast(
         gathered_idfs, tf.float32
     )
-- 
2.43.0


From 82958996ce9025739142616703e5f94e7ee6ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 20/31] fix: deep copy of shared steps in dependency order

The steps to clone were ordered by a breadth-first walk, so a step could be
cloned before one of its inputs was: the copy then read the original instead
of the copy, and an assertion failed when the outputs of one step were reached
at different depths.
---
 tensorflow_transform/beam/deep_copy.py | 45 +++++++++++---------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/tensorflow_transform/beam/deep_copy.py b/tensorflow_transform/beam/deep_copy.py
index 1207502..27a6836 100644
--- a/tensorflow_transform/beam/deep_copy.py
+++ b/tensorflow_transform/beam/deep_copy.py
@@ -24,7 +24,6 @@ _MATERIALIZATION_BARRIER_TRANSFORMS as a materialization boundary for this
 purpose.
 """
 
-import queue
 import re
 
 import apache_beam as beam
@@ -83,19 +82,15 @@ def _get_items_to_clone(pcollection):
       ValueError: if the input PCollection is invalid.
     """
     assert isinstance(pcollection, PCollection)
-    # List of items (either PCollection or PTransform, in reverse dependency
-    # order (i.e. here, consumers occur before producers).
-    reversed_to_clone = []
-    # Queue of PCollections to be processed in traversal of pipeline graph.
-    to_process = queue.Queue()
-    # Set of items (PCollections and PTransforms) already seen during pipeline
-    # graph traversal.
+    # List of items (either PCollection or PTransform) in dependency order.
+    to_clone = []
+    # Set of PTransforms already seen during pipeline graph traversal.
     seen = set()
-
-    to_process.put(pcollection)
-    seen.add(pcollection)
-    while not to_process.empty():
-        current_pcollection = to_process.get()
+    # Depth first traversal of the pipeline graph. A PTransform is added to the
+    # list, together with all of its outputs, when all of its inputs have been.
+    to_process = [(pcollection, False)]
+    while to_process:
+        current_pcollection, inputs_processed = to_process.pop()
 
         # Stop if we have reached the beginning of the pipeline, or at a
         # materialization boundary.
@@ -104,29 +99,27 @@ def _get_items_to_clone(pcollection):
         ) or _is_at_materialization_boundary(current_pcollection):
             continue
 
-        reversed_to_clone.append(current_pcollection)
         applied_transform = current_pcollection.producer
         if applied_transform is None:
             raise ValueError(
                 "PCollection node has invalid producer: %s" % current_pcollection
             )
 
-        # Visit the input PCollection(s), and also add other outputs of that applied
-        # PTransform.
+        if inputs_processed:
+            to_clone.append(applied_transform)
+            for output in applied_transform.outputs.values():
+                assert isinstance(output, PCollection), output
+                to_clone.append(output)
+            continue
+
         if applied_transform in seen:
             continue
-        for output in applied_transform.outputs.values():
-            assert isinstance(output, PCollection), output
-            if output not in seen:
-                reversed_to_clone.append(output)
         seen.add(applied_transform)
-        reversed_to_clone.append(applied_transform)
-        for input_pcollection in applied_transform.inputs:
-            if input_pcollection not in seen:
-                to_process.put(input_pcollection)
-                seen.add(input_pcollection)
+        to_process.append((current_pcollection, True))
+        for input_pcollection in reversed(applied_transform.inputs):
+            to_process.append((input_pcollection, False))
 
-    return list(reversed(reversed_to_clone))
+    return to_clone
 
 
 def _clone_items(pipeline, to_clone):
-- 
2.43.0


From 5ff9601f9d090d69cc88fcfcaf4e64a606a28894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 21/31] fix: CsvCoder keeps no part of a record that could not
 be encoded

A record that has no bytes (a lone surrogate) stayed in the buffer, and all
later records failed too.
---
 tensorflow_transform/coders/csv_coder.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tensorflow_transform/coders/csv_coder.py b/tensorflow_transform/coders/csv_coder.py
index 9d2d5d4..ab55e08 100644
--- a/tensorflow_transform/coders/csv_coder.py
+++ b/tensorflow_transform/coders/csv_coder.py
@@ -159,12 +159,14 @@ class CsvCoder:
             -------
               Bytes representation input.
             """
-            self._writer.writerow([_to_string(x) for x in record])
-            result = tf.compat.as_bytes(self._buffer.getvalue())
-            # Reset the buffer.
-            self._buffer.seek(0)
-            self._buffer.truncate(0)
-            return result
+            try:
+                self._writer.writerow([_to_string(x) for x in record])
+                return tf.compat.as_bytes(self._buffer.getvalue())
+            finally:
+                # Reset the buffer, also when the record can't be encoded, so that it
+                # doesn't become part of the next one.
+                self._buffer.seek(0)
+                self._buffer.truncate(0)
 
         def __getstate__(self):
             return self._state
-- 
2.43.0


From a57bf1ac8d3b883a6bf23215bbba928ac0edb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 22/31] fix: covariance and PCA of integers

Cross products were computed in the type of the batch and wrapped around, which
gave negative variances.
---
 tensorflow_transform/analyzers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 56831e8..78face2 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -2704,9 +2704,12 @@ class CovarianceCombiner(analyzer_nodes.Combiner):
 
         assert len(np.shape(batch_value)) == 2
 
-        batch_cross_terms = np.matmul(np.transpose(batch_value), batch_value).astype(
-            self._numpy_dtype
-        )
+        # Products of integers may not fit into the type of the batch.
+        batch_cross_terms = np.matmul(
+            np.transpose(batch_value),
+            batch_value,
+            dtype=np.result_type(batch_value, self._numpy_dtype),
+        ).astype(self._numpy_dtype)
 
         batch_sum = np.array(np.sum(batch_value, axis=0), self._numpy_dtype)
         batch_count = np.shape(batch_value)[0]
-- 
2.43.0


From 6566a83dea771aaac0eeb41e39d707b63647959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 23/31] fix: L-moments of a batch without instances of rank 2
 or more, dense or sparse

The size of the flattened instances was inferred from an empty tensor.
---
 tensorflow_transform/tf_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensorflow_transform/tf_utils.py b/tensorflow_transform/tf_utils.py
index c449fbe..f27fd35 100644
--- a/tensorflow_transform/tf_utils.py
+++ b/tensorflow_transform/tf_utils.py
@@ -1474,8 +1474,9 @@ def reduce_batch_count_l_moments(
 
     if isinstance(x, tf.SparseTensor):
         batch_size = x.dense_shape[0]
-        x_rank_2 = tf.sparse.reshape(x, [batch_size, -1])
-        dim_1 = x_rank_2.dense_shape[1]
+        # The size can't be inferred if there are no instances.
+        dim_1 = tf.reduce_prod(x.dense_shape[1:])
+        x_rank_2 = tf.sparse.reshape(x, [batch_size, dim_1])
         initial_values = tf.zeros([dim_1], dtype=x.dtype)
         (
             unused_current_index,
@@ -1520,7 +1521,8 @@ def reduce_batch_count_l_moments(
             l3_factors,
             l4_factors,
         ) = _num_terms_and_factors(num_samples, x.dtype)
-        x_rank_2 = tf.reshape(x, [num_samples, -1])
+        # The size can't be inferred if there are no samples.
+        x_rank_2 = tf.reshape(x, [num_samples, 1 if reduce_instance_dims else -1])
         dim_1 = tf.shape(x_rank_2)[1]
         initial_moment_values = tf.zeros([dim_1], dtype=x.dtype)
         (
-- 
2.43.0


From 5c458c56f334053ee6d84a147732578dbc493b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 24/31] fix: search of Tukey HH parameters when the L-skewness
 is not reached at first

The lower bound of delta was set to its upper bound as soon as the L-skewness
could not be matched with the first h, so that the parameters found had
a wrong L-skewness.
---
 tensorflow_transform/gaussianization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/gaussianization.py b/tensorflow_transform/gaussianization.py
index a07b3dc..efd9a51 100644
--- a/tensorflow_transform/gaussianization.py
+++ b/tensorflow_transform/gaussianization.py
@@ -273,7 +273,6 @@ def compute_tukey_hh_params(l_skewness_and_kurtosis):
             upperbound_delta_found = True
         else:
             search_params[1] = max_search_params[1]
-            min_search_params[1] = max_search_params[1]  # No solution: lowerbound.
             upperbound_delta_found = False
 
         # Search for L-kurtosis at constant possibly overestimated delta.
@@ -286,9 +285,13 @@ def compute_tukey_hh_params(l_skewness_and_kurtosis):
         if upperbound_delta_found:
             search_params[0] = high_h
             max_search_params[0] = high_h  # Delta overestimated: upperbound for h.
+        elif _params_to_errors(high_h, search_params[1], l_skewness_and_kurtosis)[0] > 0.0:
+            # The L-skewness is reached with this h: delta is still an upperbound.
+            search_params[0] = high_h
         else:
             search_params[0] = low_h
             min_search_params[0] = low_h  # Delta underestimated: lowerbound for h.
+            min_search_params[1] = search_params[1]  # No solution: lowerbound.
             max_search_params[1] = low_h  # Delta not found, search on full range.
 
         if upperbound_delta_found:  # If not found, we repeat the first 2 steps.
-- 
2.43.0


From f32629c46f00831023fe2a4fee456b597ce14f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:39 +0000
Subject: [PATCH 25/31] fix: find everything that tensors of a while loop
 depend on

Results of nodes on a loop of the graph (control flow v1) were memoized while
another node of the loop was still being visited, so they lacked what the node
depends on through that other node. An analyzer of one loop variable could then
be run before the analyzers that another loop variable is computed from.
---
 tensorflow_transform/graph_tools.py | 64 +++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 18333da..53262dd 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -438,33 +438,61 @@ class _GraphAnalyzer:
         # their reference in order to use them in sets or dicts.
         stack.append(tf_utils.hashable_tensor_or_op(tensor_or_op))
         # Contains the nodes of the path starting from tensor_or_op to current
-        # visiting node, used for loop detection. We assume that any loop is a
-        # valid while loop and so it will be able to run as long as all the other
-        # parents are ready.
-        path = set()
+        # visiting node with their depth, used for loop detection. We assume that any
+        # loop is a valid while loop and so it will be able to run as long as all the
+        # other parents are ready.
+        path = {}
+        # Results of nodes on a loop which is still being visited, with the depth of
+        # the outermost node of that loop in the path. They lack whatever these nodes
+        # depend on through the path, hence they must not be memoized.
+        partial_results = {}
         while stack:
             current = stack[-1]
-            if current in self._memoized_analyze_tensor_result:
+            if (
+                current in self._memoized_analyze_tensor_result
+                or current in partial_results
+            ):
                 stack.pop()
                 continue
-            path.add(current)
-            parents = self._get_parents(tf_utils.deref_tensor_or_op(current))
-            parents = [
-                parent
-                for parent in map(tf_utils.hashable_tensor_or_op, parents)
-                if parent not in path
-            ]
+            depth = path.setdefault(current, len(path))
+            loop_depth = depth
+            parents = []
+            for parent in map(
+                tf_utils.hashable_tensor_or_op,
+                self._get_parents(tf_utils.deref_tensor_or_op(current)),
+            ):
+                if parent in path:
+                    loop_depth = min(loop_depth, path[parent])
+                else:
+                    parents.append(parent)
             if all(
-                parent in self._memoized_analyze_tensor_result for parent in parents
+                parent in self._memoized_analyze_tensor_result
+                or parent in partial_results
+                for parent in parents
             ):
-                parent_results = [
-                    self._memoized_analyze_tensor_result[parent] for parent in parents
-                ]
+                parent_results = []
+                for parent in parents:
+                    if parent in partial_results:
+                        parent_result, parent_loop_depth = partial_results[parent]
+                        loop_depth = min(loop_depth, parent_loop_depth)
+                    else:
+                        parent_result = self._memoized_analyze_tensor_result[parent]
+                    parent_results.append(parent_result)
                 current_result = self._compute_analysis_result(
                     tf_utils.deref_tensor_or_op(current), parent_results
                 )
-                self._memoized_analyze_tensor_result[current] = current_result
-                path.discard(stack.pop())
+                path.pop(stack.pop())
+                for node, (result, node_loop_depth) in list(partial_results.items()):
+                    if node_loop_depth >= depth:
+                        if loop_depth == depth:
+                            # The loop was entered here and is now complete.
+                            del partial_results[node]
+                        else:
+                            partial_results[node] = (result, loop_depth)
+                if loop_depth == depth:
+                    self._memoized_analyze_tensor_result[current] = current_result
+                else:
+                    partial_results[current] = (current_result, loop_depth)
             else:
                 stack.extend(parents)
         return self._memoized_analyze_tensor_result[
-- 
2.43.0


From a95fa10697d04260e027f12a4b19099ed261c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 26/31] fix: analyzer cache keys reflect the values that
 preprocessing functions capture

The graph that a preprocessing function is traced into in TF 2 refers to
tensors, variables and tables that were created outside of it through
placeholders, whose attributes do not tell what they stand for. Hence versions
of the function that differ in such values shared entries of the analyzer
cache.
---
 tensorflow_transform/graph_tools.py | 67 ++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/graph_tools.py b/tensorflow_transform/graph_tools.py
index 53262dd..e8db206 100644
--- a/tensorflow_transform/graph_tools.py
+++ b/tensorflow_transform/graph_tools.py
@@ -30,12 +30,15 @@ import itertools
 import uuid
 from typing import Iterable, List, Mapping, Optional, Set, Union
 
+import numpy as np
 import tensorflow as tf
 from absl import logging
 
 # pylint: disable=g-direct-tensorflow-import
+from tensorflow.python.eager import context as tf_context
 from tensorflow.python.framework import composite_tensor, function_def_to_graph
 from tensorflow.python.framework import func_graph as tf_func_graph
+from tensorflow.python.framework import ops as tf_ops
 from tensorflow.python.util import object_identity
 
 # TODO(b/243513856): Switch to `collections.namedtuple` or `typing.NamedTuple`
@@ -953,6 +956,63 @@ def _serialize_op_attr(op_attr):
     return result
 
 
+def _get_captured_value(op: tf.Operation) -> Optional[tf.Tensor]:
+    """Returns the eager tensor that op stands for, if it was captured by a graph."""
+    if op.type != "Placeholder" or not isinstance(op.graph, tf_func_graph.FuncGraph):
+        return None
+    for external, internal in op.graph.captures:
+        if internal is op.outputs[0] and isinstance(external, tf_ops.EagerTensor):
+            return external
+    return None
+
+
+def _describe_captured_value(
+    op: tf.Operation, value: tf.Tensor
+) -> List[Union[str, bytes]]:
+    """Describes the contents of a captured eager tensor, variable or table."""
+    kind = "CapturedTensor"
+    tensors = [value]
+    if value.dtype == tf.resource:
+        handle_data = getattr(value, "_handle_data", None)
+        find_ops = [c for c in op.outputs[0].consumers() if c.type == "LookupTableFindV2"]
+        with tf_context.eager_mode():
+            if handle_data is not None and handle_data.is_set:
+                kind = "CapturedVariable"
+                tensors = [
+                    tf.raw_ops.ReadVariableOp(
+                        resource=value,
+                        dtype=tf.as_dtype(handle_data.shape_and_type[0].dtype),
+                    )
+                ]
+            elif find_ops:
+                kind = "CapturedTable"
+                try:
+                    keys, values = tf.raw_ops.LookupTableExportV2(
+                        table_handle=value,
+                        Tkeys=find_ops[0].get_attr("Tin"),
+                        Tvalues=find_ops[0].get_attr("Tout"),
+                    )
+                    # Tables don't define the order of their entries.
+                    order = np.argsort(keys.numpy(), kind="stable")
+                    tensors = [tf.gather(keys, order), tf.gather(values, order)]
+                except tf.errors.OpError:
+                    # The table has not been initialized yet.
+                    tensors = []
+            else:
+                tensors = []
+    elif value.dtype == tf.variant:
+        tensors = []
+    if not tensors:
+        # The contents are not visible, so a random string is used in order to
+        # reflect that we don't know them.
+        return [op.type, uuid.uuid4().hex]
+    result = [kind]
+    for tensor in tensors:
+        proto = tf.make_tensor_proto(tensor.numpy(), tensor.dtype, tensor.shape)
+        result.append(proto.SerializeToString(deterministic=True))
+    return result
+
+
 def describe_path_as_analyzer_cache_hash(
     x: Optional[Union[tf.Operation, tf.Tensor, str]],
     parents: Optional[List[bytes]] = None,
@@ -981,7 +1041,12 @@ def describe_path_as_analyzer_cache_hash(
         return None
 
     if isinstance(x, tf.Operation):
-        values = [x.type] + _serialize_op_attr(x.node_def.attr)
+        captured_value = _get_captured_value(x)
+        # A table that is initialized in this graph has its initializer's parents.
+        if captured_value is not None and not parents:
+            values = _describe_captured_value(x, captured_value)
+        else:
+            values = [x.type] + _serialize_op_attr(x.node_def.attr)
     elif isinstance(x, tf.Tensor):
         # No need to add x.op to the hash since that should be included in parents.
         values = [tf.compat.as_str_any(x.value_index)]
-- 
2.43.0


From aef31a7a1a6dcb3a38283eed658a377c877ba49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:21 +0000
Subject: [PATCH 27/31] fix: domains and sparse annotations of a tensor that is
 output under several names

When tracing in TF 2, only the last of the output features that consist of one
tensor was given the domain of the tensor and its annotations.
---
 tensorflow_transform/schema_inference.py | 44 +++++++++++++-----------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/tensorflow_transform/schema_inference.py b/tensorflow_transform/schema_inference.py
index ebd3ece..0b5a300 100644
--- a/tensorflow_transform/schema_inference.py
+++ b/tensorflow_transform/schema_inference.py
@@ -668,18 +668,18 @@ def _get_schema_annotations_common(tensor_annotation_keys, type_urls, proto_valu
     return tensor_annotations, global_annotations
 
 
-def _get_tensor_value_to_key_map(features_dict):
-    """Get reverse map from name of tensor values to key in `features_dict`."""
-    result = {}
+def _get_tensor_value_to_keys_map(features_dict):
+    """Get reverse map from name of tensor values to keys in `features_dict`."""
+    result = collections.defaultdict(list)
     for key, tensor in features_dict.items():
         values = _get_tensor_values(tensor)
-        result[values.name] = key
+        result[values.name].append(key)
     return result
 
 
 def _get_schema_overrides(
     graph,
-    tensor_name_to_key_map,
+    tensor_name_to_keys_map,
     tensor_collection_key,
     overrides_keys,
     default_tensor_name=None,
@@ -687,22 +687,23 @@ def _get_schema_overrides(
     """Obtain schema overrides from graph collections.
 
     For every tensor in the `tensor_collection_key` collection, the corresponding
-    feature name is in `tensor_name_to_key_map` and its schema overrides are in
+    feature names are in `tensor_name_to_keys_map` and its schema overrides are in
     the graph collections defined by keys in `overrides_keys`.
-    If a tensor does not exist in `tensor_name_to_key_map` but its name starts
+    If a tensor does not exist in `tensor_name_to_keys_map` but its name starts
     with `default_tensor_name` (if provided), the overrides are returned with this
     key.
 
     Args:
     ----
       graph: A `FuncGraph`.
-      tensor_name_to_key_map: A dictionary from tensor name to output feature key.
+      tensor_name_to_keys_map: A dictionary from tensor name to the keys of the
+        output features that consist of this tensor.
       tensor_collection_key: Key for the graph collection that contains list of
         tensors to annotate.
       overrides_keys: A list of graph collection keys that contain schema
         overrides/annotations.
       default_tensor_name: (Optional) A String. If provided, use as feature key if
-        a tensor in the graph collections is not in `tensor_name_to_key_map`.
+        a tensor in the graph collections is not in `tensor_name_to_keys_map`.
 
     Returns:
     -------
@@ -722,8 +723,8 @@ def _get_schema_overrides(
             f" {overrides_list}"
         )
     for tensor, overrides_tuple in zip(tensors, zip(*overrides_list)):
-        if tensor.name in tensor_name_to_key_map:
-            result[tensor_collection_key].append(tensor_name_to_key_map[tensor.name])
+        if tensor.name in tensor_name_to_keys_map:
+            feature_names = tensor_name_to_keys_map[tensor.name]
         else:
             if default_tensor_name is None:
                 continue
@@ -731,15 +732,17 @@ def _get_schema_overrides(
             if tensor.dtype == tf.string and tensor_name.startswith(
                 default_tensor_name
             ):
-                result[tensor_collection_key].append(default_tensor_name)
+                feature_names = [default_tensor_name]
             else:
                 continue
 
-        # If a feature name was added to the result list for tensor_collection_key,
-        # add its annotations as well.
+        # For each feature name that is added to the result list for
+        # tensor_collection_key, add its annotations as well.
         assert len(overrides_keys) == len(overrides_tuple)
-        for overrides_key, override in zip(overrides_keys, overrides_tuple):
-            result[overrides_key].append(override)
+        for feature_name in feature_names:
+            result[tensor_collection_key].append(feature_name)
+            for overrides_key, override in zip(overrides_keys, overrides_tuple):
+                result[overrides_key].append(override)
     return result
 
 
@@ -791,7 +794,7 @@ def get_traced_metadata_fn(
             transformed_features = preprocessing_fn(inputs)
 
         # Get a map from tensor value names to feature keys.
-        reversed_features = _get_tensor_value_to_key_map(transformed_features)
+        reversed_features = _get_tensor_value_to_keys_map(transformed_features)
 
         result = collections.defaultdict(list)
         if not evaluate_schema_overrides:
@@ -800,7 +803,7 @@ def get_traced_metadata_fn(
             )
             for tensor in schema_override_tensors:
                 if tensor.name in reversed_features:
-                    result[_TF_METADATA_TENSOR_COLLECTION].append(
+                    result[_TF_METADATA_TENSOR_COLLECTION].extend(
                         reversed_features[tensor.name]
                     )
         else:
@@ -916,11 +919,12 @@ def _get_sparse_output_annotations_v1(
 
 
 def _get_sparse_output_annotations_v2(
-    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, str]
+    graph: tf.compat.v1.Graph, tensor_to_feature_names: Dict[str, List[str]]
 ) -> Dict[str, List[Union[str, tf.Tensor]]]:
     annotations = _get_sparse_output_annotations(graph)
     result = {}
     for tensor, v in annotations:
         if tensor.name in tensor_to_feature_names:
-            result[tensor_to_feature_names[tensor.name]] = v
+            for feature_name in tensor_to_feature_names[tensor.name]:
+                result[feature_name] = v
     return result
-- 
2.43.0


From 3a890562bd2d576f6be6ebf1cff907782f1a4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 28/31] fix: vocabularies with a slash in their name don't take
 over other vocabularies

The asset map keeps only what follows the last slash of a key, hence the file of
vocabulary 'a/b' was also found under the name of vocabulary 'b'.
---
 tensorflow_transform/analyzers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensorflow_transform/analyzers.py b/tensorflow_transform/analyzers.py
index 78face2..9488fc3 100644
--- a/tensorflow_transform/analyzers.py
+++ b/tensorflow_transform/analyzers.py
@@ -1892,7 +1892,10 @@ def register_vocab(
         if file_format == "tfrecord_gzip"
         else sanitized_filename
     )
-    annotators.annotate_asset(vocabulary_key, filename)
+    # Asset keys lose their scope, so the sanitized filename is used for vocabularies
+    # whose key has one in order not to register them as a vocabulary without it.
+    asset_key = sanitized_filename if "/" in vocabulary_key else vocabulary_key
+    annotators.annotate_asset(asset_key, filename)
     if vocabulary_size is not None:
         annotators.annotate_vocab_size(vocabulary_key, vocabulary_size)
 
-- 
2.43.0


From f281f2a93fac2aed4cc0184a99f948c8a6022a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:08 +0000
Subject: [PATCH 29/31] fix: domains whose bounds are analyzer results are
 published under TF1

---
 tensorflow_transform/schema_inference.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensorflow_transform/schema_inference.py b/tensorflow_transform/schema_inference.py
index 0b5a300..c296c5a 100644
--- a/tensorflow_transform/schema_inference.py
+++ b/tensorflow_transform/schema_inference.py
@@ -468,9 +468,15 @@ def set_tensor_schema_override(tensor, min_value, max_value):
         raise ValueError("min_value {} was not a Tensor".format(min_value))
     if not isinstance(max_value, tf.Tensor):
         raise ValueError("max_value {} was not a Tensor".format(max_value))
+    # A tensor that is an analyzer's output gets replaced by its value, but not in
+    # a collection. Hence what gets collected are copies of the bounds.
     tf.compat.v1.add_to_collection(_TF_METADATA_TENSOR_COLLECTION, tensor)
-    tf.compat.v1.add_to_collection(_TF_METADATA_TENSOR_MIN_COLLECTION, min_value)
-    tf.compat.v1.add_to_collection(_TF_METADATA_TENSOR_MAX_COLLECTION, max_value)
+    tf.compat.v1.add_to_collection(
+        _TF_METADATA_TENSOR_MIN_COLLECTION, tf.identity(min_value)
+    )
+    tf.compat.v1.add_to_collection(
+        _TF_METADATA_TENSOR_MAX_COLLECTION, tf.identity(max_value)
+    )
 
 
 def _get_tensor_ranges(graph):
-- 
2.43.0


From ba714771876837323fce652528698446b0c381f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:57 +0000
Subject: [PATCH 30/31] fix: python functions keep apart in models that are
 loaded and saved again

---
 tensorflow_transform/py_func/pyfunc_helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensorflow_transform/py_func/pyfunc_helper.py b/tensorflow_transform/py_func/pyfunc_helper.py
index 444ffd6..1faa604 100644
--- a/tensorflow_transform/py_func/pyfunc_helper.py
+++ b/tensorflow_transform/py_func/pyfunc_helper.py
@@ -162,6 +162,9 @@ def register_pyfuncs_from_saved_transform(graph, meta_graph, loaded_in_tf2):
     else:
         graph_def = meta_graph.graph_def
         expected_tokens_in_graph_def = new_tokens_by_old_token.keys()
+        # The collection of `graph` has the new tokens. Importing the old ones too
+        # would make tokens ambiguous if they coincide with new ones.
+        del meta_graph.collection_def[_PYFUNC_COLLECTION_KEY]
     # Swap the old token stored for the function with the new one, if there are
     # any tokens to change.
     if new_tokens_by_old_token:
-- 
2.43.0


From 54beedc8041d07def49019b05d5a32ce43064b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:01 +0000
Subject: [PATCH 31/31] fix: reserved tokens with spaces are found in
 vocabularies that store frequencies

---
 tensorflow_transform/experimental/mappers.py | 4 ++++
 tensorflow_transform/mappers.py              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tensorflow_transform/experimental/mappers.py b/tensorflow_transform/experimental/mappers.py
index f9e6e89..6091808 100644
--- a/tensorflow_transform/experimental/mappers.py
+++ b/tensorflow_transform/experimental/mappers.py
@@ -103,6 +103,10 @@ def compute_and_apply_approximate_vocabulary(
     with tf.compat.v1.name_scope(name, "compute_and_apply_approximate_vocabulary"):
         if store_frequency and file_format == "text":
             x = tf_utils.maybe_format_vocabulary_input(x)
+            if reserved_tokens is not None:
+                reserved_tokens = tf_utils.maybe_format_vocabulary_input(
+                    tf.convert_to_tensor(reserved_tokens, dtype=tf.string)
+                )
         deferred_vocab_and_filename = experimental_analyzers.approximate_vocabulary(
             x=x,
             top_k=top_k,
diff --git a/tensorflow_transform/mappers.py b/tensorflow_transform/mappers.py
index e0e4242..8377181 100644
--- a/tensorflow_transform/mappers.py
+++ b/tensorflow_transform/mappers.py
@@ -1134,6 +1134,10 @@ def compute_and_apply_vocabulary(
     with tf.compat.v1.name_scope(name, "compute_and_apply_vocabulary"):
         if store_frequency and file_format == "text":
             x = tf_utils.maybe_format_vocabulary_input(x)
+            if reserved_tokens is not None:
+                reserved_tokens = tf_utils.maybe_format_vocabulary_input(
+                    tf.convert_to_tensor(reserved_tokens, dtype=tf.string)
+                )
         deferred_vocab_and_filename = analyzers.vocabulary(
             x=x,
             top_k=top_k,
-- 
2.43.0

