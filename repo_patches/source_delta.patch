From f32c4e89ce6807b192489aa7d2d425697941f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 01/68] fix: convert a TF2 If that captures no tensors

An If whose branches take no inputs was mistaken for one made by the cond rewriter and left
as it was, with the branch function names in place of the branch graphs.
---
 tf2onnx/onnx_opset/controlflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..0b7ea41 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -283,7 +283,7 @@ class IfOp:
         """V2 control flow - If"""
         inputs = node.input[1:]
 
-        if node.type == "If" and len(inputs) == 0:
+        if node.type == "If" and len(inputs) == 0 and node.get_body_graphs():
             # this comes from the re-writers
             return
 
-- 
2.43.0


From 23302fbfb7beb1a724094ea099d971f41f4663d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 02/68] fix: attributes given to operators that do not define
 them

Squeeze has axes and ReduceMax has keepdims, Tile has no attributes, and the shape and
dtype of a Transpose are not attributes of it: all of these were silently dropped.
---
 tf2onnx/onnx_opset/math.py   | 9 +++++----
 tf2onnx/onnx_opset/tensor.py | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..b808019 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -361,8 +361,9 @@ class LRN:
         ctx.insert_new_node_on_input(node, "Transpose", node.input[0], perm=constants.NHWC_TO_NCHW)
         ctx.update_node_shape_dtype(node, override=True)
         op_name = utils.make_name(node.name)
-        ctx.insert_new_node_on_output("Transpose", node.output[0], perm=constants.NCHW_TO_NHWC,
-                                      name=op_name, shapes=shapes, dtypes=dtypes)
+        trans = ctx.insert_new_node_on_output("Transpose", node.output[0], perm=constants.NCHW_TO_NHWC, name=op_name)
+        ctx.set_shape(trans.output[0], shapes)
+        ctx.set_dtype(trans.output[0], dtypes)
 
 
 @tf_op(["MatMul", "BatchMatMul", "BatchMatMulV2", "BatchMatMulV3"])
@@ -745,10 +746,10 @@ class CumProd:
                                                outputs=[utils.make_name("post_repeat")], op_name_scope=base_name)
 
             pre_pad_node = graph.make_node("Tile", inputs=[zero_node.output[0], axis], op_name_scope=base_name,
-                                           attr={"axis": 0}, outputs=[utils.make_name("pre_pad")])
+                                           outputs=[utils.make_name("pre_pad")])
 
             post_pad_node = graph.make_node("Tile", inputs=[zero_node.output[0], post_repeat_node.output[0]],
-                                            attr={"axis": 0}, outputs=[utils.make_name("post_pad")],
+                                            outputs=[utils.make_name("post_pad")],
                                             op_name_scope=base_name)
 
         pads_node = graph.make_node("Concat", attr={"axis": 0}, outputs=[utils.make_name("pads")],
diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..e1359d4 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3520,7 +3520,7 @@ class MatrixDiagPartV2V3:
         ysize_2 = ctx.make_node('Min', [ysize_1.output[0], minxy_float])
         ysize = ctx.make_node('Cast', [ysize_2.output[0]], attr={'to': TensorProto.INT64})
         diagsize = ctx.make_node('Concat', [xsize.output[0], ysize.output[0]], attr={'axis': 0})
-        maxsize = ctx.make_node('ReduceMax', [diagsize.output[0]], attr={'keep_dims': 0})
+        maxsize = ctx.make_node('ReduceMax', [diagsize.output[0]], attr={'keepdims': 1})
         maxsize_0 = ctx.make_node('Reshape', [maxsize.output[0], const_neg_one])
         maxsize_scalar = ctx.make_node('Squeeze', [maxsize.output[0]])
 
@@ -3673,7 +3673,7 @@ class MatrixDiag:
             return expand_diag.output[0], k, k_min, k_max, k_max_nxt
 
         def squeeze_12(name):
-            return ctx.make_node("Squeeze", [name], attr={"axis": -1}).output[0]
+            return ctx.make_node("Squeeze", [name], attr={"axes": [-1]}).output[0]
 
         def squeeze_13(name):
             return ctx.make_node("Squeeze", [name, squeeze_axes_1]).output[0]
-- 
2.43.0


From 2914622235e0ce807cf1e3a0c7171c4e5ad43deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 03/68] fix: DynamicStitch at opset 10 emits Scatter,
 ScatterElements is opset 11

---
 tf2onnx/onnx_opset/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e1359d4..c390cbb 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3147,7 +3147,8 @@ class DynamicStitch:
         name = node.name
         outputs = node.output
         ctx.remove_node(node.name)
-        ctx.make_node("ScatterElements",
+        # ScatterElements is what opset 11 calls Scatter
+        ctx.make_node("ScatterElements" if ctx.opset >= 11 else "Scatter",
                       [zeros_of_shape.output[0], expanded_indices.output[0], concat_data.output[0]],
                       name=name,
                       outputs=outputs,
-- 
2.43.0


From 89e79d3b00e40e4c4ed90761a0c57abc519a9834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 04/68] fix: FFT at opset 10 to 12 uses the Slice of those
 opsets

---
 tf2onnx/onnx_opset/signal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index 1fd2700..ba68106 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -368,6 +368,11 @@ class FFTOp(CommonFFTOp):
     def version_1(cls, ctx, node, **kwargs):
         return cls.any_version(False, 1, ctx, node, **kwargs)
 
+    @classmethod
+    def version_10(cls, ctx, node, **kwargs):
+        # Slice changed in opset 10.
+        return cls.any_version(False, 10, ctx, node, **kwargs)
+
     @classmethod
     def version_13(cls, ctx, node, **kwargs):
         return cls.any_version(False, 13, ctx, node, **kwargs)
-- 
2.43.0


From d493d39c941c86def52f4327dbd9bd802af2b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 05/68] fix: report conversions that need a later opset instead
 of emitting its operators

---
 tf2onnx/onnx_opset/controlflow.py | 1 +
 tf2onnx/onnx_opset/logical.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 0b7ea41..9a426c7 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -664,6 +664,7 @@ def wire_while_body(parent_g, g, loop_node, body_input_to_state_var, cond_input_
 
     for node in g.ragged_variant_list_reads:
         # Requires opset 11
+        utils.make_sure(g.opset >= 11, "Opset 11 needed for ragged tensors in a loop")
         gather = node.inputs[0]
         inp = gather.inputs[0]
         while inp.type == "Identity":
diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index a8824e9..d4d642f 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -78,6 +78,7 @@ class Equal:
         need_not = node.type == "NotEqual"
         if need_not and node.input[0] == node.input[1]:
             # The only value not equal to itself is NaN
+            utils.make_sure(ctx.opset >= 9, "Opset 9 needed to compare a tensor with itself, it has the first IsNaN")
             node.type = "IsNaN"
             ctx.replace_inputs(node, [node.input[0]])
             return
-- 
2.43.0


From e4d436c59ef8d11cfe12fd0806ca71c8c199133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:22 +0000
Subject: [PATCH 06/68] fix: FusedBatchNorm whose batch statistics are used
 gets outputs BatchNormalization does not have

---
 tf2onnx/onnx_opset/nn.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..3a7bd44 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -995,11 +995,13 @@ class BatchNorm:
             ctx.copy_shape(node.name, cast_back_node.output[0])
             ctx.set_dtype(node.output[0], mean_type)
 
+        stats_outputs = node.output[1:3]
         consumers = [ctx.find_output_consumers(output_name) for output_name in node.output[1:]]
-        if not any(consumers):
-            new_output = [node.output[0]]
-            # the setter makes a copy of new_output
-            node.output = new_output
+        utils.make_sure(not any(consumers[2:]), "Cannot convert node %s of type %s whose reserve space outputs are used.",
+                        node.name, tf_type)
+        new_output = [node.output[0]]
+        # the setter makes a copy of new_output
+        node.output = new_output
 
         conv_convert_inputs(ctx, node, with_kernel=False, spatial=spatial)
 
@@ -1031,6 +1033,14 @@ class BatchNorm:
 
             pop_var_squeezed = ctx.make_node("Div", [var_squeezed, cnt_float.output[0]]).output[0]
             ctx.replace_inputs(node, node.input[:3] + [avg_squeezed, pop_var_squeezed])
+            if any(consumers[:2]):
+                # tf returns the variance with Bessel's correction
+                one = ctx.make_const(utils.make_name("one_const"), np.array(1, dtype=val_type)).output[0]
+                cnt_minus_one = ctx.make_node("Sub", [cnt_float.output[0], one]).output[0]
+                cnt_corrected = ctx.make_node("Max", [cnt_minus_one, one]).output[0]
+                batch_var = ctx.make_node("Div", [var_squeezed, cnt_corrected]).output[0]
+                ctx.replace_all_inputs(stats_outputs[0], avg_squeezed)
+                ctx.replace_all_inputs(stats_outputs[1], batch_var)
         elif is_training:
             logger.warning("Node %s of type %s has is_training set to true, which is not supperted. "
                            "Please re-save the model with training set to false.",
@@ -1052,6 +1062,11 @@ class BatchNorm:
             ctx.make_const(new_val_node_name, new_var_value)
             ctx.replace_input(node, node.input[4], new_val_node_name, 4)
 
+        if not is_training and any(consumers[:2]):
+            # without training the statistics are the ones given
+            ctx.replace_all_inputs(stats_outputs[0], node.input[3])
+            ctx.replace_all_inputs(stats_outputs[1], node.input[4])
+
     @classmethod
     def version_9(cls, ctx, node, **kwargs):
         # is_test was removed - no change for us
-- 
2.43.0


From a5e9692f6c1963b1eed7c69e1d9e95c4d8ae780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 07/68] fix: CTCGreedyDecoder takes the blank label from
 blank_index

---
 tf2onnx/onnx_opset/nn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 3a7bd44..b485685 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -2035,7 +2035,11 @@ class CTCGreedyDecoder:
         const_one = ctx.make_const(utils.make_name("const_one"), np.array(1, np.int64)).output[0]
         const_one_unsq = ctx.make_const(utils.make_name("const_one"), np.array([1], np.int64)).output[0]
         const_zero = ctx.make_const(utils.make_name("const_zero"), np.array(0, np.int64)).output[0]
-        blank_label = ctx.make_node("Sub", [num_classes, const_one]).output[0]
+        # a negative blank_index counts from num_classes
+        blank_index = node.get_attr_value("blank_index", -1)
+        blank_label = ctx.make_const(utils.make_name("blank_index"), np.array(blank_index, np.int64)).output[0]
+        if blank_index < 0:
+            blank_label = ctx.make_node("Add", [num_classes, blank_label]).output[0]
         time = ctx.make_node("Range", [const_zero, max_time, const_one]).output[0]
         batch = ctx.make_node("Range", [const_zero, num_batch, const_one]).output[0]
         # shape = [max_time, 1, 1]
@@ -2061,7 +2065,8 @@ class CTCGreedyDecoder:
 
         # value = [batch_size, max_time]
         idx_shape = ctx.make_node("Shape", [max_idx_trans]).output[0]
-        keep_idx = ctx.make_node("Less", [max_idx_trans, blank_label]).output[0]
+        is_blank = ctx.make_node("Equal", [max_idx_trans, blank_label]).output[0]
+        keep_idx = ctx.make_node("Not", [is_blank]).output[0]
         keep_idx = ctx.make_node("And", [keep_idx, valid_elts_trans]).output[0]
 
         if merge_repeated:
-- 
2.43.0


From e84f99f6f135d3a672cb672e5d3fc74745cb9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 08/68] fix: Resize at opset 7 and 8 reports align_corners and
 half_pixel_centers, as opset 9 does

---
 tf2onnx/onnx_opset/nn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index b485685..74ca828 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1374,6 +1374,12 @@ class Resize:
     def version_7(cls, ctx, node, **kwargs):
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
                         node.name)
+        if "align_corners" in node.attr:
+            utils.make_sure(not node.attr["align_corners"].i,
+                            "Opset 11 is required for align_corners=True for node %s", node.name)
+        if "half_pixel_centers" in node.attr:
+            utils.make_sure(not node.attr["half_pixel_centers"].i,
+                            "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
         node.type = "Upsample"
         shape = ctx.get_shape(node.input[0])
-- 
2.43.0


From 46ba169f22461fe2c3f28e1c1bf8891cc98b802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 09/68] fix: MatMul of an operand of unknown rank no longer
 drops transpose_a and transpose_b

---
 tf2onnx/onnx_opset/math.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index b808019..777139b 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -390,21 +390,21 @@ class MatMul:
 
         if transpose_a != 0:
             shape = ctx.get_shape(node.input[0])
-            if shape:
-                perm = list(range(0, len(shape)))
-                tmp = perm[-1]
-                perm[-1] = perm[-2]
-                perm[-2] = tmp
-                ctx.insert_new_node_on_input(node, "Transpose", node.input[0], input_index=0, perm=perm)
+            utils.make_sure(shape is not None, "Cannot transpose input 0 of %s, its rank is unknown", node.name)
+            perm = list(range(0, len(shape)))
+            tmp = perm[-1]
+            perm[-1] = perm[-2]
+            perm[-2] = tmp
+            ctx.insert_new_node_on_input(node, "Transpose", node.input[0], input_index=0, perm=perm)
 
         if transpose_b != 0:
             shape = ctx.get_shape(node.input[1])
-            if shape:
-                perm = list(range(0, len(shape)))
-                tmp = perm[-1]
-                perm[-1] = perm[-2]
-                perm[-2] = tmp
-                ctx.insert_new_node_on_input(node, "Transpose", node.input[1], input_index=1, perm=perm)
+            utils.make_sure(shape is not None, "Cannot transpose input 1 of %s, its rank is unknown", node.name)
+            perm = list(range(0, len(shape)))
+            tmp = perm[-1]
+            perm[-1] = perm[-2]
+            perm[-2] = tmp
+            ctx.insert_new_node_on_input(node, "Transpose", node.input[1], input_index=1, perm=perm)
 
         unsupported = ["a_is_sparse", "b_is_sparse"]
         for i in unsupported:
-- 
2.43.0


From 85d00ee30fb7249db6f00bfc957abb481756724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 10/68] fix: AdjustContrastv2 casts the contrast factor when
 the image type differs

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 74ca828..6cfced3 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1546,7 +1546,7 @@ class AdjustContrastv2:
         images, contrast_factor = node.input
         dtype = ctx.get_dtype(images)
         if ctx.get_dtype(contrast_factor) != dtype:
-            contrast_factor = ctx.make_node("Cast", [dtype], attr={'to': dtype}).output[0]
+            contrast_factor = ctx.make_node("Cast", [contrast_factor], attr={'to': dtype}).output[0]
         rank = ctx.get_rank(images)
         utils.make_sure(rank is not None, "AdjustContrastv2 requires input of known rank")
         # Reduce height and width only
-- 
2.43.0


From e481269013324ed1e5485be2fed0a0e282994ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 11/68] fix: TopK before opset 10 casts its own input, not
 every use of that tensor

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index c390cbb..3ed38a2 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1225,7 +1225,7 @@ class TopKV2:
 
         if dtypes[0] != onnx_pb.TensorProto.FLOAT:
             # opset-1 only supports float dtypes
-            ctx.insert_new_node_on_output("Cast", new_topk_node.input[0], to=onnx_pb.TensorProto.FLOAT)
+            ctx.insert_new_node_on_input(new_topk_node, "Cast", new_topk_node.input[0], to=onnx_pb.TensorProto.FLOAT)
             ctx.insert_new_node_on_output("Cast", new_topk_node.output[0], to=dtypes[0])
         new_cast_name = utils.make_name(topk_node_name)
         ctx.make_node("Cast", [new_topk_node.output[1]], outputs=[topk_output2],
-- 
2.43.0


From 5d5d96e04674468d83351d41e1c29eb798cb8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 12/68] fix: Equal and NotEqual leave an empty string constant
 that other nodes use alone

---
 tf2onnx/onnx_opset/logical.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index d4d642f..84e4617 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -42,8 +42,9 @@ def _add_cast_to_same_type_to_inputs(graph, node, supported_dtypes, target_dtype
             if graph.is_const(inp) and graph.get_tensor_value(inp) == '':
                 # Convert '' string constant to -1 int
                 # https://github.com/tensorflow/tensorflow/blob/4e7f0185c70faf35e12acbfe381a729d1e6cc38c/tensorflow/python/feature_column/feature_column.py#L2286
-                const_node = graph.get_node_by_output(inp)
-                const_node.set_tensor_value(utils.np.array(-1))
+                # in a constant of its own since other nodes may use the string
+                const_node = graph.make_const(utils.make_name("minus_one"), utils.np.array(-1))
+                graph.replace_input(inp_cast, inp, const_node.output[0], 0)
 
 
 @tf_op("LogicalNot", onnx_op="Not")
-- 
2.43.0


From f2f2ebe84caadfff184f70468df98cd38e6f2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 13/68] fix: pooling of integers casts its own input, not every
 use of that tensor

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 6cfced3..6c5a80d 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -699,7 +699,7 @@ class PoolOp:
             output_shapes = [ctx.get_shape(node.output[0])]
             cast_node = ctx.make_node("Cast", [node.input[0]], dtypes=[onnx_pb.TensorProto.FLOAT], shapes=input_shapes,
                                       name=node.name + "_cast", attr={"to": onnx_pb.TensorProto.FLOAT})
-            _ = ctx.insert_node_on_output(cast_node, node.inputs[0].output[0])
+            ctx.replace_input(node, node.input[0], cast_node.output[0], 0)
             cast_back_node = ctx.make_node("Cast", [node.output[0]], dtypes=[origin_dtype], shapes=output_shapes,
                                            name=node.name + "_castback", attr={"to": origin_dtype})
             _ = ctx.insert_node_on_output(cast_back_node, node.output[0])
-- 
2.43.0


From a989705ff6477d0405cd53877948c8befc30c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 14/68] fix: quantized convolution weights other nodes read are
 not transposed in place

---
 tf2onnx/onnx_opset/nn.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 6c5a80d..20d9863 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -142,20 +142,25 @@ def conv_convert_inputs(ctx, node, with_kernel=False, new_kernel_shape=None,
 
         # If kernel is a constant, transpose that one if we are the only consumer.
         need_transpose = True
-        if (kernel_node.is_const() or kernel_node.op.op_type == "DequantizeLinear") \
-            and len(ctx.find_output_consumers(kernel_name)) == 1:
+        sole_consumer = len(ctx.find_output_consumers(kernel_name)) == 1
+        if sole_consumer and kernel_node.op.op_type == "DequantizeLinear":
+            sole_consumer = len(ctx.find_output_consumers(kernel_node.input[0])) == 1
+        if (kernel_node.is_const() or kernel_node.op.op_type == "DequantizeLinear") and sole_consumer:
             if kernel_node.op.op_type == 'DequantizeLinear':
                 # Assuming the model was trained in NHWC in TF,
                 # the weights would be in [fH, fW, C_in, C_out].
                 # orig_conv_weights -> Q -> DQ -> new_conv_weights -> conv
-                weights_node = kernel_node.inputs[0].inputs[0]
+                quant_node = kernel_node.inputs[0]
+                weights_node = quant_node.inputs[0]
                 val = weights_node.get_tensor_value(as_list=False)
                 val = np.transpose(val, permutation)
-                weights_node.set_tensor_value(val)
+                # The constant may have other readers, only the Q node gets the transposed weights.
+                new_weights = ctx.make_const(utils.make_name(weights_node.name), val)
+                ctx.replace_input(quant_node, quant_node.input[0], new_weights.output[0], 0)
                 need_transpose = False
                 # Change the quantization axis for Q and DQ node accordingly
                 kernel_node.set_attr("axis", quantization_axis) # DQ node
-                kernel_node.inputs[0].set_attr("axis", quantization_axis) # Q node
+                quant_node.set_attr("axis", quantization_axis) # Q node
             else:
                 val = kernel_node.get_tensor_value(as_list=False)
                 val = np.transpose(val, permutation)
-- 
2.43.0


From d5dc619eef92ec433e5cfbd670ba5b2284bf0150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 15/68] fix: quantize_and_dequantize below opset 10 is reported
 instead of emitting QuantizeLinear

---
 tf2onnx/rewriter/quantization_ops_rewriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/rewriter/quantization_ops_rewriter.py b/tf2onnx/rewriter/quantization_ops_rewriter.py
index d094746..0c3e291 100644
--- a/tf2onnx/rewriter/quantization_ops_rewriter.py
+++ b/tf2onnx/rewriter/quantization_ops_rewriter.py
@@ -137,6 +137,9 @@ def create_qdq_nodes(g, match_results):
     return g.get_nodes()
 
 def rewrite_quantize_and_dequantize(g, ops):
+    # QuantizeLinear and DequantizeLinear start at opset 10. Before that the op stays unmapped and is reported.
+    if g.opset < 10:
+        return ops
 
     pattern_for_qdq_v2 = \
         OpTypePattern('QuantizeAndDequantizeV2', name='output', inputs=[
-- 
2.43.0


From b8c308998d56eb87abc71d627646322dd2fcd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 16/68] fix: dynamic RNN loops below opset 8 become Loop, Scan
 starts at opset 8

---
 tf2onnx/rewriter/custom_rnn_rewriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/rewriter/custom_rnn_rewriter.py b/tf2onnx/rewriter/custom_rnn_rewriter.py
index f65fbe4..42cb323 100644
--- a/tf2onnx/rewriter/custom_rnn_rewriter.py
+++ b/tf2onnx/rewriter/custom_rnn_rewriter.py
@@ -40,6 +40,10 @@ class CustomRnnRewriter(LoopRewriterBase):
         return self.run_internal()
 
     def need_rewrite(self, context):
+        if self.g.opset < 8:
+            # Scan starts at opset 8, the generic loop rewriter handles the loop.
+            return False
+
         context.rnn_scope = get_rnn_scope_name(context.while_context_scope)
 
         res = parse_rnn_loop(self.g, context.loop_properties, context.rnn_scope,
-- 
2.43.0


From 033aed6f59e324bc4dd68263d8f352d9043e5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 17/68] fix: BatchToSpaceND and SpaceToBatchND read the tensor
 they are given, not the first output of its producer

---
 tf2onnx/onnx_opset/tensor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 3ed38a2..75765d8 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1533,19 +1533,19 @@ class BatchToSpace:
             # onnx op "DepthToSpace" does the same work on input tensor except that it works on "C",
             # and it only supports NCHW
             # T out = BatchToSpaceND(T input, int32 block_shape, int32 crops)
-            input_tensor = node.inputs[0]
-            input_shape = ctx.get_shape(input_tensor.output[0])
+            input_tensor = node.input[0]
+            input_shape = ctx.get_shape(input_tensor)
 
             if len(input_shape) == 3:
                 # insert automatically an Unsqueeze op if the input is 3d
                 unsqz1 = GraphBuilder(ctx).make_unsqueeze(
-                    {"axes": [3], "data": input_tensor.output[0]}, return_node=True)
+                    {"axes": [3], "data": input_tensor}, return_node=True)
                 # NHWC TO CNHW, so onnx op will work on "N" which is the same as tensorflow
                 trans1 = ctx.make_node("Transpose", unsqz1.output, {"perm": [3, 0, 1, 2]})
             else:
                 # Add explicit NHWC_TO_NCHW transpose before and NCHW_TO_NHWC transpose after subgraph.
                 # That enables more optimizations in TransposeOptimizer.
-                trans_nchw = ctx.make_node("Transpose", input_tensor.output, {"perm": NHWC_TO_NCHW})
+                trans_nchw = ctx.make_node("Transpose", [input_tensor], {"perm": NHWC_TO_NCHW})
                 # NCHW TO CNHW
                 trans1 = ctx.make_node("Transpose", trans_nchw.output, {"perm": [1, 0, 2, 3]})
             reorganize_node = ctx.make_node(node.type, trans1.output, attr={"blocksize": block_shape[0]})
@@ -1723,21 +1723,21 @@ class SpaceToBatch:
             # onnx op "SpaceToDepth" does the same work on input tensor except that it works on "C",
             # and it only supports NCHW
             # T out = SpaceToBatchND(T input, int32 block_shape, int32 crops)
-            input_tensor = node.inputs[0]
-            input_shape = ctx.get_shape(input_tensor.output[0])
+            input_tensor = node.input[0]
+            input_shape = ctx.get_shape(input_tensor)
             shapes = [ctx.get_shape(node.output[0])]
             dtypes = [ctx.get_dtype(node.output[0])]
 
             if len(input_shape) == 3:
                 # insert automatically an Unsqueeze op if the input is 3d
                 unsqz1 = GraphBuilder(ctx).make_unsqueeze(
-                    {"axes": [3], "data": input_tensor.output[0]}, return_node=True)
+                    {"axes": [3], "data": input_tensor}, return_node=True)
                 # NHWC TO CNHW
                 trans1 = ctx.make_node("Transpose", unsqz1.output, {"perm": [3, 0, 1, 2]})
             else:
                 # Add explicit NHWC_TO_NCHW transpose before and NCHW_TO_NHWC transpose after subgraph.
                 # That enables more optimizations in TransposeOptimizer.
-                trans_nchw = ctx.make_node("Transpose", input_tensor.output, {"perm": NHWC_TO_NCHW})
+                trans_nchw = ctx.make_node("Transpose", [input_tensor], {"perm": NHWC_TO_NCHW})
                 # NCHW TO CNHW
                 trans1 = ctx.make_node("Transpose", trans_nchw.output, {"perm": [1, 0, 2, 3]})
             # implement pads logic, the data format is NCHW
-- 
2.43.0


From fe5f536f49b862f50f922662163073fb1cda836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 18/68] fix: cross entropy and Resize read the tensors they are
 given, not the first outputs of their producers

---
 tf2onnx/onnx_opset/nn.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 20d9863..ffb06cb 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1527,8 +1527,7 @@ class Resize:
                 ori_shape_hw = GraphBuilder(ctx).make_slice(inputs_map)
                 ori_shape_hw_float = ctx.make_node("Cast", [ori_shape_hw], attr={"to": onnx_pb.TensorProto.FLOAT})
 
-                target_hw = node.inputs[1]
-                target_hw_float = ctx.make_node("Cast", target_hw.output, attr={"to": onnx_pb.TensorProto.FLOAT})
+                target_hw_float = ctx.make_node("Cast", [node.input[1]], attr={"to": onnx_pb.TensorProto.FLOAT})
 
                 scales_hw = ctx.make_node("Div", [target_hw_float.output[0], ori_shape_hw_float.output[0]])
 
@@ -1828,13 +1827,13 @@ class MatrixBandPart:
 
 
 def _make_softmax_cross_entropy_with_logits(ctx, label, logit, tf_ori_node):
-    label_dtype = ctx.get_dtype(label.output[0])
-    logit_dtype = ctx.get_dtype(logit.output[0])
+    label_dtype = ctx.get_dtype(label)
+    logit_dtype = ctx.get_dtype(logit)
     utils.make_sure(label_dtype == logit_dtype, "the following logic only works on same dtype of label and logit")
 
-    log_softmax = ctx.make_node(op_type="LogSoftmax", inputs=logit.output)
+    log_softmax = ctx.make_node(op_type="LogSoftmax", inputs=[logit])
     # implement tf.multiply(-1, tf.reduce_sum(tf.multiply(label, log_softmax), axis=1))
-    mul1 = ctx.make_node(op_type="Mul", inputs=[label.output[0], log_softmax.output[0]])
+    mul1 = ctx.make_node(op_type="Mul", inputs=[label, log_softmax.output[0]])
     reduce_sum_output = GraphBuilder(ctx).make_reduce_sum(
         {"data": mul1.output[0], "axes": [-1], "keepdims": 1, "noop_with_empty_axes": 1})
     const_negative_one = ctx.make_const(name=utils.make_name("const_negative_one"),
@@ -1897,19 +1896,17 @@ def sparse_softmax_cross_entropy_with_logits_op_by_gathernd(ctx, node, **kwargs)
 class SoftmaxCrossEntropyWithLogits:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
-        logits = node.inputs[0]
-        logit_dtype = ctx.get_dtype(logits.output[0])
-        labels = node.inputs[1]
-        label_dtype = ctx.get_dtype(labels.output[0])
+        logits = node.input[0]
+        logit_dtype = ctx.get_dtype(logits)
+        labels = node.input[1]
+        label_dtype = ctx.get_dtype(labels)
         if label_dtype != logit_dtype:
-            labels = ctx.make_node("Cast", labels.output, attr={"to": logit_dtype}, dtypes=[logit_dtype])
+            labels = ctx.make_node("Cast", [labels], attr={"to": logit_dtype}, dtypes=[logit_dtype]).output[0]
 
         _make_softmax_cross_entropy_with_logits(ctx, labels, logits, node)
 
 
 def _make_sparse_softmax_cross_entropy_with_logits(ctx, label, logit, tf_ori_node):
-    logit = logit.output[0]
-    label = label.output[0]
     label_dtype = ctx.get_dtype(label)
     logit_dtype = ctx.get_dtype(logit)
     utils.make_sure(label_dtype == logit_dtype, "the following logic only works on same dtype of label and logit")
@@ -1982,7 +1979,6 @@ class SparseSoftmaxCrossEntropyWithLogits:
     def version_9(cls, ctx, node, **kwargs):
         # float32/64 output = SparseSoftmaxCrossEntropyWithLogits(float32/64 features, int32/64 labels)
         # the detail math process of this op is: a = onehot(labels), b = logsoftmax(features), reduce_sum(mul(a, b))
-        logit_node = node.inputs[0]
         logit_shape = ctx.get_shape(node.input[0])
         logit_dtype = ctx.get_dtype(node.input[0])
 
@@ -2020,7 +2016,7 @@ class SparseSoftmaxCrossEntropyWithLogits:
         if logit_dtype != ctx.get_dtype(label_node.output[0]):
             label_node = ctx.make_node("Cast", label_node.output, attr={"to": logit_dtype}, dtypes=[logit_dtype])
 
-        _make_sparse_softmax_cross_entropy_with_logits(ctx, label_node, logit_node, node)
+        _make_sparse_softmax_cross_entropy_with_logits(ctx, label_node.output[0], node.input[0], node)
 
 
 @tf_op("CTCGreedyDecoder")
-- 
2.43.0


From 74b686209c52323d7909712c0916c1ba96ea20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:56 +0000
Subject: [PATCH 19/68] fix: Maximum, Minimum and Cumprod read the tensors they
 are given, not the first outputs of their producers

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 777139b..1718146 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -135,7 +135,7 @@ def make_min_or_max_op(ctx, op_type, inputs, outputs,
             sub_node = ctx.make_node("Sub", [has_correct_shape, has_correct_shape],
                                      op_name_scope=input_node.name)
             # use add as 'broadcast' op
-            add_node = ctx.make_node("Add", [input_node.output[0], sub_node.output[0]],
+            add_node = ctx.make_node("Add", [node.input[i], sub_node.output[0]],
                                      op_name_scope=input_node.name)
             ctx.replace_input(node, node.input[i], add_node.output[0], i)
     return final_node
@@ -569,7 +569,7 @@ class CumProd:
             axis = axis_node.get_tensor_value()
             axis_node = ctx.make_const(utils.make_name("axis"), np.array([axis], dtype=np.int64))
         else:
-            axis_node = ctx.make_node("Cast", inputs=[axis_node.output[0]], attr={"to": onnx_pb.TensorProto.INT64},
+            axis_node = ctx.make_node("Cast", inputs=[node.input[1]], attr={"to": onnx_pb.TensorProto.INT64},
                                       op_name_scope=node.name, outputs=[utils.make_name("axis")])
             axis_node = GraphBuilder(ctx).make_unsqueeze({'data': axis_node.output[0], 'axes': [0]}, return_node=True)
             axis = axis_node.output[0]
-- 
2.43.0


From 9472112d6d480bdcba3314dae8cc59d6d7d829b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 20/68] fix: padded NonMaxSuppressionV5 at opset 10 gives the
 padding constant an element type, not a list

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 75765d8..dc3631f 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1926,7 +1926,7 @@ class NonMaxSuppression:
                 gather_op = ctx.make_node("Gather", inputs=[input_score.input[0], original_nms_output.output[0]],
                                           dtypes=dtypes[1], shapes=shapes[1])
                 if ctx.opset <= 10:  # Dynamic padding not supported before opset 11
-                    zero_tensor = helper.make_tensor("value", dtypes[1], dims=[1], vals=[0])
+                    zero_tensor = helper.make_tensor("value", dtypes[1][0], dims=[1], vals=[0])
                     padding = ctx.make_node("ConstantOfShape", inputs=[pad_amt.output[0]], attr={"value": zero_tensor})
                     pad_op = ctx.make_node("Concat", inputs=[gather_op.output[0], padding.output[0]],
                                            outputs=[node.output[1]], dtypes=dtypes[1], shapes=shapes[1],
-- 
2.43.0


From 09952bc22b2e081870a333c39ebf24b2bde84a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 21/68] fix: DivNoNan below opset 11 does not compare floats
 with Equal, which takes none there

---
 tf2onnx/onnx_opset/math.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 1718146..ca5ec54 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -336,7 +336,12 @@ class DivNoNan:
         node.type = "Div"
         np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[1]))
         zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, np_dtype)).output[0]
-        is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        if ctx.opset < 11:
+            # Equal takes no floats before opset 11
+            not_zero = ctx.make_node("Cast", [node.input[1]], attr={"to": onnx_pb.TensorProto.BOOL}).output[0]
+            is_zero = ctx.make_node("Not", [not_zero]).output[0]
+        else:
+            is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
         where_node = ctx.make_node("Where", [is_zero, zero_const, node.output[0]])
         ctx.insert_node_on_output(where_node, node.output[0])
 
-- 
2.43.0


From 5a0d387db0c786c5cd8b697035d244075335b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 22/68] fix: SparseToDense casts int32 indices and shapes,
 Expand and ScatterND take int64 only

---
 tf2onnx/onnx_opset/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index dc3631f..e7cec30 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2497,6 +2497,10 @@ class SparseToDense:
         idx_is_scalar = idx_shape is not None and idx_shape[0] == 1
         utils.make_sure(not val_is_scalar or idx_is_scalar, "SparseToDense not implemented yet for scalar values")
 
+        if ctx.get_dtype(sparse_indices) != TensorProto.INT64:
+            sparse_indices = ctx.make_node("Cast", [sparse_indices], attr={"to": TensorProto.INT64}).output[0]
+        if ctx.get_dtype(out_shape) != TensorProto.INT64:
+            out_shape = ctx.make_node("Cast", [out_shape], attr={"to": TensorProto.INT64}).output[0]
         expand_node = ctx.make_node("Expand", [default_val, out_shape])
         node.type = "ScatterND"
         ctx.replace_inputs(node, [expand_node.output[0], sparse_indices, sparse_vals])
-- 
2.43.0


From 9be519f5e7fabfe7cea479185ba9bd4f39f8066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 23/68] fix: Pad casts the padding value along with the data

---
 tf2onnx/onnx_opset/nn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index ffb06cb..020fa35 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -952,6 +952,9 @@ class Pad:
             cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=TensorProto.FLOAT)
             ctx.set_dtype(cast_node.output[0], TensorProto.FLOAT)
             ctx.copy_shape(node.name, cast_node.output[0])
+            if len(node.input) > 2:
+                # the padding value has the type of the data
+                ctx.insert_new_node_on_input(node, "Cast", node.input[2], to=TensorProto.FLOAT, input_index=2)
 
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
-- 
2.43.0


From a0479cb0734ae20f875b8175eacfa9694326697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 24/68] fix: the value attribute of Pad is a float for integer
 data too

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 020fa35..c7890d2 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -903,7 +903,7 @@ class Pad:
 
         if mode in [None, "constant"] and len(node.input) == 3:
             const_val = node.inputs[2].get_tensor_value()
-            node.set_attr("value", const_val)
+            node.set_attr("value", float(const_val))
             ctx.remove_input(node, node.input[2], 2)
 
         ctx.remove_input(node, node.input[1], 1)
-- 
2.43.0


From fb735826084ec8c554d0fac63f8027ad977b72c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 25/68] fix: AdjustSaturation and AdjustHue cast their float
 factor to the type of the images

---
 tf2onnx/onnx_opset/nn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index c7890d2..b41b583 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1574,6 +1574,8 @@ class AdjustSaturation:
         images, factor = node.input
         dtype = ctx.get_dtype(images)
         np_dtype = utils.map_onnx_to_numpy_type(dtype)
+        if ctx.get_dtype(factor) != dtype:
+            factor = ctx.make_node("Cast", [factor], attr={'to': dtype}).output[0]
         k = ctx.make_const(utils.make_name("three"), np.array([3], np.int64)).output[0]
         ordered, indices = ctx.make_node("TopK", [images, k], attr={'axis': -1}, output_count=2).output
         # Sorted and separated into channels
@@ -1605,6 +1607,8 @@ class AdjustHue:
         images, angle_delta = node.input
         dtype = ctx.get_dtype(images)
         np_dtype = utils.map_onnx_to_numpy_type(dtype)
+        if ctx.get_dtype(angle_delta) != dtype:
+            angle_delta = ctx.make_node("Cast", [angle_delta], attr={'to': dtype}).output[0]
 
         const_one = ctx.make_const(utils.make_name("const_one"), np.array(1.0, np_dtype)).output[0]
         const_six = ctx.make_const(utils.make_name("const_six"), np.array(6.0, np_dtype)).output[0]
-- 
2.43.0


From e209ba1862ddefd28657cbec6d230d5f9a6063b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 26/68] fix: CTCGreedyDecoder masks its input with a mask of
 the same type

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index b41b583..330d59c 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -2060,7 +2060,7 @@ class CTCGreedyDecoder:
         time_unsq = GraphBuilder(ctx).make_unsqueeze({"data": time, "axes": [1, 2]})
         valid_elts = ctx.make_node("Less", [time_unsq, seq_lens_unsq]).output[0]
         # shape = [max_time, batch_size, 1]
-        valid_mask = ctx.make_node("Cast", [valid_elts], attr={"to": TensorProto.FLOAT}).output[0]
+        valid_mask = ctx.make_node("Cast", [valid_elts], attr={"to": ctx.get_dtype(inp)}).output[0]
         # shape = [max_time, batch_size, num_classes]
         valid_inp = ctx.make_node("Mul", [inp, valid_mask]).output[0]
 
-- 
2.43.0


From 276c26716724810627ffc7e50115646b36015e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 27/68] fix: segment means bound the counts with a constant of
 the type of the data

---
 tf2onnx/onnx_opset/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..8906171 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -289,7 +289,7 @@ class SegmentSum():
 
         if scaling_amt is not None and num_segments_specified:
             # If empty segments are possible, we must avoid division by zero
-            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=np.float32))
+            const_one_float = ctx.make_const(utils.make_name("const_one_float"), np.array(1, dtype=data_np_dtype))
             scaling_amt = ctx.make_node("Max", [scaling_amt, const_one_float.output[0]]).output[0]
 
 
-- 
2.43.0


From 4aec92116c3cb501b37ec648a227c829752f0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 28/68] fix: LSTMBlockCell constants have the type of the
 cell's inputs

---
 tf2onnx/onnx_opset/rnn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/rnn.py b/tf2onnx/onnx_opset/rnn.py
index aebd46a..7118ad2 100644
--- a/tf2onnx/onnx_opset/rnn.py
+++ b/tf2onnx/onnx_opset/rnn.py
@@ -74,6 +74,7 @@ class LSTMBlockCell:
         forget_bias = float(node.get_attr("forget_bias").f)
         cell_clip = float(node.get_attr("cell_clip").f)
         use_peephole = bool(node.get_attr("use_peephole").i)
+        np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(x))
 
         def make_sigmoid(i, w, b):
             i_w_node = ctx.make_node("Mul", [i, w])
@@ -102,14 +103,14 @@ class LSTMBlockCell:
         # f = f + forget_bias
         forget_bias_const = ctx.make_const(
             utils.make_name("{}__forget_bias".format(node.name)),
-            np.array(forget_bias, dtype=np.float32)
+            np.array(forget_bias, dtype=np_dtype)
         )
         f_node = ctx.make_node("Add", [f, forget_bias_const.output[0]])
 
         if not use_peephole:
             zeros_const = ctx.make_const(
                 utils.make_name("{}__zeros_const".format(node.name)),
-                np.zeros([w_last_dim], dtype=np.float32)
+                np.zeros([w_last_dim], dtype=np_dtype)
             )
             nodes.append(zeros_const)
             wci = zeros_const.output[0]
-- 
2.43.0


From 695314532c63a903961293ff148b3b0ee62db78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 29/68] fix: CropAndResize of images that are not floats casts
 them, the crops are floats

---
 tf2onnx/onnx_opset/nn.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 330d59c..c91fed6 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1289,7 +1289,11 @@ class CropAndResize:
         bbox_node = ctx.make_const(utils.make_name("bbox"), transform_rois)
         dtypes = [ctx.get_dtype(node.output[0])]
         shapes = [ctx.get_shape(node.output[0])]
-        input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": [0, 3, 1, 2]},
+        image = node.input[0]
+        if ctx.get_dtype(image) != TensorProto.FLOAT:
+            # the crops and the boxes are floats whatever the type of the image
+            image = ctx.make_node("Cast", [image], attr={"to": TensorProto.FLOAT}).output[0]
+        input_nchw = ctx.make_node("Transpose", [image], {"perm": [0, 3, 1, 2]},
                                    name=utils.make_name(node.name))
         crop_and_resize = ctx.make_node("RoiAlign", inputs=[input_nchw.output[0], bbox_node.output[0],
                                                             cast_node.output[0]],
@@ -1307,6 +1311,9 @@ class CropAndResize:
             "method").s == b"nearest" else "linear"
         extrapolation_value = float(node.get_attr("extrapolation_value", "0").f)
         input_x = node.input[0]
+        if ctx.get_dtype(input_x) != TensorProto.FLOAT:
+            # the crops and the boxes are floats whatever the type of the image
+            input_x = ctx.make_node("Cast", [input_x], attr={'to': TensorProto.FLOAT}).output[0]
         x_shape = ctx.make_node("Shape", [input_x]).output[0]
         num_channels = GraphBuilder(ctx).make_slice({"data": x_shape, "starts": [3], "ends": [4], "axes": [0]})
         boxes = node.input[1]
@@ -1354,7 +1361,7 @@ class CropAndResize:
         squeeze_x = GraphBuilder(g).make_squeeze({'data': recovered_x.output[0], 'axes': [0]}, return_node=True)
         g.make_node("Identity", [cond_name], outputs=[cond_out_name])
         g.add_graph_output(cond_out_name, TensorProto.BOOL, [])
-        g.add_graph_output(squeeze_x.output[0], ctx.get_dtype(node.input[0]), [-1, -1, -1])
+        g.add_graph_output(squeeze_x.output[0], TensorProto.FLOAT, [-1, -1, -1])
         trip_node = ctx.make_node("Size", [box_ind])
         cond_const = ctx.make_const(utils.make_name("cond"), np.ones((), dtype=bool))
         ctx.remove_node(node.name)
-- 
2.43.0


From ef4d185c08247dbfdf7765a77d2dd572043b36e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 30/68] fix: Erf below opset 9 computes in float, the type of
 its constants

---
 tf2onnx/onnx_opset/math.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index ca5ec54..b414dc1 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -460,6 +460,10 @@ class Erf:
             ctx.make_const(null, np.array(0., dtype=np.float32))
 
         x = node.input[0]
+        dtype = ctx.get_dtype(x)
+        if dtype != onnx_pb.TensorProto.FLOAT:
+            # the constants are floats
+            x = ctx.make_node("Cast", [x], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
 
         # erf(x):
         #  sign = 1 if x >= 0 else -1
@@ -507,6 +511,11 @@ class Erf:
         shapes = node.output_shapes
         dtypes = node.output_dtypes
         ctx.remove_node(node.name)
+        if dtype != onnx_pb.TensorProto.FLOAT:
+            erf_node = ctx.make_node("Mul", [num_17_node.output[0], sign_node.output[0]])
+            ctx.make_node("Cast", erf_node.output, attr={"to": dtype}, outputs=[output_name], name=n,
+                          shapes=shapes, dtypes=dtypes)
+            return
         ctx.make_node("Mul", [num_17_node.output[0], sign_node.output[0]], outputs=[output_name], name=n,
                       shapes=shapes, dtypes=dtypes)
 
-- 
2.43.0


From c13aa7e6f3018cec4d830c6d5f0b34fd5d9a532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 31/68] fix: RFFT2D computes its angles in the type of its
 input

---
 tf2onnx/onnx_opset/signal.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/onnx_opset/signal.py b/tf2onnx/onnx_opset/signal.py
index ba68106..6f6ed12 100644
--- a/tf2onnx/onnx_opset/signal.py
+++ b/tf2onnx/onnx_opset/signal.py
@@ -552,7 +552,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ad_C01']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast'))
         varx['Ca_output01'] = node.output[0]
 
         node = GraphBuilder(ctx).make_unsqueeze({'data': varx['Ga_output0'], 'axes': [0]}, return_node=True)
@@ -568,7 +568,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Re_reshaped0']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast1'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast1'))
         varx['Ca_output0'] = node.output[0]
 
         inputs = [varx['Ca_output0'], varx['Ca_output01']]
@@ -577,7 +577,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ga_output0']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast2'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast2'))
         varx['Ca_output02'] = node.output[0]
 
         inputs = [varx['Mu_C01'], varx['Ca_output02']]
@@ -636,7 +636,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ad_C02']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast3'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast3'))
         varx['Ca_output04'] = node.output[0]
 
         node = GraphBuilder(ctx).make_unsqueeze({'data': varx['Ga_output03'], 'axes': [0]}, return_node=True)
@@ -652,7 +652,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Re_reshaped03']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast4'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast4'))
         varx['Ca_output03'] = node.output[0]
 
         inputs = [varx['Ca_output03'], varx['Ca_output04']]
@@ -661,7 +661,7 @@ class CommonFFT2DOp(CommonFFTOp):
 
         inputs = [varx['Ga_output03']]
         node = ctx.make_node('Cast', inputs=inputs, attr=dict(
-            to=onnx_pb.TensorProto.FLOAT), name=utils.make_name('Ca_Cast5'))
+            to=onnx_dtype), name=utils.make_name('Ca_Cast5'))
         varx['Ca_output05'] = node.output[0]
 
         inputs = [varx['Mu_C04'], varx['Ca_output05']]
-- 
2.43.0


From 6fd2ce2f48219471318e2a2c246a367f28de2247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 32/68] fix: Resize ops other than nearest neighbour return
 float images for images of any type

---
 tf2onnx/onnx_opset/nn.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index c91fed6..2350346 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1385,6 +1385,13 @@ class CropAndResize:
 
 @tf_op(["ResizeBilinear", "ResizeNearestNeighbor", "ResizeBicubic", "ResizeArea"])
 class Resize:
+    @classmethod
+    def _cast_image(cls, ctx, node):
+        # all but ResizeNearestNeighbor return float whatever the type of the images is
+        if ctx.get_dtype(node.output[0]) == onnx_pb.TensorProto.FLOAT and \
+                ctx.get_dtype(node.input[0]) != onnx_pb.TensorProto.FLOAT:
+            ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=onnx_pb.TensorProto.FLOAT)
+
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
         utils.make_sure(node.type != "ResizeBicubic", "Opset 11 is required for bicubic interpolation for node %s",
@@ -1396,6 +1403,7 @@ class Resize:
             utils.make_sure(not node.attr["half_pixel_centers"].i,
                             "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
+        cls._cast_image(ctx, node)
         node.type = "Upsample"
         shape = ctx.get_shape(node.input[0])
         target_shape = node.inputs[1].get_tensor_value()
@@ -1432,6 +1440,7 @@ class Resize:
             exclude_outside = True
         else:
             mode = "nearest"
+        cls._cast_image(ctx, node)
         roi = ctx.make_const(utils.make_name("roi"), np.array([]).astype(np.float32))
         input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW})
         shape = ctx.get_shape(node.input[0])
@@ -1502,6 +1511,7 @@ class Resize:
                             "Opset 11 is required for half_pixel_centers=True for node %s", node.name)
         mode = "linear" if node.type == "ResizeBilinear" else "nearest"
 
+        cls._cast_image(ctx, node)
         # because onnxruntime only supports to scale the last two dims so transpose is inserted
         input_nchw = ctx.make_node("Transpose", [node.input[0]], {"perm": constants.NHWC_TO_NCHW})
         if use_target_size:
-- 
2.43.0


From 94ade1efa22a07edafc11616f168def593719c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 33/68] fix: MaxPoolWithArgmax with int32 indices casts them,
 those of MaxPool are int64

---
 tf2onnx/onnx_opset/nn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 2350346..a89abef 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -783,6 +783,11 @@ class MaxPoolWithArgmaxOp:
             result = ctx.make_node("Add", [xyc, n_range_scale]).output[0]
         else:
             result = xyc
+        argmax_dtype = ctx.get_dtype(node.output[1])
+        if argmax_dtype != onnx_pb.TensorProto.INT64:
+            # the indices of the onnx op are always int64
+            result = ctx.make_node("Cast", [result], attr={'to': argmax_dtype}).output[0]
+            ctx.set_dtype(node.output[1], onnx_pb.TensorProto.INT64)
         ctx.replace_all_inputs(node.output[1], result, ops=consumers)
 
         add_padding(ctx, node, kernel_shape, strides)
-- 
2.43.0


From be4899c7b0c9c39359251e72030bb84d060d170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 34/68] fix: InvertPermutation of int32 casts the indices,
 those of TopK are int64

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index b414dc1..57cd10b 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1052,9 +1052,10 @@ class InvertPermutationOp:
 
         ctx.remove_node(node.name)
 
+        # the indices TopK returns are always int64
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={'to': onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From daeaca19c8c07e8b8baff03bcfc1a76fae1d3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 35/68] fix: ClipByValue of integers below opset 12 records the
 float type of what it computes

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 57cd10b..530fdfb 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -175,9 +175,10 @@ class ClipByValueOp:
         if ctx.get_dtype(max_node) not in supported:
             # cast max if needed
             max_node = ctx.insert_new_node_on_input(node, "Cast", max_node, to=onnx_pb.TensorProto.FLOAT).output[0]
+        clip_dtype = dtypes[0] if input_dtype in supported else onnx_pb.TensorProto.FLOAT
         ctx.remove_node(name)
         new_node = ctx.make_node("Max", [node.input[0], min_node], outputs=[node.output[0]],
-                                 shapes=shapes, dtypes=dtypes)
+                                 shapes=shapes, dtypes=[clip_dtype])
         if input_dtype not in supported:
             # cast the data tensor if needed
             ctx.insert_new_node_on_input(new_node, "Cast", new_node.input[0], to=onnx_pb.TensorProto.FLOAT)
@@ -185,7 +186,7 @@ class ClipByValueOp:
         new_node = ctx.insert_new_node_on_output("Min", new_node.output[0], name=utils.make_name(name))
         new_node.input.append(max_node)
         # copy shape and type
-        ctx.set_dtype(new_node.output[0], dtypes[0])
+        ctx.set_dtype(new_node.output[0], clip_dtype)
         ctx.set_shape(new_node.output[0], shapes[0])
         if dtypes[0] not in supported:
             # cast output if needed
-- 
2.43.0


From 58605fd2242fc263579908ada4cea8b8e218fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 36/68] fix: RaggedRange with int32 splits casts them to that

---
 tf2onnx/onnx_opset/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e7cec30..470ff69 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2719,6 +2719,9 @@ class RaggedRange:
 
         split_ends = ctx.make_node("CumSum", [row_lens, const_zero_int64]).output[0]
         splits_out = ctx.make_node("Concat", [const_zero_list, split_ends], attr={'axis': 0}).output[0]
+        splits_dtype = ctx.get_dtype(node.output[0])
+        if splits_dtype != TensorProto.INT64:
+            splits_out = ctx.make_node("Cast", [splits_out], attr={'to': splits_dtype}).output[0]
         col_indices_cast = ctx.make_node("Cast", [col_indices], attr={'to': data_dtype}).output[0]
 
         if ctx.get_rank(starts) != 1:
-- 
2.43.0


From 4bb5960a26844ddd8a793fa25bb59f1d26f7db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 37/68] fix: TopK below opset 10 records the float values it
 gives and casts indices to the type asked for

---
 tf2onnx/onnx_opset/tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 470ff69..32b10c4 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1221,7 +1221,7 @@ class TopKV2:
         new_topk_node = ctx.make_node("TopK", [node.input[0]],
                                       outputs=[topk_output1, utils.port_name(new_topk_name, 1)],
                                       name=new_topk_name, attr={"k": k},
-                                      shapes=shapes, dtypes=[dtypes[0], onnx_pb.TensorProto.INT64])
+                                      shapes=shapes, dtypes=[onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.INT64])
 
         if dtypes[0] != onnx_pb.TensorProto.FLOAT:
             # opset-1 only supports float dtypes
@@ -1229,8 +1229,8 @@ class TopKV2:
             ctx.insert_new_node_on_output("Cast", new_topk_node.output[0], to=dtypes[0])
         new_cast_name = utils.make_name(topk_node_name)
         ctx.make_node("Cast", [new_topk_node.output[1]], outputs=[topk_output2],
-                      name=new_cast_name, attr={"to": onnx_pb.TensorProto.INT32},
-                      shapes=[shapes[1]], dtypes=[onnx_pb.TensorProto.INT32])
+                      name=new_cast_name, attr={"to": dtypes[1]},
+                      shapes=[shapes[1]], dtypes=[dtypes[1]])
 
     @classmethod
     def any_version_after10(cls, opset, ctx, node, **kwargs):
-- 
2.43.0


From 52d4bf8798f748c4abc9dd20813f08236cdf6374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 38/68] fix: Concat below opset 8 casts back unless its only
 reader is a cast

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 32b10c4..f547b1e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -47,7 +47,7 @@ def _wrap_concat_with_cast(ctx, node):
             ctx.set_dtype(input_cast.output[0], onnx_pb.TensorProto.FLOAT)
         next_nodes = ctx.find_output_consumers(node.output[0])
         # cast output back to dtype unless the next op is a cast
-        if next_nodes[0].type != "Cast":
+        if len(next_nodes) != 1 or next_nodes[0].type != "Cast":
             output_cast = ctx.insert_new_node_on_output("Cast", output_name, name=node.child_name(),
                                                         to=dtype)
             ctx.set_dtype(output_cast.output[0], dtype)
-- 
2.43.0


From a1814687db172f2fe3640cbd40ecef873f62ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 39/68] fix: WordpieceTokenizeWithOffsets reports missing
 initialized_tables

---
 tf2onnx/custom_opsets/string_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/custom_opsets/string_ops.py b/tf2onnx/custom_opsets/string_ops.py
index 6a75d55..c282141 100644
--- a/tf2onnx/custom_opsets/string_ops.py
+++ b/tf2onnx/custom_opsets/string_ops.py
@@ -197,7 +197,7 @@ class WordpieceTokenizeWithOffsetsOp:
         utils.make_sure(len(node.input) == 2,
                         "[WordpieceTokenizeWithOffsetsOp] Expecting 2 inputs not %r.", len(node.input))
         utils.make_sure(initialized_tables is not None,
-                        "[WordpieceTokenizeWithOffsetsOp] initialized_tables cannot be None.", len(node.input))
+                        "[WordpieceTokenizeWithOffsetsOp] initialized_tables cannot be None.")
         parent = ctx.get_node_by_output(node.input[1])
         while parent.type == 'Identity':
             parent = ctx.get_node_by_output(parent.input[0])
-- 
2.43.0


From 09fdc707fbb182d9b910374607d409c3bec576ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:07 +0000
Subject: [PATCH 40/68] fix: einsum runtime ReduceSum without axes reads its
 own noop_with_empty_axes

---
 tf2onnx/optimizer/einsum_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..2384b2d 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -180,7 +180,7 @@ class OnnxMicroRuntime:
             keepdims = keepdims.i
         if noop_with_empty_axes is not None:
             noop_with_empty_axes = noop_with_empty_axes.i
-        if axes is None and self.noop_with_empty_axes is not None:
+        if axes is None and noop_with_empty_axes:
             return (data,)
         if axes is not None and not isinstance(axes, int):
             if isinstance(axes, np.ndarray) and len(axes.shape) == 0:
-- 
2.43.0


From 8a231c690a8dc3efb3602d8302e2cf8fab2717bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 41/68] fix: run_rewriters reports broken graphs in debug mode

---
 tf2onnx/tfonnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..3700edb 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -386,7 +386,7 @@ def run_rewriters(g, funcs, continue_on_error):
         if utils.is_debug_mode():
             broken_outputs = g.check_integrity()
             if broken_outputs:
-                logging.error(
+                logger.error(
                     "After rewriter %s, graph breaks at outputs %s",
                     func.__name__, broken_outputs
                 )
-- 
2.43.0


From fa11eecd78f11c73d6eaf1b0e3d8e69a44928d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 42/68] fix: SampleDistortedBoundingBox without boxes uses the
 minimum area it made

---
 tf2onnx/onnx_opset/nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index a89abef..ac44448 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -1137,7 +1137,7 @@ class SampleDistortedBoundingBox:
         boxes_tensor_shape = ctx.get_shape(bounding_boxes)
         if boxes_tensor_shape is not None and 0 in boxes_tensor_shape and use_image_if_no_bounding_boxes:
             no_boxes = True
-            min_area_node = ctx.make_node("Max", [min_object_covered, min_area_const]).output[0]
+            min_area_node = ctx.make_node("Max", [min_object_covered, min_area_node]).output[0]
         else:
             no_boxes = False
 
-- 
2.43.0


From 8cd65b51f8fdf29e69e8e0d53ed903b046b1de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 43/68] fix: MatMul names the unsupported type in its error

---
 tf2onnx/onnx_opset/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 530fdfb..e9ea819 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -389,7 +389,7 @@ class MatMul:
             # conjugation operation on complex data not supported in onnx for now
             # so if it's complex than raise exception
             if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-                raise ValueError("dtype " + dtype + " is not supported in onnx matmul for now")
+                raise ValueError("dtype " + str(dtype) + " is not supported in onnx matmul for now")
 
         transpose_a = (attrs_val[0] + attrs_val[2] + attrs_val[4]) % 2
         transpose_b = (attrs_val[1] + attrs_val[3] + attrs_val[5]) % 2
-- 
2.43.0


From 7f08cc0b0c3478ec183ab04b8230ff4f9e6500ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 44/68] fix: SegmentMax and SegmentMin of integers

---
 tf2onnx/onnx_opset/reduction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 8906171..9d01655 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -245,13 +245,13 @@ class SegmentSum():
             if data_is_float:
                 identity_value = np.array('-inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).min
+                identity_value = np.array(np.iinfo(data_np_dtype).min, dtype=data_np_dtype)
         elif node.type == "SegmentMin":
             onnx_op = "ReduceMin"
             if data_is_float:
                 identity_value = np.array('inf', dtype=data_np_dtype)
             else:
-                identity_value = np.iinfo(data_np_dtype).max
+                identity_value = np.array(np.iinfo(data_np_dtype).max, dtype=data_np_dtype)
 
         if not num_segments_specified:
             max_segment = GraphBuilder(ctx).make_reduce_max({"data": segment_inp, "axes": [0], "keepdims": 0})
-- 
2.43.0


From 5f30067a495b983dfdd99ad68d33a060e6c66cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 45/68] fix: large_model works for tflite models, which have no
 graph def to compress

---
 tf2onnx/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index e27a7ac..d477f55 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -185,7 +185,8 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
 
     with tf.Graph().as_default() as tf_graph:
         if large_model:
-            const_node_values = compress_graph_def(frozen_graph)
+            if frozen_graph is not None:
+                const_node_values = compress_graph_def(frozen_graph)
             external_tensor_storage = ExternalTensorStorage()
         if output_frozen_graph:
             utils.save_protobuf(output_frozen_graph, frozen_graph)
-- 
2.43.0


From 3c09221cf0ea21fcb60b0c41f5bf47cdc902b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 46/68] fix: TF2ONNX_CATCH_ERRORS is read from the environment

---
 tf2onnx/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index d477f55..6d67282 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -195,7 +195,7 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
                              custom_op_handlers=custom_op_handlers, **kwargs)
         if constants.ENV_TF2ONNX_CATCH_ERRORS in os.environ:
-            catch_errors = constants.ENV_TF2ONNX_CATCH_ERRORS.upper() == "TRUE"
+            catch_errors = os.environ[constants.ENV_TF2ONNX_CATCH_ERRORS].upper() == "TRUE"
         else:
             catch_errors = not large_model
         onnx_graph = optimizer.optimize_graph(g, catch_errors, optimizers=optimizers)
-- 
2.43.0


From e2190a84886b3c15902b1ebdb9c3190e28471bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 47/68] fix: from_keras hands optimizers on under tf 1.15

---
 tf2onnx/convert.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 6d67282..076911d 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -393,7 +393,7 @@ def _is_legacy_keras_model(model):
 
 def _from_keras_tf1(model, opset=None, custom_ops=None, custom_op_handlers=None, custom_rewriter=None,
                     inputs_as_nchw=None, outputs_as_nchw=None, extra_opset=None, shape_override=None,
-                    target=None, large_model=False, output_path=None):
+                    target=None, large_model=False, output_path=None, optimizers=None):
     """from_keras for tf 1.15"""
     input_names = [t.name for t in model.inputs]
     output_names = [t.name for t in model.outputs]
@@ -424,6 +424,7 @@ def _from_keras_tf1(model, opset=None, custom_ops=None, custom_op_handlers=None,
             opset=opset,
             custom_ops=custom_ops,
             custom_op_handlers=custom_op_handlers,
+            optimizers=optimizers,
             custom_rewriter=custom_rewriter,
             extra_opset=extra_opset,
             shape_override=shape_override,
@@ -503,7 +504,7 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
     """
     if get_tf_version() < Version("2.0"):
         return _from_keras_tf1(model, opset, custom_ops, custom_op_handlers, custom_rewriter, inputs_as_nchw,
-                               outputs_as_nchw, extra_opset, shape_override, target, large_model, output_path)
+                               outputs_as_nchw, extra_opset, shape_override, target, large_model, output_path, optimizers)
 
     old_out_names = _rename_duplicate_keras_model_names(model)
 
-- 
2.43.0


From 64dc50455e4aafa6811e288faf04d3bb3f139c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 48/68] fix: rewriters of nested graphs fail or continue as the
 caller asked

---
 tf2onnx/tfonnx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 3700edb..9f4f1dd 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -393,8 +393,8 @@ def run_rewriters(g, funcs, continue_on_error):
 
     if g.contained_graphs:
         for dict_val in g.contained_graphs.values():
-            for attr_name, b_g in dict_val.items():
-                run_rewriters(b_g, funcs, attr_name)
+            for b_g in dict_val.values():
+                run_rewriters(b_g, funcs, continue_on_error)
 
 
 def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=None,
-- 
2.43.0


From 80294aaa7d89cf94fa044ddf7766ee6ddae44b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:07 +0000
Subject: [PATCH 49/68] fix: ops of nested graphs convert with the tables and
 options of the model

---
 tf2onnx/tfonnx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 9f4f1dd..b9551a7 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -280,7 +280,8 @@ def tensorflow_onnx_mapping(g, ops_mapping, initialized_tables=None, is_tflite=F
                 # we assume only ONNX nodes have subgraph defined in pre-rewriters.
                 # that means, if we create node having subgraphs in this step, the
                 # created subgraphs' nodes won't be mapped.
-                m_ops, unm_ops, body_exceptions = tensorflow_onnx_mapping(b_g, ops_mapping)
+                m_ops, unm_ops, body_exceptions = tensorflow_onnx_mapping(b_g, ops_mapping, initialized_tables,
+                                                                               is_tflite, dequantize)
                 mapped_op += m_ops
                 unmapped_op += unm_ops
                 # topological_sort on the body in case processing has changed the order
-- 
2.43.0


From cfda5da556db52652630c6f0e598740c5a280d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:22 +0000
Subject: [PATCH 50/68] fix: do not let hash order or addresses decide names
 and order of nodes

Sets of names and nodes were iterated while nodes and numbered names were
created, and the einsum decomposition named its nodes after id(). The same
model converted differently from one run to the next.
---
 tf2onnx/graph.py                           | 37 +++++++++++-----------
 tf2onnx/optimizer/einsum_optimizer.py      |  8 +++--
 tf2onnx/rewriter/cond_rewriter.py          | 20 ++++++------
 tf2onnx/rewriter/loop_rewriter.py          |  2 +-
 tf2onnx/rewriter/loop_rewriter_base.py     | 12 +++----
 tf2onnx/rewriter/lstm_rewriter_base.py     |  2 +-
 tf2onnx/rewriter/random_uniform.py         |  4 +--
 tf2onnx/rewriter/rnn_utils.py              |  2 +-
 tf2onnx/rewriter/unit_rnn_rewriter_base.py |  2 +-
 tf2onnx/symbolic_executor.py               |  2 +-
 tf2onnx/tf_loader.py                       |  6 ++--
 tf2onnx/utils.py                           |  6 ++--
 12 files changed, 52 insertions(+), 51 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..b5faf2c 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -393,7 +393,7 @@ class Node(object):
     def get_implicit_inputs(self, recursive=True):
         """Get implicit inputs if the node has attributes being GraphProto."""
         output_available_in_cur_graph = set()
-        all_node_inputs = set()
+        all_node_inputs = {}  # used as an ordered set
 
         graphs = []
         body_graphs = self.get_body_graphs()
@@ -405,15 +405,14 @@ class Node(object):
             for n in graph.get_nodes():
                 output_available_in_cur_graph |= set(n.output)
                 for i in n.input:
-                    all_node_inputs.add(i)
+                    all_node_inputs[i] = True
 
                 if recursive:
                     b_graphs = n.get_body_graphs()
                     if b_graphs:
                         graphs.extend(b_graphs.values())
 
-        outer_scope_node_input_ids = all_node_inputs - output_available_in_cur_graph
-        return list(outer_scope_node_input_ids)
+        return [i for i in all_node_inputs if i not in output_available_in_cur_graph]
 
     def _graph_check(self):
         utils.make_sure(self.graph is not None, "Node %s not belonging any graph",
@@ -1294,7 +1293,7 @@ class Graph(object):
             if node.input[input_index] in self._output_to_consumers:
                 to_ops = self._output_to_consumers[node.input[input_index]]
                 if node.name in to_ops:
-                    to_ops.remove(node.name)
+                    del to_ops[node.name]
             del node.input[input_index]
             return
 
@@ -1407,8 +1406,8 @@ class Graph(object):
         "Register node taking a specific input."
         if not only_graph:
             if input_name not in self._output_to_consumers:
-                self._output_to_consumers[input_name] = set()
-            self._output_to_consumers[input_name].add(node.name)
+                self._output_to_consumers[input_name] = {}
+            self._output_to_consumers[input_name][node.name] = True
         if self.parent_graph is not None:
             if input_name not in self.parent_graph._input_to_graph:
                 self.parent_graph._input_to_graph[input_name] = {}
@@ -1421,7 +1420,7 @@ class Graph(object):
         if not only_graph:
             if input_name in self._output_to_consumers[input_name]:
                 if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
+                    del self._output_to_consumers[input_name][node_name]
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
                 id(self) in self.parent_graph._input_to_graph[input_name]):
@@ -1437,7 +1436,7 @@ class Graph(object):
         if old_input == new_input:
             return
         if new_input not in self._output_to_consumers:
-            self._output_to_consumers[new_input] = set()
+            self._output_to_consumers[new_input] = {}
 
         if ops is not None:
             keep_ops = True
@@ -1489,7 +1488,7 @@ class Graph(object):
         if to_ops is not None:
             if node.name in to_ops:
                 # A node may take twice the same entry.
-                to_ops.remove(node.name)
+                del to_ops[node.name]
 
         self._register_input_name(new_input, node)
         return is_replaced
@@ -1503,7 +1502,7 @@ class Graph(object):
             if to_ops is not None and old_input in to_ops:
                 # To avoid issues when a node
                 # takes twice the same entry.
-                to_ops.remove(old_input)
+                del to_ops[old_input]
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
@@ -1519,16 +1518,16 @@ class Graph(object):
             input_checker: customized input check function: bool func(node)
 
         Return:
-            a set of nodes
+            a dict with the nodes as keys, in the order they are found
         """
-        res_set = set()
+        res_set = {}
         if not dest_node or (input_checker and input_checker(dest_node) is False):
             return res_set
 
-        processing_set = set([dest_node])
+        processing_set = {dest_node: True}
         while processing_set:
-            top_node = processing_set.pop()
-            res_set.add(top_node)
+            top_node, _ = processing_set.popitem()
+            res_set[top_node] = True
             all_inputs = top_node.input + list(top_node.get_implicit_inputs())
             for input_id in all_inputs:
                 # we don't care about nested graph here, just handle current graph cropping.
@@ -1541,7 +1540,7 @@ class Graph(object):
                 if node not in res_set:
                     if input_checker and input_checker(node) is False:
                         continue
-                    processing_set.add(node)
+                    processing_set[node] = True
         return res_set
 
     def extract_sub_graph_nodes(self, outputs_name, input_checker=None, remove_unused_inputs=True):
@@ -1554,7 +1553,7 @@ class Graph(object):
         Return:
             a list of nodes
         """
-        res_set = set()
+        res_set = {}
 
         outputs_to_keep = list(outputs_name)
         if not remove_unused_inputs:
@@ -1564,7 +1563,7 @@ class Graph(object):
 
         for output in outputs_to_keep:
             node = self.get_node_by_output(output, search_in_parent_graphs=False)
-            res_set = res_set.union(self._extract_sub_graph_nodes(node, input_checker))
+            res_set.update(self._extract_sub_graph_nodes(node, input_checker))
 
         return list(res_set)
 
diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 2384b2d..86bc408 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -267,6 +267,7 @@ class EinsumSubOp:
         self.inputs = inputs
         self.kwargs = kwargs
         self._info = {}
+        self._onnx_id = 0
         if name not in EinsumSubOp._allowed:
             raise ValueError(
                 "Unexpected name %r. It should be in %r."
@@ -558,7 +559,7 @@ class EinsumSubOp:
         return value
 
     def _onnx_name(self):
-        return 'einsum%d_%s' % (id(self), self.name[:2])
+        return 'einsum%d_%s' % (self._onnx_id, self.name[:2])
 
     def _check_onnx_opset_(self, opset, limit):
         if opset is not None and opset < limit:
@@ -903,7 +904,7 @@ class EinsumSubOp:
         for ni, node in enumerate(meth(names, opset=opset, **kwargs)):
             if hasattr(node, 'output'):
                 names[id(self)] = node.output[0]
-                node.name = "OPT%s_%d_%d" % (method_name, ni, id(self))
+                node.name = "OPT%s_%d_%d" % (method_name, ni, self._onnx_id)
             yield node
 
     def get_dot_kind(self):
@@ -1314,7 +1315,8 @@ class GraphEinsumSubOp:
         inits = []
         if "initializer" in kwargs:
             inits.extend(kwargs['initializer'])
-        for op in self:
+        for op_id, op in enumerate(self):
+            op._onnx_id = op_id  # pylint: disable=protected-access
             for onx_node in op.to_onnx(names, opset=opset):
                 if hasattr(onx_node, 'output'):
                     nodes.append(onx_node)
diff --git a/tf2onnx/rewriter/cond_rewriter.py b/tf2onnx/rewriter/cond_rewriter.py
index 3733931..532cf74 100644
--- a/tf2onnx/rewriter/cond_rewriter.py
+++ b/tf2onnx/rewriter/cond_rewriter.py
@@ -31,7 +31,7 @@ class CondBranchContext:
 
     def __init__(self):
         self.output = []
-        self.nodes = set()
+        self.nodes = {}  # used as an ordered set
 
 
 class CondContext:
@@ -41,7 +41,7 @@ class CondContext:
         self.pred_input = pred_input  # condition input
         self.true_branch_context = true_branch_context
         self.false_branch_context = false_branch_context
-        self.switchs = set(switchs)
+        self.switchs = switchs
         self.merges = merges  # list of merges in order
 
 
@@ -194,7 +194,7 @@ class CondRewriter:
                 shapes=[shapes[0]],
                 dtypes=[dtypes[0]],
             )
-            cond_context.false_branch_context.nodes.add(false_switch_id)
+            cond_context.false_branch_context.nodes[false_switch_id] = True
             true_switch_id = self.g.make_node(
                 "Identity",
                 [switch.input[0]],
@@ -203,7 +203,7 @@ class CondRewriter:
                 shapes=[shapes[1]],
                 dtypes=[dtypes[1]],
             )
-            cond_context.true_branch_context.nodes.add(true_switch_id)
+            cond_context.true_branch_context.nodes[true_switch_id] = True
             nodes_to_add.extend([false_switch_id, true_switch_id])
         # replace merge with if node
         logger.debug("cut off merge connection")
@@ -240,15 +240,15 @@ class CondRewriter:
         logger.debug("trace back from [%s]", ",".join(n.name for n in merge_nodes))
         true_branch_context = CondBranchContext()
         false_branch_context = CondBranchContext()
-        total_switchs = set()
+        total_switchs = {}
         for merge_node in merge_nodes:
             true_branch_nodes, true_output, false_branch_nodes, false_output, switchs = \
                 self._trace_back_from_one_merge(merge_node)
-            true_branch_context.nodes |= set(true_branch_nodes)
+            true_branch_context.nodes.update(dict.fromkeys(true_branch_nodes))
             true_branch_context.output.append(true_output)
-            false_branch_context.nodes |= set(false_branch_nodes)
+            false_branch_context.nodes.update(dict.fromkeys(false_branch_nodes))
             false_branch_context.output.append(false_output)
-            total_switchs |= switchs
+            total_switchs.update(switchs)
         return true_branch_context, false_branch_context, total_switchs
 
     def _trace_back_from_one_merge(self, merge_node):
@@ -260,11 +260,11 @@ class CondRewriter:
         false_output = None
         merge_input_1 = merge_node.input[0]
         merge_input_2 = merge_node.input[1]
-        switchs = set()
+        switchs = {}
 
         def stop_at_switch(node):
             if self._is_switch(node):
-                switchs.add(node)
+                switchs[node] = True
                 return False
             return True
 
diff --git a/tf2onnx/rewriter/loop_rewriter.py b/tf2onnx/rewriter/loop_rewriter.py
index 27600dc..1e35a21 100644
--- a/tf2onnx/rewriter/loop_rewriter.py
+++ b/tf2onnx/rewriter/loop_rewriter.py
@@ -48,7 +48,7 @@ class LoopRewriter(LoopRewriterBase):
 
             ## create Loop body graph with existing nodes
 
-            body_nodes = set(cell_g_info.nodes + cond_g_info.nodes)
+            body_nodes = list(dict.fromkeys(cell_g_info.nodes + cond_g_info.nodes))
             body_outputs = cond_g_info.outputs + cell_g_info.outputs
             for out_tensor_value_info in body_outputs:
                 shape = out_tensor_value_info.shape
diff --git a/tf2onnx/rewriter/loop_rewriter_base.py b/tf2onnx/rewriter/loop_rewriter_base.py
index 03b931b..a1e4254 100644
--- a/tf2onnx/rewriter/loop_rewriter_base.py
+++ b/tf2onnx/rewriter/loop_rewriter_base.py
@@ -316,7 +316,7 @@ class LoopRewriterBase(object):
 
         outputs = loop_props.state_outputs + loop_props.scan_outputs
         output_ids = [out_tensor_value_info.id for out_tensor_value_info in outputs]
-        ops, enter_nodes, _ = self.find_subgraph(set(input_ids), set(output_ids), self.g, merge_as_end=False)
+        ops, enter_nodes, _ = self.find_subgraph(set(input_ids), output_ids, self.g, merge_as_end=False)
 
         for enter_node in enter_nodes:
             # connect Enter's output to Enter's input
@@ -328,7 +328,7 @@ class LoopRewriterBase(object):
         input_ids = []
         output_ids = [context.loop_cond.input[0]]
         outputs = [TensorValueInfo(o, self.g) for o in output_ids]
-        ops, enter_nodes, merge_nodes = self.find_subgraph(set(input_ids), set(output_ids), self.g, merge_as_end=True)
+        ops, enter_nodes, merge_nodes = self.find_subgraph(set(input_ids), output_ids, self.g, merge_as_end=True)
 
         for enter_node in enter_nodes:
             # connect Enter's output to Enter's input
@@ -464,17 +464,17 @@ class LoopRewriterBase(object):
         logger.debug("input ids %s ", input_ids)
         logger.debug("output ids %s ", output_ids)
 
-        enter_nodes = set()
-        merge_nodes = set()
+        enter_nodes = {}
+        merge_nodes = {}
 
         def find_input_boundary(node):
             if node.type == "Enter":
-                enter_nodes.add(node)
+                enter_nodes[node] = True
                 logger.debug("terminate the input search at %s", node.name)
                 return False
 
             if merge_as_end is True and node.type == "Merge":
-                merge_nodes.add(node)
+                merge_nodes[node] = True
                 logger.debug("terminate the input search at %s", node.name)
                 return False
 
diff --git a/tf2onnx/rewriter/lstm_rewriter_base.py b/tf2onnx/rewriter/lstm_rewriter_base.py
index d3ef412..3a2426b 100644
--- a/tf2onnx/rewriter/lstm_rewriter_base.py
+++ b/tf2onnx/rewriter/lstm_rewriter_base.py
@@ -119,7 +119,7 @@ class LSTMRewriterBase(UnitRnnRewriterBase):
             output_ids = [out_tensor_value_info.id for out_tensor_value_info in outputs]
             body_graph_ops, _, _ = LoopRewriterBase.find_subgraph(
                 set(input_ids),
-                set(output_ids),
+                output_ids,
                 self.g, merge_as_end=True
             )
 
diff --git a/tf2onnx/rewriter/random_uniform.py b/tf2onnx/rewriter/random_uniform.py
index 3c68f6e..6516778 100644
--- a/tf2onnx/rewriter/random_uniform.py
+++ b/tf2onnx/rewriter/random_uniform.py
@@ -31,7 +31,7 @@ def rewrite_random_uniform(g, ops):
         # max is on input 0
         tmax = input2.inputs[0].get_tensor_value()
         tmin = input2.inputs[1].get_tensor_value()
-        to_delete = list(set(match.get_nodes()))
+        to_delete = list(dict.fromkeys(match.get_nodes()))
         new_node = create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete)
         g.replace_all_inputs(output.output[0], new_node.output[0], ops=ops)
         g.safe_remove_nodes(to_delete)
@@ -59,7 +59,7 @@ def rewrite_random_uniform_fold_const(g, ops):
         tmax_minus_tmin = mul.inputs[1].get_tensor_value()
         tmin = output.inputs[1].get_tensor_value()
         tmax = tmin + tmax_minus_tmin
-        to_delete = list(set(match.get_nodes()))
+        to_delete = list(dict.fromkeys(match.get_nodes()))
         new_node = create_onnx_random_uniform_op(g, tmax, tmin, ru_op, output, to_delete)
         g.replace_all_inputs(output.output[0], new_node.output[0], ops=ops)
         g.safe_remove_nodes(to_delete)
diff --git a/tf2onnx/rewriter/rnn_utils.py b/tf2onnx/rewriter/rnn_utils.py
index 9cd2f2a..1e5040c 100644
--- a/tf2onnx/rewriter/rnn_utils.py
+++ b/tf2onnx/rewriter/rnn_utils.py
@@ -541,7 +541,7 @@ def find_bidirectional_rnns(g, ops, rnn_type):
                 fw_rnns[input_id].append(n)
 
     # fw_rnn and bw_rnn must share the same input
-    birnn_input = list(set(fw_rnns.keys()).intersection(bw_rnns.keys()))
+    birnn_input = [inp for inp in fw_rnns if inp in bw_rnns]
     bi_rnns = []
     matched_rnn = []
     for inp in birnn_input:
diff --git a/tf2onnx/rewriter/unit_rnn_rewriter_base.py b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
index 7416485..669c9f5 100644
--- a/tf2onnx/rewriter/unit_rnn_rewriter_base.py
+++ b/tf2onnx/rewriter/unit_rnn_rewriter_base.py
@@ -151,7 +151,7 @@ class UnitRnnRewriterBase(LoopRewriterBase):
             output_ids = [out_tensor_value_info.id for out_tensor_value_info in outputs]
             body_graph_ops, _, _ = LoopRewriterBase.find_subgraph(
                 set(input_ids),
-                set(output_ids),
+                output_ids,
                 self.g, merge_as_end=True
             )
 
diff --git a/tf2onnx/symbolic_executor.py b/tf2onnx/symbolic_executor.py
index 258dbfb..759b4e3 100644
--- a/tf2onnx/symbolic_executor.py
+++ b/tf2onnx/symbolic_executor.py
@@ -104,7 +104,7 @@ class SymbolicExecutor:
         return [SymbolicTensorElement.np_array(results[out]) for out in outputs]
 
     def plan_computation(self, outputs, feed_dict):
-        nodes = list(set(self.graph.get_node_by_output(out) for out in outputs))
+        nodes = list(dict.fromkeys(self.graph.get_node_by_output(out) for out in outputs))
         sorted_nodes = []
         while nodes:
             n = nodes.pop()
diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index cca4a42..b0c4ed0 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -890,11 +890,11 @@ _FUNCTIONS = {}
 def resolve_functions(tf_graph):
     def toposort(data):
         while True:
-            ordered = set(item for item, dep in data.items() if not dep)
+            ordered = [item for item, dep in data.items() if not dep]
             if not ordered:
                 break
             yield ordered
-            data = {item: (dep - ordered) for item, dep in data.items() if item not in ordered}
+            data = {item: dep.difference(ordered) for item, dep in data.items() if item not in ordered}
 
     _, _, _, _, _, functions = tflist_to_onnx(tf_graph, {})
     data = {}
@@ -916,7 +916,7 @@ def resolve_functions(tf_graph):
 
     result = []
     for d in toposort(data):
-        result.extend(list(d))
+        result.extend(d)
     return [_FUNCTIONS[k] for k in result]
 
 
diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index d23ce2a..7594d2e 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -369,10 +369,10 @@ def construct_graph_from_nodes(parent_g, nodes, outputs, shapes, dtypes):
     # pylint: disable=protected-access
     g = parent_g.create_new_graph_with_same_config()
     g.parent_graph = parent_g
-    nodes = set(nodes)
-    all_outputs = set()
+    nodes = list(dict.fromkeys(nodes))
+    all_outputs = {}
     for op in nodes:
-        all_outputs |= set(op.output)
+        all_outputs.update(dict.fromkeys(op.output))
 
         branches = {}
         body_graphs = op.graph.contained_graphs.pop(op.name, None)
-- 
2.43.0


From 70968b22d2538b410583382096d0b10840a17664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:23 +0000
Subject: [PATCH 51/68] fix: custom_ops does not add handlers to the
 custom_op_handlers dict of the caller

---
 tf2onnx/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 076911d..2a314ce 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -178,8 +178,8 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
     const_node_values = None
 
     if custom_ops is not None:
-        if custom_op_handlers is None:
-            custom_op_handlers = {}
+        # a copy, the dict belongs to the caller
+        custom_op_handlers = dict(custom_op_handlers or {})
         custom_op_handlers.update(
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
-- 
2.43.0


From 07c6540207a9070e63a04272b80697f2ea91d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 52/68] fix: the concrete function keeps its table captures,
 also under tf 2.13 and when freezing fails

---
 tf2onnx/tf_loader.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tf_loader.py b/tf2onnx/tf_loader.py
index b0c4ed0..6ff2a4b 100644
--- a/tf2onnx/tf_loader.py
+++ b/tf2onnx/tf_loader.py
@@ -326,9 +326,9 @@ def from_trackable(trackable, concrete_func, inputs, outputs, large_model):
         if any(msg in str(e) for msg in ["exceeds maximum protobuf size of 2GB", "string too long"]):
             raise ValueError(err_large_model)
         raise e
-
-    # We might be returning the concrete_func so let's put it back in working order
-    _restore_captured_resources(concrete_func, graph_captures_copy, func_captures_copy)
+    finally:
+        # We might be returning the concrete_func so let's put it back in working order
+        _restore_captured_resources(concrete_func, graph_captures_copy, func_captures_copy)
 
     table_info = get_hash_table_info(frozen_graph)
     placeholder_to_table_info = {}
@@ -650,6 +650,15 @@ def _restore_captured_resources(concrete_func, graph_captures_copy, func_capture
     if hasattr(concrete_func.graph, '_captures') and hasattr(concrete_func, '_captured_inputs'):
         concrete_func.graph._captures = graph_captures_copy
         concrete_func._captured_inputs = func_captures_copy
+    elif hasattr(concrete_func.graph, 'function_captures') and hasattr(concrete_func, '_captured_inputs'):
+        captures = concrete_func.graph.function_captures
+        # Rebuild the dicts, what was removed goes back to its position and not to the end
+        captures.by_val_internal.clear()
+        captures.by_val_external.clear()
+        for key, (external, internal) in graph_captures_copy.items():
+            captures.by_val_internal[key] = internal
+            captures.by_val_external[key] = external
+        concrete_func._captured_inputs = func_captures_copy
 
 
 def _from_saved_model_v2(model_path, input_names, output_names, tag, signature_def,
-- 
2.43.0


From 613664b999ce89f9e07c8c39df9498e5814091e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:16 +0000
Subject: [PATCH 53/68] fix: the keras model gets its call back when it can not
 be traced

---
 tf2onnx/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 2a314ce..4a28278 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -458,8 +458,8 @@ def _get_concrete_function(model, input_signature):
             def wrap_call(*args, training=False, **kwargs):
                 return model_call(*args, **kwargs)
             model.call = wrap_call
-            function = _saving_utils.trace_model_call(model, input_signature)
             try:
+                function = _saving_utils.trace_model_call(model, input_signature)
                 return function.get_concrete_function()
             finally:
                 model.call = model_call
-- 
2.43.0


From c24e61bd48d4eb53672f82e09dd512260d3ccac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:40 +0000
Subject: [PATCH 54/68] fix: the keras model gets its output names back when it
 can not be traced

---
 tf2onnx/convert.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 4a28278..3ccd9ac 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -398,12 +398,15 @@ def _from_keras_tf1(model, opset=None, custom_ops=None, custom_op_handlers=None,
     input_names = [t.name for t in model.inputs]
     output_names = [t.name for t in model.outputs]
     old_out_names = _rename_duplicate_keras_model_names(model)
-    model_input_names = _get_input_names(model) or [t.name.split('/')[0] for t in model.inputs]
-    model_output_names = _get_output_names(model) or [t.name.split('/')[0] for t in model.outputs]
+    try:
+        model_input_names = _get_input_names(model) or [t.name.split('/')[0] for t in model.inputs]
+        model_output_names = _get_output_names(model) or [t.name.split('/')[0] for t in model.outputs]
+    finally:
+        # the model belongs to the caller
+        if old_out_names is not None:
+            _set_output_names(model, old_out_names)
     tensors_to_rename = dict(zip(input_names, model_input_names))
     tensors_to_rename.update(zip(output_names, model_output_names))
-    if old_out_names is not None:
-        _set_output_names(model, old_out_names)
 
     if _is_legacy_keras_model(model):
         import keras  # pylint: disable=import-outside-toplevel
@@ -508,7 +511,13 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
 
     old_out_names = _rename_duplicate_keras_model_names(model)
 
-    concrete_func = _get_concrete_function(model, input_signature)
+    try:
+        concrete_func = _get_concrete_function(model, input_signature)
+        model_out_names = _get_output_names(model)
+    finally:
+        # the model belongs to the caller
+        if old_out_names is not None:
+            _set_output_names(model, old_out_names)
 
     # These inputs will be removed during freezing (includes resources, etc.)
     if hasattr(concrete_func.graph, '_captures'):
@@ -525,7 +534,6 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
     tensors_to_rename = tensor_names_from_structed(concrete_func, input_names, output_names)
     reverse_lookup = {v: k for k, v in tensors_to_rename.items()}
 
-    model_out_names = _get_output_names(model)
     if model_out_names:
         # model output_names is an optional field of Keras models indicating output order.
         output_names = [reverse_lookup[out] for out in model_out_names]
@@ -533,9 +541,6 @@ def from_keras(model, input_signature=None, opset=None, custom_ops=None, custom_
         # Other models specify output order using the key order of structured_outputs
         output_names = [reverse_lookup[out] for out in concrete_func.structured_outputs.keys()]
 
-    if old_out_names is not None:
-        _set_output_names(model, old_out_names)
-
     with tf.device("/cpu:0"):
         frozen_graph, initialized_tables = \
             tf_loader.from_trackable(model, concrete_func, input_names, output_names, large_model)
-- 
2.43.0


From 484bd183344277a4c6d1317bd0b874cb5e6e0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:17 +0000
Subject: [PATCH 55/68] fix: custom_op_handlers of one conversion do not stay
 registered for later ones

---
 tf2onnx/tfonnx.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index b9551a7..8d69e8b 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -566,10 +566,6 @@ def process_parsed_graph(g, custom_op_handlers, inputs_as_nchw, outputs_as_nchw,
                 kwargs["onnx_op"] = onnx_op
                 args = args[1:]
             kwargs["args"] = args
-            new_handler = handler.tf_op(k,
-                                        domain=constants.TENSORFLOW_OPSET.domain,
-                                        kwargs=kwargs)
-            new_handler.register_compat_handler(compat_handler, 1)
             custom_opset[k] = (compat_handler, kwargs)
         ops_mapping.update(custom_opset)
 
-- 
2.43.0


From 888226d9106432b0ef1aac6d63b73fde7afc101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:06 +0000
Subject: [PATCH 56/68] fix: handlers of one domain include those of the opset
 itself

---
 tf2onnx/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/handler.py b/tf2onnx/handler.py
index d0786b2..384b6e8 100644
--- a/tf2onnx/handler.py
+++ b/tf2onnx/handler.py
@@ -91,7 +91,7 @@ class tf_op:
                 m = mapping.get(domain)
                 if m:
                     if target_opset <= m and op_map:
-                        domain_to_ops_mapping[domain].update(ops_mapping)
+                        domain_to_ops_mapping[domain].update(op_map)
                         ops_mapping.update(op_map)
 
         tf_op._MAPPING = ops_mapping
-- 
2.43.0


From 85d31c033e00e694bbba9a7b01fcc2a2b4b4b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 57/68] fix: the frozen graph of large models is saved with its
 weights

---
 tf2onnx/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/convert.py b/tf2onnx/convert.py
index 3ccd9ac..3da5d10 100644
--- a/tf2onnx/convert.py
+++ b/tf2onnx/convert.py
@@ -184,12 +184,12 @@ def _convert_common(frozen_graph, name="unknown", large_model=False, output_path
             {op: (make_default_custom_op_handler(domain), []) for op, domain in custom_ops.items()})
 
     with tf.Graph().as_default() as tf_graph:
+        if output_frozen_graph:
+            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if large_model:
             if frozen_graph is not None:
                 const_node_values = compress_graph_def(frozen_graph)
             external_tensor_storage = ExternalTensorStorage()
-        if output_frozen_graph:
-            utils.save_protobuf(output_frozen_graph, frozen_graph)
         if not kwargs.get("tflite_path") and not kwargs.get("tfjs_path"):
             tf.import_graph_def(frozen_graph, name='')
         g = process_tf_graph(tf_graph, const_node_values=const_node_values,
-- 
2.43.0


From 1d7aee0a66d4e4dc41d77a427ec4b27e9aa6312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 58/68] fix: outputs added to a graph do not show up in the
 output_names list of the caller

---
 tf2onnx/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index b5faf2c..d546e35 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -477,7 +477,8 @@ class Graph(object):
 
         self.set_config(target, opset, extra_opset)
 
-        self.outputs = output_names if output_names is not None else []
+        # a copy, the list can be the caller's
+        self.outputs = list(output_names) if output_names is not None else []
 
         self.parent_graph = None
         self.contained_graphs = {}  # {node_name: {node_attribute_name: Graph}}
-- 
2.43.0


From 653dcfb9ea45d599486a8def1b549230852da6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:35 +0000
Subject: [PATCH 59/68] fix: converted AsString and StringToNumber keep the
 name of their output

---
 tf2onnx/onnx_opset/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index f547b1e..28ea79e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -4035,7 +4035,7 @@ class AsString:
                 "ONNX does not support precision, scientific and fill attributes for AsString")
         shapes = node.output_shapes
         ctx.remove_node(node.name)
-        _ = ctx.make_node("Cast", node.input, name=node.name,
+        _ = ctx.make_node("Cast", node.input, name=node.name, outputs=node.output,
                           dtypes=[TensorProto.STRING], shapes=shapes, attr={"to": TensorProto.STRING})
 
 
@@ -4046,5 +4046,5 @@ class StringToNumber:
         shapes = node.output_shapes
         dtypes = node.output_dtypes
         ctx.remove_node(node.name)
-        _ = ctx.make_node("Cast", node.input, name=node.name,
+        _ = ctx.make_node("Cast", node.input, name=node.name, outputs=node.output,
                           dtypes=dtypes, shapes=shapes, attr={"to": dtypes[0]})
-- 
2.43.0


From 739ea264f65b3216511fb107a61a1b6b306f986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 60/68] fix: nodes of inlined and cut out graphs keep their
 domain

---
 tf2onnx/onnx_opset/controlflow.py | 2 +-
 tf2onnx/utils.py                  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 9a426c7..e64468f 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -786,7 +786,7 @@ def prefix_graph(g, scope):
                 branches[k] = v
         new_node = g.make_node(node.type, node.input, name=node.name, output_count=len(node.output),
                                shapes=output_shapes, dtypes=output_dtypes, attr=attr,
-                               op_name_scope=scope, skip_conversion=True, branches=branches)
+                               op_name_scope=scope, skip_conversion=True, domain=node.domain, branches=branches)
         for old_output, new_output in zip(node.output, new_node.output):
             for i, oname in enumerate(g.outputs):
                 if old_output == oname:
diff --git a/tf2onnx/utils.py b/tf2onnx/utils.py
index 7594d2e..13bd5dc 100644
--- a/tf2onnx/utils.py
+++ b/tf2onnx/utils.py
@@ -382,7 +382,8 @@ def construct_graph_from_nodes(parent_g, nodes, outputs, shapes, dtypes):
                 branches[attr_name] = body_graph
 
         _ = g.make_node(op.type, op.input, outputs=op.output, attr=op.attr, name=op.name,
-                        skip_conversion=op.skip_conversion, infer_shape_dtype=False, branches=branches)
+                        skip_conversion=op.skip_conversion, infer_shape_dtype=False, domain=op.domain,
+                        branches=branches)
 
     for i in all_outputs:
         if i not in g._output_shapes:
-- 
2.43.0


From c1f282a30fb11ba0fc247088c11f3774460839b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:09 +0000
Subject: [PATCH 61/68] fix: a renamed node keeps its domain, its body graphs
 and whether it is converted

---
 tf2onnx/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index d546e35..415538f 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -908,9 +908,11 @@ class Graph(object):
         utils.make_sure(new_name not in self._nodes_by_name, "node %s not unique ", new_name)
         dtypes = node.output_dtypes
         shapes = node.output_shapes
+        branches = node.get_body_graphs()
         self.remove_node(node.name)
         new_node = self.make_node(node.type, node.input, output_count=len(node.output),
-                                  attr=node.attr, dtypes=dtypes, shapes=shapes, name=new_name)
+                                  attr=node.attr, dtypes=dtypes, shapes=shapes, name=new_name,
+                                  skip_conversion=node.skip_conversion, domain=node.domain, branches=branches)
         for i, old_output in enumerate(node.output):
             new_output = port_name(new_name, i)
             for j, k in enumerate(self.outputs):
-- 
2.43.0


From fa5c284c02b24dd1ee88271d208c9168b5e7ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:22 +0000
Subject: [PATCH 62/68] fix: MatrixDiagPart and MatrixSetDiag use the Range of
 ONNX, not one of a domain the model does not declare

---
 tf2onnx/onnx_opset/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 28ea79e..9972c3e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -3305,8 +3305,10 @@ class MatrixDiagPartV2V3:
                                                    shape_processed_shape.output[0]])
         abs_k = body_graph.make_node('Abs', [current_k.output[0]])
 
-        range_k = body_graph.make_node('Range', [abs_k.output[0], new_width.output[0], one],
-                                       domain="com.microsoft", dtypes=[TensorProto.INT64])
+        # the operands of Range are scalars
+        range_inputs = [GraphBuilder(body_graph).make_squeeze({'data': i, 'axes': [0]})
+                        for i in [abs_k.output[0], new_width.output[0], one]]
+        range_k = body_graph.make_node('Range', range_inputs, dtypes=[TensorProto.INT64])
         sliced_range = body_graph.make_node('Slice', [range_k.output[0], zeo, new_depth.output[0]])
         sliced_shape = body_graph.make_node('Shape', [sliced_range.output[0]])
         pad_length = body_graph.make_node('Sub', [new_depth.output[0], sliced_shape.output[0]])
-- 
2.43.0


From 61f4ff7e1d949f833e1c6aba9fe98463544901f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:47 +0000
Subject: [PATCH 63/68] fix: folding ListDiff keeps the order, duplicates and
 type of the values

---
 tf2onnx/tfonnx.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 8d69e8b..d6a9577 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -77,7 +77,7 @@ def rewrite_constant_fold(g, ops):
         "Cast": np.asarray,
         "ConcatV2": np.concatenate,
         "Less": np.less,
-        "ListDiff": np.setdiff1d,
+        "ListDiff": np.isin,
         "Mul": np.multiply,
         "Pack": np.stack,
         "Range": np.arange,
@@ -113,10 +113,8 @@ def rewrite_constant_fold(g, ops):
                         values = inputs[:-1]
                         val = func(tuple(values), axis)
                     elif op.type == "ListDiff":
-                        out_type = op.get_attr_int("out_idx")
-                        np_type = tf2onnx.utils.map_onnx_to_numpy_type(out_type)
-                        val = func(*inputs)
-                        val = val.astype(np_type)
+                        # the values keep their order, duplicates and type
+                        val = inputs[0][~func(*inputs)]
                     elif op.type in ["Pack"]:
                         # handle ops that need input array and axis
                         axis = op.get_attr_int("axis")
-- 
2.43.0


From 4d03cb530406d809c2e6bd28385aecee1aed1c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:57 +0000
Subject: [PATCH 64/68] fix: beta of a TFLite softmax scales the logits, not
 the result

---
 tf2onnx/tflite_handlers/tfl_math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 35b377c..c738f3b 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -238,9 +238,10 @@ class TFlSoftmaxOp:
     def to_tf(cls, ctx, node, **kwargs):
         beta = node.get_attr_value("beta")
         if beta != 1:
+            # softmax of beta * logits
             beta_node = ctx.make_const(utils.make_name("beta"), np.array(beta, dtype=np.float32))
-            mul_node = ctx.insert_new_node_on_output("Mul", node.output[0], name=utils.make_name(node.name))
-            ctx.replace_inputs(mul_node, [node.output[0], beta_node.output[0]])
+            mul_node = ctx.insert_new_node_on_input(node, "Mul", [node.input[0], beta_node.output[0]])
+            mul_node.skip_conversion = True
 
 @tfl_op(["TFL_PRELU"], onnx_op="PRelu")
 class TflPreluOp:
-- 
2.43.0


From 9ed4ed35ab33dba4df0ce2acb762db6314e8807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:57 +0000
Subject: [PATCH 65/68] fix: a per-axis TFLite quantize uses every scale and
 zero point

---
 tf2onnx/tflite_handlers/tfl_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index c738f3b..28e8a0e 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -105,8 +105,11 @@ class TflQuantizeOp:
         if len(scale) > 1 or len(zero_point) > 1:
             utils.make_sure(ctx.opset >= 13, "Opset 13 is required for per-axis quantization for node %s", node.name)
             node.set_attr("axis", axis)
-        scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale[0], dtype=np.float32))
-        zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point[0], dtype=np_q_type))
+            scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale, dtype=np.float32))
+            zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point, dtype=np_q_type))
+        else:
+            scale_node = ctx.make_const(utils.make_name("scale"), np.array(scale[0], dtype=np.float32))
+            zero_point_node = ctx.make_const(utils.make_name("zero_point"), np.array(zero_point[0], dtype=np_q_type))
         ctx.replace_inputs(node, [node.input[0], scale_node.output[0], zero_point_node.output[0]])
         del node.attr["scale"]
         del node.attr["zero_point"]
-- 
2.43.0


From a3ed2b017719dca9a53375df6c4d379b39c9c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:17 +0000
Subject: [PATCH 66/68] fix: a node whose conversion failed keeps its type and
 is not converted as what it was to become

---
 tf2onnx/tfonnx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index d6a9577..3af9c82 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -300,6 +300,8 @@ def tensorflow_onnx_mapping(g, ops_mapping, initialized_tables=None, is_tflite=F
                 summary = ""
             logger.error("Failed to convert node %r (fct=%r)\n%r",
                          node.name, func, summary, exc_info=1)
+            # the node is not the operator it was to become
+            node.type = op
             exceptions.append(ex)
 
     return mapped_op, unmapped_op, exceptions
-- 
2.43.0


From 509cd8e8f3742910f25477d8162ef838f73b4e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:38 +0000
Subject: [PATCH 67/68] fix: a TFLite strided slice whose ends are relative to
 its begins is rejected

---
 tf2onnx/tflite_handlers/tfl_direct.py | 1 -
 tf2onnx/tflite_handlers/tfl_tensor.py | 6 ++++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_handlers/tfl_direct.py b/tf2onnx/tflite_handlers/tfl_direct.py
index aea11aa..8516a6b 100644
--- a/tf2onnx/tflite_handlers/tfl_direct.py
+++ b/tf2onnx/tflite_handlers/tfl_direct.py
@@ -85,7 +85,6 @@ from tf2onnx.handler import tfl_op
 @tfl_op("TFL_SQUARE", tf_op="Square")
 @tfl_op("TFL_SQUARED_DIFFERENCE", tf_op="SquaredDifference")
 @tfl_op("TFL_SQUEEZE", tf_op="Squeeze")
-@tfl_op("TFL_STRIDED_SLICE", tf_op="StridedSlice")
 @tfl_op("TFL_SUM", tf_op="Sum")
 @tfl_op("TFL_TANH", tf_op="Tanh")
 @tfl_op("TFL_TILE", tf_op="Tile")
diff --git a/tf2onnx/tflite_handlers/tfl_tensor.py b/tf2onnx/tflite_handlers/tfl_tensor.py
index effa244..9c61bfb 100644
--- a/tf2onnx/tflite_handlers/tfl_tensor.py
+++ b/tf2onnx/tflite_handlers/tfl_tensor.py
@@ -95,3 +95,9 @@ class TFlTopKV2Op:
     @classmethod
     def to_tf(cls, ctx, node, **kwargs):
         node.set_attr("sorted", 1)
+
+@tfl_op(["TFL_STRIDED_SLICE"], tf_op="StridedSlice")
+class TFlStridedSliceOp:
+    @classmethod
+    def to_tf(cls, ctx, node, **kwargs):
+        utils.make_sure(not node.get_attr_value("offset"), "Ends relative to the begins not supported for node %s", node.name)
-- 
2.43.0


From 2ab72a3fcccc34f106c7ea543591e5d7138324dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:05 +0000
Subject: [PATCH 68/68] fix: a TFLite fully connected op with a bias keeps it
 when its input is flattened

---
 tf2onnx/tflite_handlers/tfl_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tflite_handlers/tfl_math.py b/tf2onnx/tflite_handlers/tfl_math.py
index 28e8a0e..05c81c8 100644
--- a/tf2onnx/tflite_handlers/tfl_math.py
+++ b/tf2onnx/tflite_handlers/tfl_math.py
@@ -215,7 +215,7 @@ class TflFullyConnectedOp:
             shape_const = ctx.make_const(utils.make_name("reshape_shape"), np.array([-1, weights_shape], np.int64))
             reshape_node = ctx.make_node("Reshape", [node.input[0], shape_const.output[0]])
             reshape_node.skip_conversion = True
-            ctx.replace_inputs(node, [reshape_node.output[0], node.input[1]])
+            ctx.replace_inputs(node, [reshape_node.output[0]] + node.input[1:])
 
         transpose_node = ctx.insert_new_node_on_input(node, "Transpose", node.input[1],
                                                       name=None, input_index=1, perm=[1, 0])
-- 
2.43.0

