From f55bec0b9d4914477393f32c7be294a0975a1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/78] fix: align shapes from the last dimension in
 broadcast_shape_inference

Shapes of different rank were compared from the first dimension, so [4] and
[1, 4] were inferred to broadcast to [4, 4] and [3] with [2, 3] was rejected.
---
 tf2onnx/shape_inference.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/shape_inference.py b/tf2onnx/shape_inference.py
index baf7873..55206b7 100644
--- a/tf2onnx/shape_inference.py
+++ b/tf2onnx/shape_inference.py
@@ -555,19 +555,20 @@ def broadcast_shape_inference(shape_0, shape_1):
 
     i = l - 1
     while i >= 0:
-        if shape_0[i] == shape_1[i]:
+        j = i + len(shape_1) - l
+        if shape_0[i] == shape_1[j]:
             # do nothing
             pass
         elif shape_0[i] == 1:
             # do nothing
             pass
-        elif shape_1[i] == 1:
-            new_shape[i] = shape_0[i]
+        elif shape_1[j] == 1:
+            new_shape[j] = shape_0[i]
         # maybe one of them is -1, we can use the other one as real shape.
         elif shape_0[i] == -1:
             pass
-        elif shape_1[i] == -1:
-            new_shape[i] = shape_0[i]
+        elif shape_1[j] == -1:
+            new_shape[j] = shape_0[i]
         else:
             logger.warning("two shapes not possible to broadcast, %s, %s", shape_0, shape_1)
             return None
-- 
2.43.0


From 1811503a07f0e26d829092fab1cf37ac68a07a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 02/78] fix: split the padding of transposed convolutions like
 tensorflow when the input size is unknown

---
 tf2onnx/onnx_opset/nn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index e2df904..b6d4eb3 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -472,6 +472,7 @@ class ConvTranspose:
                             "output dims cannot be smaller than input dims.")
             if -1 in input_dims:
                 node.set_attr("output_shape", new_output_shape)
+                node.set_attr("auto_pad", "SAME_UPPER")
             else:
                 if "strides" in node.attr:
                     strides = parse_dims_attr(node, node.get_attr("strides").ints, spatial)
-- 
2.43.0


From 5a7206d667cde3c96a3c051715337dce48046744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 03/78] fix: put no padding in front when a transposed
 convolution pads a negative amount

---
 tf2onnx/onnx_opset/nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index b6d4eb3..cdd346b 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -491,7 +491,8 @@ class ConvTranspose:
                                         - new_output_shape[i])
                     start_i = i
                     end_i = i + spatial
-                    pads[start_i] = int(total_padding[i] / 2)
+                    # A negative total means rows of zeros after the data, tensorflow adds none in front.
+                    pads[start_i] = max(total_padding[i], 0) // 2
                     pads[end_i] = total_padding[i] - pads[start_i]
                 node.set_attr("pads", pads)
                 node.set_attr("auto_pad", "NOTSET")
-- 
2.43.0


From 256c88eb348c8d02292e9b37b289f6d1784b8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 04/78] fix: do not put a squeeze behind a reshape that
 produces a graph output

---
 tf2onnx/optimizer/reshape_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/reshape_optimizer.py b/tf2onnx/optimizer/reshape_optimizer.py
index 3e5974b..cbeec66 100644
--- a/tf2onnx/optimizer/reshape_optimizer.py
+++ b/tf2onnx/optimizer/reshape_optimizer.py
@@ -95,6 +95,9 @@ class ReshapeOptimizer(GraphOptimizerBase):
             return False
 
         new_reshape_shape = None
+        if shift > 0 and node.output[0] in graph.outputs:
+            # The squeeze would not be seen by the graph output
+            return False
         if shift > 0:
             new_shape = [1] * shift + new_shape
             squeeze_node = GraphBuilder(graph).make_squeeze(
-- 
2.43.0


From 0164fd755c731f7e403756d8e913a21761baef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 05/78] fix: keep an end of zero in strided slices that begin
 at a negative index

---
 tf2onnx/onnx_opset/tensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index da07549..3ac7a66 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -872,10 +872,6 @@ class StridedSlice:
             axes.append(idx + ellipsis_gap)
             end_item = end[idx]
 
-            # an implicit condition is stride == 1 (checked in above)
-            if begin_item < 0 and end_item == 0:
-                end_item = max_size
-
             mask = (shrink_axis_mask >> idx) & 1
             if mask != 0:
                 new_begin.append(begin_item)
-- 
2.43.0


From 9f0d9585336b320737a1f297a3d892428b2ce5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 06/78] fix: start masked strided slices at the first element
 whatever begin says

---
 tf2onnx/onnx_opset/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 3ac7a66..2113432 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1089,6 +1089,7 @@ class StridedSlice:
                 idx1 = np.where(new_begin_mask == 0)
                 idx2 = np.where(strides_vals < 0)
                 idx3 = np.intersect1d(idx1, idx2)
+                new_begin_vals[idx1] = 0
                 new_begin_vals[idx3] = max_size
                 begin = ctx.make_const(utils.make_name("begin_masked"), new_begin_vals).output[0]
             else:
@@ -1096,8 +1097,9 @@ class StridedSlice:
                 zero_const = ctx.make_const(utils.make_name("zero_const"), np.zeros(1, dtype=np_dtype))
                 max_const = ctx.make_const(utils.make_name("max_const"), np.array(max_size, dtype=np_dtype))
                 op1 = ctx.make_node("Less", [strides, zero_const.output[0]], op_name_scope=node.name)
-                op2 = ctx.make_node("And", [op1.output[0], begin_mask_const.output[0]], op_name_scope=node.name)
-                begin = ctx.make_node("Where", [op2.output[0], max_const.output[0], begin],
+                first = ctx.make_node("Where", [op1.output[0], max_const.output[0], zero_const.output[0]],
+                                      op_name_scope=node.name)
+                begin = ctx.make_node("Where", [begin_mask_const.output[0], first.output[0], begin],
                                       op_name_scope=node.name).output[0]
 
         # mask end
-- 
2.43.0


From 70d4b0a2ce5525f8becbe23e7bce331b5fed9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 07/78] fix: leave the ellipsis of a strided slice out of the
 onnx slice params

---
 tf2onnx/onnx_opset/tensor.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 2113432..e011965 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1025,7 +1025,8 @@ class StridedSlice:
                     if (ellipsis_mask >> bit) & 1:
                         ellipsis_gap = len(ctx.get_shape(input_x)) - param_rank + num_new + 1
                     elif (new_axis_mask >> bit) & 1:
-                        effective_bit = bit if not ellipsis_gap else bit + ellipsis_gap - 1
+                        after_ellipsis = ellipsis_mask < (1 << bit)
+                        effective_bit = bit if not after_ellipsis else bit + ellipsis_gap - 1
                         unqueeze_at.append(effective_bit)
                         begin_mask |= 1 << bit
                         end_mask |= 1 << bit
@@ -1041,6 +1042,8 @@ class StridedSlice:
         # for shrink mask, if shrink mask is 1, set stride to be max_size
         shrink_strided_mask = [min_size] * param_rank
         axes = []
+        # positions of the params that belong to an axis, the one of the ellipsis does not
+        keep = []
         # onnx slice op can't remove a axis, track axis and add a squeeze op if needed
         needs_squeeze = []
         ellipsis_gap = 0
@@ -1052,14 +1055,11 @@ class StridedSlice:
                     "StridedSlice op {} requires the shape of input".format(node.name)
                 )
                 ellipsis_gap = len(input_shape) - param_rank
-                # handle the redundant param
-                new_begin_mask[idx] = 0
-                new_end_mask[idx] = max_size
-                axes.append(idx)
                 continue
 
             # ignore ellipsis axes
             axes.append(idx + ellipsis_gap)
+            keep.append(idx)
 
             mask = (shrink_axis_mask >> idx) & 1
             if mask != 0:
@@ -1080,6 +1080,22 @@ class StridedSlice:
         out_shapes = [ctx.get_shape(node.output[0])]
         ctx.remove_node(node.name)
 
+        if len(keep) < param_rank:
+            def select_kept(name):
+                if ctx.is_const(name):
+                    vals = ctx.get_tensor_value(name, as_list=False)
+                    return ctx.make_const(utils.make_name("kept_params"), vals[keep]).output[0]
+                kept = ctx.make_const(utils.make_name("kept_params"), np.array(keep, dtype=np.int64)).output[0]
+                return ctx.make_node("Gather", [name, kept], op_name_scope=node.name).output[0]
+            if not keep:
+                ctx.make_node("Identity", [input_x], name=node.name, outputs=node.output,
+                              dtypes=out_dtypes, shapes=out_shapes)
+                return
+            begin, end, strides = select_kept(begin), select_kept(end), select_kept(strides)
+            new_begin_mask = [new_begin_mask[idx] for idx in keep]
+            new_end_mask = [new_end_mask[idx] for idx in keep]
+            shrink_strided_mask = [shrink_strided_mask[idx] for idx in keep]
+
         # mask begin
         new_begin_mask = np.array(new_begin_mask, dtype=np_dtype)
         if not np.all(new_begin_mask == 1):
-- 
2.43.0


From e1d2f22cae5a68ce7d8c8b3b523f11f6abd6d915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 08/78] fix: do not overflow the end of a slice whose size of
 -1 is not constant

---
 tf2onnx/onnx_opset/tensor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index e011965..745f2f8 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -348,11 +348,10 @@ class Slice:
             int_max_val = np.array([utils.get_max_value(size_np_dtype)]).astype(size_np_dtype)
             int_max = ctx.make_const(utils.make_name("largest_int_val"), int_max_val).output[0]
 
+            # adding something to start for a size of -1 would overflow
             size_are_neg_one_flag = ctx.make_node("Equal", [neg_one, size]).output[0]
-            size_are_neg_one_flag = ctx.make_node("Cast", [size_are_neg_one_flag], attr={"to": size_dtype}).output[0]
-            value_to_add = ctx.make_node("Mul", [int_max, size_are_neg_one_flag]).output[0]
-            size_processed = ctx.make_node("Add", [size, value_to_add]).output[0]
-            ends = ctx.make_node("Add", [starts, size_processed]).output[0]
+            ends = ctx.make_node("Add", [starts, size]).output[0]
+            ends = ctx.make_node("Where", [size_are_neg_one_flag, int_max, ends]).output[0]
 
         ctx.remove_node(node.name)
         inputs_map = {"data": input_tensor, "starts": starts, "ends": ends}
-- 
2.43.0


From 9289a558fe6dd098cad09f861955ae004b616f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 09/78] fix: an entry of a strided slice that inserts an axis
 does not remove one

---
 tf2onnx/onnx_opset/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 745f2f8..5255736 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -980,6 +980,8 @@ class StridedSlice:
         ellipsis_mask = ellipsis_mask.i if ellipsis_mask is not None else 0
         shrink_axis_mask = node.get_attr("shrink_axis_mask")
         shrink_axis_mask = shrink_axis_mask.i if shrink_axis_mask is not None else 0
+        # an entry that inserts an axis does not remove one
+        shrink_axis_mask &= ~new_axis_mask
 
         param_shape = ctx.get_shape(node.input[1]) or \
                       ctx.get_shape(node.input[2]) or \
-- 
2.43.0


From e8b5e50f56b829af8a3d8d1963b615abe175bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 10/78] fix: keep a node registered as consumer of an input it
 still takes

---
 tf2onnx/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 241a82e..a85c678 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1291,11 +1291,12 @@ class Graph(object):
         assert isinstance(node, Node) and isinstance(to_be_removed, str)
         if input_index is not None:
             assert node.input[input_index] == to_be_removed
-            if node.input[input_index] in self._output_to_consumers:
-                to_ops = self._output_to_consumers[node.input[input_index]]
+            del node.input[input_index]
+            # the node may take the same input more than once
+            if to_be_removed in self._output_to_consumers and to_be_removed not in node.input:
+                to_ops = self._output_to_consumers[to_be_removed]
                 if node.name in to_ops:
                     to_ops.remove(node.name)
-            del node.input[input_index]
             return
 
         for i, name in enumerate(node.input):
@@ -1487,7 +1488,7 @@ class Graph(object):
 
         to_ops = self._output_to_consumers.get(old_input, None)
         if to_ops is not None:
-            if node.name in to_ops:
+            if node.name in to_ops and old_input not in node.input:
                 # A node may take twice the same entry.
                 to_ops.remove(node.name)
 
@@ -1500,10 +1501,10 @@ class Graph(object):
 
         for old_input in node.input:
             to_ops = self._output_to_consumers.get(old_input, None)
-            if to_ops is not None and old_input in to_ops:
+            if to_ops is not None and node.name in to_ops:
                 # To avoid issues when a node
                 # takes twice the same entry.
-                to_ops.remove(old_input)
+                to_ops.remove(node.name)
 
         for input_name in new_inputs:
             assert isinstance(input_name, str)
-- 
2.43.0


From b5c610a8f7aba5e00a121aee1afd8d4c01bee6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 11/78] fix: do not forget a body graph that still reads a
 tensor when one of its nodes is removed

---
 tf2onnx/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index a85c678..d62e946 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1420,9 +1420,11 @@ class Graph(object):
         "Unregister node taking a specific input."
         node_name = node.name
         if not only_graph:
-            if input_name in self._output_to_consumers[input_name]:
-                if node_name in self._output_to_consumers[input_name]:
-                    self._output_to_consumers[input_name].remove(node_name)
+            if node_name in self._output_to_consumers[input_name]:
+                self._output_to_consumers[input_name].remove(node_name)
+        if any(n is not node for n in self.find_output_consumers(input_name)):
+            # other nodes in here still take the input
+            return
         if (self.parent_graph is not None and
                 input_name in self.parent_graph._input_to_graph and
                 id(self) in self.parent_graph._input_to_graph[input_name]):
-- 
2.43.0


From 6c684367bacd9b3e727881b46f23c64a6aa0a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 12/78] fix: register what a body graph reads when it is
 attached to a node

---
 tf2onnx/graph.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index d62e946..7be7581 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -363,6 +363,12 @@ class Node(object):
 
         self.graph.contained_graphs[self.name].update({attr_name: graph})
         graph.parent_graph = self.graph
+        # what the body and the graphs in it read from outside was not known here if they were built on their own
+        for node in graph.get_nodes():
+            for name in node.input:
+                graph._register_input_name(name, node)
+        for name in graph._input_to_graph:
+            graph._register_input_name(name, None, only_graph=True)
 
     def update_proto(self, external_tensor_storage=None):
         """Update protobuf from internal structure."""
@@ -696,8 +702,9 @@ class Graph(object):
         utils.make_sure(node_name in self._nodes_by_name, "node %s not in current graph, cannot remove", node_name)
         node = self.get_node_by_name(node_name)
         del self._nodes_by_name[node_name]
-        if node_name in self.contained_graphs:
-            del self.contained_graphs[node_name]
+        for body in self.contained_graphs.pop(node_name, {}).values():
+            for graphs in self._input_to_graph.values():
+                graphs.pop(id(body), None)
 
         if node in self.inputs:
             self.inputs.remove(node)
-- 
2.43.0


From 5a24678957e046f7ecfae3da727213688ba5eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 13/78] fix: forget the readers in the body graphs of nodes
 that a reset drops

---
 tf2onnx/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 7be7581..73db6fd 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -747,6 +747,11 @@ class Graph(object):
                 remained_sub_graphs[op.name] = self.contained_graphs[op.name]
 
         self._nodes = ops
+        for name, bodies in self.contained_graphs.items():
+            if name not in remained_sub_graphs:
+                for body in bodies.values():
+                    for graphs in self._input_to_graph.values():
+                        graphs.pop(id(body), None)
         self.contained_graphs = remained_sub_graphs
         self._nodes_by_name = {op.name: op for op in ops}
         self._output_to_node_name = {}
-- 
2.43.0


From eff00159724b7df2fa3586d7013ad4a915eb882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 14/78] fix: replace_all_inputs registers only the nodes it
 rewires as consumers

---
 tf2onnx/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index 73db6fd..bb0be51 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1469,7 +1469,6 @@ class Graph(object):
             assert node is not None
             if old_input in node.input and new_input in node.output:
                 raise RuntimeError("creating a circle in the graph is not allowed: " + node.name)
-            self._register_input_name(new_input, node)
 
             for i, input_name in enumerate(node.input):
                 if input_name == old_input:
-- 
2.43.0


From 752e520b7f080f7c69137177fc44772eade89bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 15/78] fix: update the shapes when a transpose is moved behind
 the mul of a tensor with itself

---
 tf2onnx/optimizer/transpose_optimizer.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f2c91c7..2d7c226 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -548,12 +548,10 @@ class TransposeOptimizer(GraphOptimizerBase):
 
         # node's inputs may come from one same node. if so the multiplier_input_node may be none
         if multiplier_input_node is None:
-            if not self._nodes_has_single_consumer_node([trans]):
+            trans_input = trans.input[0]
+            if not self._switch_transpose_and_node(node, trans):
                 return False
-            self._g.replace_all_inputs(node.output[0], trans.output[0])
-            self._g.replace_input(node, node.input[0], trans.input[0], 0)
-            self._g.replace_input(node, node.input[1], trans.input[0], 1)
-            self._g.replace_input(trans, trans.input[0], node.output[0], 0)
+            self._g.replace_input(node, node.input[1], trans_input, 1)
             return True
 
         # convert  mul(trans(x), trans(y)) ->  trans(mul(x, y))
-- 
2.43.0


From 0eb62a5602d35daa2d83eda4157e0eb6aa84a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 16/78] fix: do not permute the axes of a slice in a constant
 that is also its starts, ends or steps

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 2d7c226..4579348 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -969,7 +969,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             axes = [perm[axes[i]] for i in range(len(axes))]
             # axes node might be shared
             new_axes = np.array(axes, dtype=dtype)
-            if self._nodes_has_single_consumer_node([node.inputs[3]]):
+            if node.input.count(node.input[3]) == 1 and self._nodes_has_single_consumer_node([node.inputs[3]]):
                 node.inputs[3].set_tensor_value(new_axes)
             else:
                 new_axes_const = self._g.make_const(
-- 
2.43.0


From 2c5ebcf9e5cdba1eabcfc1fd8b628c3b620c59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 17/78] fix: resolve a negative axis before moving a transpose
 behind an old softmax

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 4579348..0114f8f 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -862,6 +862,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         # For older opsets, the "axis" attribute determines the coercion point for coercing the input tensor to 2D.
         # We can safely switch transpose and node if the permutation does not make any axes cross that boundary.
         coercion_axis = node.get_attr_value("axis", 1)
+        if coercion_axis < 0:
+            coercion_axis += trans_rank
         for from_axis, to_axis in enumerate(perm):
             if (from_axis < coercion_axis <= to_axis) or (from_axis >= coercion_axis > to_axis):
                 return False
-- 
2.43.0


From 18edf6c2907c261a90c049b7308e85b4f3ab313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:12 +0000
Subject: [PATCH 18/78] fix: do not multiply the weights of other convolutions
 when a mul is folded into shared weights

---
 tf2onnx/optimizer/transpose_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 0114f8f..804ee3b 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -587,6 +587,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 transposed_val = np.transpose(numpy_val, (2, 3, 1, 0))
                 mul_val = multiplier
                 result = np.multiply(transposed_val, mul_val)
+                if not self._nodes_has_single_consumer_node([conv.inputs[1]]):
+                    # other nodes use the same weights
+                    new_weights = self._g.copy_const(conv.inputs[1])
+                    self._g.replace_input(conv, conv.input[1], new_weights.output[0], 1)
                 conv.inputs[1].set_tensor_value(np.transpose(result, (3, 2, 0, 1)))
 
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
-- 
2.43.0


From 056d0ab0362ec5bb0eb3d76b427261f5735f1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 19/78] fix: merge an add into a convolution only when it adds
 along the channels

---
 tf2onnx/optimizer/transpose_optimizer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 804ee3b..c97e282 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -500,10 +500,19 @@ class TransposeOptimizer(GraphOptimizerBase):
                     self.logger.debug("Bias size is not M, can not merge Conv and Add")
                     return self._handle_node_having_branches(trans, node)
 
+                # the bias must lie along the channels of the transposed tensor
+                bias_shape = [1] * get_transpose_rank(trans)
+                bias_shape[trans.get_attr_value("perm").index(1)] = size_m
+                if list(numpy_val.shape) != bias_shape[-len(numpy_val.shape):]:
+                    self.logger.debug("Bias is not along the channels, can not merge Conv and Add")
+                    return self._handle_node_having_branches(trans, node)
+
                 target_val = numpy_val.reshape(bias_size)
+                if not self._nodes_has_single_consumer_node([target_node]):
+                    target_node = self._g.copy_const(target_node)
                 target_node.set_tensor_value(target_val)
 
-                conv_inputs = [t_p.input[0], t_p.input[1], node.input[1]]
+                conv_inputs = [t_p.input[0], t_p.input[1], target_node.output[0]]
                 conv_node = self._g.make_node(t_p.type, conv_inputs, attr=t_p.get_onnx_attrs())
                 self._g.replace_input(trans, trans.input[0], utils.port_name(conv_node.name), 0)
                 self._g.replace_all_inputs(node.output[0], trans.output[0])  # ops=self._g.get_nodes()
-- 
2.43.0


From f9c37359d37aad5b36220d42454441d0263239b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 20/78] fix: leave a transpose in front of an operator whose
 other input has a higher rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index c97e282..b9f1116 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -443,6 +443,10 @@ class TransposeOptimizer(GraphOptimizerBase):
                 self.logger.warning(msg)
                 return False
 
+        if any(len(self._g.get_shape(input_id) or []) > trans_rank for input_id, _ in non_nhwc_trans_inputs):
+            self.logger.debug("%s has an input of a higher rank than the transpose", node.name)
+            return False
+
         for input_id, n in non_nhwc_trans_inputs:
             shape = self._g.get_shape(input_id)
             # if rank of n is not transpose rank, then we need to insert a reshape op before inserting a transpose
@@ -579,6 +583,8 @@ class TransposeOptimizer(GraphOptimizerBase):
         if not multiplier_input_node.is_const():
             return False
         multiplier = multiplier_input_node.get_tensor_value(as_list=False)
+        if len(multiplier.shape) > get_transpose_rank(trans):
+            return False
 
         # todo: apply this block if we have model case multiplier_input_id==0, and verify that.
         if multiplier_input_id == node.input[1]:
-- 
2.43.0


From ed29d926f4749bbd79cf4bd18fa37f25bc9ef512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 21/78] fix: permute the axes and not the pads of a pad that
 has axes

---
 tf2onnx/optimizer/transpose_optimizer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index b9f1116..f62bc23 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -843,6 +843,17 @@ class TransposeOptimizer(GraphOptimizerBase):
             node.set_attr("pads", new_pads)
             return self._switch_transpose_and_node(node, trans)
 
+        if len(node.input) > 3 and node.input[3]:
+            # only the pads of these axes are given
+            if not node.inputs[3].is_const():
+                return False
+            perm = trans.get_attr_value("perm")
+            axes = node.inputs[3].get_tensor_value(as_list=False)
+            new_axes = np.array([perm[a] for a in axes], dtype=axes.dtype)
+            new_axes_const = self._g.make_const(utils.make_name(node.inputs[3].name), new_axes)
+            self._g.replace_input(node, node.input[3], new_axes_const.output[0], 3)
+            return self._switch_transpose_and_node(node, trans)
+
         input1 = node.inputs[1]
         if input1.is_const():
             if not self._nodes_has_single_consumer_node([input1]):
-- 
2.43.0


From 4b9040655d57a465e3c2911e78f96f11bc20e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 22/78] fix: transpose a constant that a sum takes twice only
 once

---
 tf2onnx/optimizer/transpose_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f62bc23..13375eb 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -670,7 +670,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
 
         # update constants, remove dangling transposes
-        for n in inputs:
+        for n in {n.name: n for n in inputs}.values():
             if n.is_const():
                 val = n.get_tensor_value(as_list=False)
                 new_val = np.transpose(val, untrans_idx)
-- 
2.43.0


From 334cb4cede85a2e6c50ef721fc384626238faa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:53 +0000
Subject: [PATCH 23/78] fix: give a transpose that is moved behind a sum the
 shape of the sum

---
 tf2onnx/optimizer/transpose_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 13375eb..f92c872 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -668,6 +668,7 @@ class TransposeOptimizer(GraphOptimizerBase):
         shape = self._g.get_shape(node.output[0])
         if shape:
             self._g.set_shape(node.output[0], [shape[i] for i in untrans_idx])
+            self._g.set_shape(trans.output[0], shape)
 
         # update constants, remove dangling transposes
         for n in {n.name: n for n in inputs}.values():
-- 
2.43.0


From bf08d7dc7f21d0354059196c5d219c134f6dcdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:33 +0000
Subject: [PATCH 24/78] fix: move the default axis of a per-axis quantization
 with the transpose

---
 tf2onnx/optimizer/transpose_optimizer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index f92c872..a4f47fc 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -1023,9 +1023,12 @@ class TransposeOptimizer(GraphOptimizerBase):
                 return False
         if not self._switch_transpose_and_node(node, trans):
             return False
-        if 'axis' in node.attr:
-            perm = trans.get_attr_value("perm")
-            axis = node.get_attr_value("axis")
+        perm = trans.get_attr_value("perm")
+        axis = node.get_attr_value("axis")
+        if axis is None and self._g.opset >= 13 and len(perm) > 1 and self._g.get_shape(node.input[1]) not in [[], [1]]:
+            # one scale per element of the default axis
+            axis = 1
+        if axis is not None:
             new_axis = perm[axis]
             node.set_attr("axis", new_axis)
         return True
-- 
2.43.0


From 382dfb1c2074405ed1bde951a64382da0772eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 25/78] fix: give a transpose that is moved behind a reduction
 the shape of the reduced tensor

---
 tf2onnx/optimizer/transpose_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index a4f47fc..754dbd2 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -935,6 +935,7 @@ class TransposeOptimizer(GraphOptimizerBase):
             if shape:
                 new_shape = [shape[new_perm.index(i)] for i in range(len(new_perm))]
                 self._g.set_shape(node.output[0], new_shape)
+            self._g.set_shape(trans.output[0], shape)
             trans.set_attr("perm", new_perm)
         return True
 
-- 
2.43.0


From 6b1336b4fbb9f8eea336d4785a06d40b8d6d11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 26/78] fix: forget the shape of a transpose that is moved
 behind an operator of unknown output shape

---
 tf2onnx/optimizer/transpose_optimizer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 754dbd2..7d3d6fa 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -305,11 +305,12 @@ class TransposeOptimizer(GraphOptimizerBase):
         # need to transpose node shape in backward direction as well after switch
         # otherwise, reshape added in post_optimize_action may not work correctly
         shape = self._g.get_shape(node.output[0])
-        if update_shape and shape:
-            # only nhwc transpose can reach here
-            perm_inv = invert_perm(trans.get_attr_value("perm"))
-            new_shape = [shape[i] for i in perm_inv]
-            self._g.set_shape(node.output[0], new_shape)
+        if update_shape:
+            if shape:
+                # only nhwc transpose can reach here
+                perm_inv = invert_perm(trans.get_attr_value("perm"))
+                new_shape = [shape[i] for i in perm_inv]
+                self._g.set_shape(node.output[0], new_shape)
             self._g.set_shape(trans.output[0], shape)
         return True
 
@@ -765,8 +766,8 @@ class TransposeOptimizer(GraphOptimizerBase):
             self._g.replace_inputs(node, [node.input[0], new_axes_const.output[0]])
 
         shape = self._g.get_shape(node.output[0])
+        self._g.set_shape(trans.output[0], shape)
         if shape is not None:
-            self._g.set_shape(trans.output[0], shape)
             mid_shape = [shape[p] for p in new_perm_inv]
             self._g.set_shape(node.output[0], mid_shape)
 
-- 
2.43.0


From a2d7227d6681faa6d2e4ae9fa52d6c3cc3aa6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 27/78] fix: do not move a transpose behind an operator whose
 other input may have a higher rank

---
 tf2onnx/optimizer/transpose_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/transpose_optimizer.py b/tf2onnx/optimizer/transpose_optimizer.py
index 7d3d6fa..d095ab8 100644
--- a/tf2onnx/optimizer/transpose_optimizer.py
+++ b/tf2onnx/optimizer/transpose_optimizer.py
@@ -443,6 +443,9 @@ class TransposeOptimizer(GraphOptimizerBase):
                       "while graph's opset version is %s" % (shape_unknow, self._g.opset)
                 self.logger.warning(msg)
                 return False
+            if len(self._g.get_shape(node.output[0]) or []) != trans_rank:
+                self.logger.debug("%s has an input that may be of a higher rank than the transpose", node.name)
+                return False
 
         if any(len(self._g.get_shape(input_id) or []) > trans_rank for input_id, _ in non_nhwc_trans_inputs):
             self.logger.debug("%s has an input of a higher rank than the transpose", node.name)
-- 
2.43.0


From a6a8b25d1b17c31f971da2764e857ed96ab8252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 28/78] fix: keep a cast to an integer type in front of a cast
 to bool

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3fa1a0e..c7c35f9 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -103,9 +103,9 @@ class BackToBackOptimizer(GraphOptimizerBase):
                 pass
             elif 'int' in type1_name:
                 # int* and uint* are mix of high and low information.
-                # for safety, keep the current node, unless type2 is bool,
-                # in which case it's ok to remove node
-                if type1 != type2 and type2_name != 'bool':
+                # for safety, keep the current node. Also if type2 is bool: 0.5 and 256 are true but
+                # can become 0 in an integer type
+                if type1 != type2:
                     can_reduce = False
             elif type1_name == 'bool':
                 # bool is low information, so don't eliminate
-- 
2.43.0


From 0f741ff0e822e19d6679a20d17851d9f6482d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 29/78] fix: do not fuse a batch normalization in training mode
 into conv

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index c7c35f9..c79e75c 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -202,6 +202,10 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'BatchNormalization':
             return []
 
+        # in training mode the mean and variance of the batch are used instead of the inputs
+        if node2.get_attr_value('training_mode', 0):
+            return []
+
         # if batchnorm is a graph output, skip
         if set(node2.output) & set(g.outputs):
             return []
-- 
2.43.0


From 9984f2c68bc8f524a3ab1e261cd4c363420ac81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 30/78] fix: do not drop a reshape when the next one copies
 dimensions of its output

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index c79e75c..3d45357 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -271,6 +271,10 @@ class BackToBackOptimizer(GraphOptimizerBase):
         if node2.type != 'Reshape':
             return []
 
+        # a 0 in the second shape refers to a dimension of the first reshape's output
+        if not node2.inputs[1].is_const() or 0 in node2.inputs[1].get_tensor_value(as_list=True):
+            return []
+
         g.replace_inputs(node2, [node.input[0], node2.input[1]])
         g.remove_node(node.name)
         return []
-- 
2.43.0


From 3ea0f3bda8421a1509023204123e16fb4b224bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 31/78] fix: do not merge nodes that draw random numbers

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 8d876ce..2588d0e 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -111,6 +111,10 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
         # identity node will be handled by identity optimizer so skip it
         if node.type in ["Identity"]:
             return True
+        # nodes that draw random numbers give different results even if they look the same
+        if node.type in ["RandomNormal", "RandomNormalLike", "RandomUniform", "RandomUniformLike",
+                         "Multinomial", "Bernoulli"]:
+            return True
         if node.is_graph_input():
             return True
         return False
-- 
2.43.0


From 5499e3b075bdbf2e1c943d7286af3900ca015bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 32/78] fix: do not merge nodes into one that leaves out an
 output they have

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index 2588d0e..d82ff33 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -101,7 +101,11 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             # if one of the output is graph's output then it can't be deleted
             if set(node_to_delete.output).intersection(set(graph.outputs)):
                 continue
-            for old_input, new_input in zip(node_to_delete.output, node_to_retain.output):
+            # optional outputs can be left out, they have an empty name
+            replaced = [(old, new) for old, new in zip(node_to_delete.output, node_to_retain.output) if old]
+            if not all(new for _, new in replaced):
+                continue
+            for old_input, new_input in replaced:
                 graph.replace_all_inputs(old_input, new_input)
             graph.remove_node(node_to_delete.name)
             self._graph_can_be_optimized = True
-- 
2.43.0


From ef66a44d000a8f4266b1921643cad0cb78eb5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 33/78] fix: do not merge nodes of different domains

---
 tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
index d82ff33..f56a9da 100644
--- a/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
+++ b/tf2onnx/optimizer/merge_duplicated_nodes_optimizer.py
@@ -57,7 +57,7 @@ class MergeDuplicatedNodesOptimizer(GraphOptimizerBase):
             if node.is_const():
                 # Many constants have the same size so this is helpful
                 tensor_data_hash = hash(node.attr['value'].t.raw_data)
-            res[(node.type, tuple(node.input), tensor_data_hash)].append(node)
+            res[(node.type, node.domain, tuple(node.input), tensor_data_hash)].append(node)
         return res
 
     def _del_nodes_if_duplicated(self, nodes_group, graph):
-- 
2.43.0


From 4804f4bf21dcda1259cb36b7646c827a05acf15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 34/78] fix: respect allowzero when folding a reshape

---
 tf2onnx/optimizer/const_fold_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/const_fold_optimizer.py b/tf2onnx/optimizer/const_fold_optimizer.py
index 95ce07b..e98f543 100644
--- a/tf2onnx/optimizer/const_fold_optimizer.py
+++ b/tf2onnx/optimizer/const_fold_optimizer.py
@@ -123,7 +123,7 @@ class ConstFoldOptimizer(GraphOptimizerBase):
         const_val_shape = node.inputs[1].get_tensor_value(as_list=True)
         data_shape = const_val_data.shape
         for i, dim in enumerate(const_val_shape):
-            if dim == 0:
+            if dim == 0 and not node.get_attr_value("allowzero", 0):
                 # In ORT a dim of 0 means the shape stays the same.
                 const_val_shape[i] = data_shape[i]
         const_val_after_trans = const_val_data.reshape(const_val_shape)
-- 
2.43.0


From bc49cef88d13c8514843a727be15004a3861055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 35/78] fix: do not move per-axis quantization that uses the
 default axis

---
 tf2onnx/optimizer/q_dq_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 7545b40..544eb82 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -34,7 +34,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return graph
 
     def _optimize_quantize(self, quant_node, graph):
-        if 'axis' in quant_node.attr:
+        if 'axis' in quant_node.attr or not self.has_single_scale(quant_node, graph):
             return False
         node = quant_node.inputs[0]
         if node.type == "DequantizeLinear":
@@ -80,7 +80,7 @@ class QDQOptimizer(GraphOptimizerBase):
         return True
 
     def _optimize_dequantize(self, dequant_node, graph):
-        if 'axis' in dequant_node.attr:
+        if 'axis' in dequant_node.attr or not self.has_single_scale(dequant_node, graph):
             return False
         # Push dequantize nodes down
         consumers = graph.find_output_consumers(dequant_node.output[0])
@@ -117,6 +117,10 @@ class QDQOptimizer(GraphOptimizerBase):
 
         return True
 
+    def has_single_scale(self, node, graph):
+        # From opset 13 there can be a scale for every index of an axis, which is axis 1 if the attribute is missing
+        return graph.opset < 13 or graph.get_shape(node.input[1]) in [[], [1]]
+
     def has_same_quantization_params(self, node1, node2):
         if node1.get_attr_value("axis") != node2.get_attr_value("axis"):
             return False
-- 
2.43.0


From c8ac5f1db955b47199da848db0742cbb4f12579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:39 +0000
Subject: [PATCH 36/78] fix: keep a requantization to another type

---
 tf2onnx/optimizer/q_dq_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tf2onnx/optimizer/q_dq_optimizer.py b/tf2onnx/optimizer/q_dq_optimizer.py
index 544eb82..19aa57b 100644
--- a/tf2onnx/optimizer/q_dq_optimizer.py
+++ b/tf2onnx/optimizer/q_dq_optimizer.py
@@ -41,6 +41,9 @@ class QDQOptimizer(GraphOptimizerBase):
             # Remove DQ -> Q
             if not self.has_same_quantization_params(quant_node, node):
                 return False
+            if graph.get_dtype(quant_node.output[0]) != graph.get_dtype(node.input[0]):
+                # Requantizing to another type saturates
+                return False
             if quant_node.output[0] in graph.outputs or node.output[0] in graph.outputs:
                 return False
             graph.replace_all_inputs(quant_node.output[0], node.input[0])
-- 
2.43.0


From 6e5371fcca05cf6a6d51df4c7308bf410fe80c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 37/78] fix: give a dequantized constant that is reordered its
 new shape and leave one that is a graph output

---
 tf2onnx/optimizer/const_dequantize_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/const_dequantize_optimizer.py b/tf2onnx/optimizer/const_dequantize_optimizer.py
index 5fbfccc..f41f9fc 100644
--- a/tf2onnx/optimizer/const_dequantize_optimizer.py
+++ b/tf2onnx/optimizer/const_dequantize_optimizer.py
@@ -43,6 +43,8 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
             return False
         if not self._all_inputs_are_const(node.inputs[1:]) or self._is_graph_output(node, graph):
             return False
+        if self._is_graph_output(dequant_node, graph):
+            return False
         if not self._all_inputs_are_const(dequant_node.inputs):
             return False
         if len(dequant_node.inputs[1].get_tensor_value(as_list=False).flatten()) != 1:
@@ -56,9 +58,10 @@ class ConstDequantizeOptimizer(GraphOptimizerBase):
         graph.replace_input(node, node.input[0], dequant_node.input[0], 0)
         const_outputs = ConstFoldOptimizer.compute_const_folding(node, graph)
         graph.replace_all_inputs(node.output[0], dequant_node.output[0])
+        graph.set_shape(dequant_node.output[0], const_outputs[0].shape)
         graph.remove_node(node.name)
         dequant_const = dequant_node.inputs[0]
-        if len(graph.find_output_consumers(dequant_const.output[0])) > 1:
+        if len(graph.find_output_consumers(dequant_const.output[0])) > 1 or self._is_graph_output(dequant_const, graph):
             dequant_const = graph.copy_const(dequant_const)
             graph.replace_input(dequant_node, dequant_node.input[0], dequant_const.output[0], 0)
         dequant_const.set_tensor_value(const_outputs[0])
-- 
2.43.0


From fd5d12be6f5298458d7c86a5893eae32334de623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 38/78] fix: give a loop output in front of a transpose moved
 out of the body its shape and leave one that is a graph output

---
 tf2onnx/optimizer/loop_optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/loop_optimizer.py b/tf2onnx/optimizer/loop_optimizer.py
index d52d1a5..e0cca80 100644
--- a/tf2onnx/optimizer/loop_optimizer.py
+++ b/tf2onnx/optimizer/loop_optimizer.py
@@ -53,6 +53,9 @@ class LoopOptimizer(GraphOptimizerBase):
         scan_nodes = [body_graph.get_node_by_output(name) for name in scan_nodes_name_in_body]
         graph_is_changed = False
         for node, name_in_parent in zip(scan_nodes, scan_node_in_parent):
+            if name_in_parent in parent_graph.outputs:
+                # The moved transpose would not be seen by the graph output
+                continue
             # 1 delete node in body graph if possible
             # only consider two case: trans is output, or transpose > identity > output
             need_process = False
@@ -78,7 +81,11 @@ class LoopOptimizer(GraphOptimizerBase):
                 ori_perm = list(trans.get_attr("perm").ints)
                 new_perm = [0] + [i + 1 for i in ori_perm]  # body output's rank is m > rank of loop's output is m+1
                 name = make_name("trans_moved_from_loop_body")
-                _ = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                new_node = parent_graph.insert_new_node_on_output("Transpose", name_in_parent, name, perm=new_perm)
+                shape = parent_graph.get_shape(name_in_parent)
+                if shape is not None:
+                    parent_graph.set_shape(new_node.output[0], shape)
+                    parent_graph.set_shape(name_in_parent, [shape[new_perm.index(i)] for i in range(len(shape))])
                 graph_is_changed = True
 
         return graph_is_changed
-- 
2.43.0


From cbf4bda9dc5c74d0a0a7b7b1e899fbe166d913c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 39/78] fix: leave an einsum that needs a ReduceSum with axes
 input alone below opset 13

---
 tf2onnx/optimizer/einsum_optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/einsum_optimizer.py b/tf2onnx/optimizer/einsum_optimizer.py
index 0b2eab4..1023b7f 100644
--- a/tf2onnx/optimizer/einsum_optimizer.py
+++ b/tf2onnx/optimizer/einsum_optimizer.py
@@ -616,7 +616,8 @@ class EinsumSubOp:
 
     def _to_onnx_reduce_sum(self, names, opset):
         self._check_inputs_(1)
-        self._check_onnx_opset_(opset, 11)
+        # the axes are an input
+        self._check_onnx_opset_(opset, 13)
         inp = self.inputs[0]
         name = self._get_data(names, inp)
         axes = self.kwargs['axes']
-- 
2.43.0


From 3491ed2808e4bda54d5b009e3a72a8aa0b5d452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:46 +0000
Subject: [PATCH 40/78] fix: do not fuse a batch normalization with statistics
 outputs into conv below opset 14

---
 tf2onnx/optimizer/back_to_back_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/optimizer/back_to_back_optimizer.py b/tf2onnx/optimizer/back_to_back_optimizer.py
index 3d45357..dc2ef25 100644
--- a/tf2onnx/optimizer/back_to_back_optimizer.py
+++ b/tf2onnx/optimizer/back_to_back_optimizer.py
@@ -203,7 +203,7 @@ class BackToBackOptimizer(GraphOptimizerBase):
             return []
 
         # in training mode the mean and variance of the batch are used instead of the inputs
-        if node2.get_attr_value('training_mode', 0):
+        if node2.get_attr_value('training_mode', 0) or g.opset < 14 and len([o for o in node2.output if o]) > 1:
             return []
 
         # if batchnorm is a graph output, skip
-- 
2.43.0


From 22bec6bb7bcb593406de860bfdef930286eacb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 41/78] fix: give an unpacked scalar its shape before the
 squeeze

---
 tf2onnx/onnx_opset/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 5255736..7bb6d0e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1364,7 +1364,7 @@ class Unpack:
         # split node is 1 rank higher than squeeze nodes
         for out in node.output:
             output_shape = ctx.get_shape(out)
-            if output_shape:
+            if output_shape is not None:
                 split_shape = output_shape[:axis] + [1] + output_shape[axis:]
                 ctx.set_shape(out, split_shape)
 
-- 
2.43.0


From 15aa3c527bef5a70d0635b8e64bed5b75689a47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 42/78] fix: split off 'the rest' of an unknown dimension and a
 run-time split size of -1

---
 tf2onnx/onnx_opset/tensor.py | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 7bb6d0e..0a917e8 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -746,6 +746,9 @@ class SplitV:
         if -1 in split:
             # negative split = use the remaining size
             shape = ctx.get_shape(node.input[0])
+            if shape is None or shape[split_dims] < 0:
+                cls.slice_unknown_dim(ctx, node, split, split_dims)
+                return
             final_sum = shape[split_dims]
             sums = sum([i for i in split if i >= 0])
             for i, v in enumerate(split):
@@ -756,6 +759,28 @@ class SplitV:
         node.set_attr("split", split)
         node.set_attr("axis", split_dims)
 
+    @classmethod
+    def slice_unknown_dim(cls, ctx, node, split, axis):
+        # The size of one part is "the rest" of a dimension we don't know. Slice the parts off, counting from the start
+        # up to that part and from the end after it.
+        if axis < 0:
+            rank = ctx.get_rank(node.input[0])
+            utils.make_sure(rank is not None, "SplitV with negative split_dim requires known rank")
+            axis += rank
+        rest = split.index(-1)
+        int_max = np.iinfo(np.int64).max
+        shapes, dtypes = node.output_shapes, node.output_dtypes
+        ctx.remove_node(node.name)
+        for i, output in enumerate(node.output):
+            start = sum(split[:i]) if i <= rest else -sum(split[i:])
+            end = sum(split[:i + 1]) if i < rest else -sum(split[i + 1:])
+            if i > rest and start == 0:
+                start = int_max  # an empty part at the end
+            if i >= rest and end == 0:
+                end = int_max
+            GraphBuilder(ctx).make_slice({"data": node.input[0], "starts": [start], "ends": [end], "axes": [axis],
+                                          "outputs": [output]}, shapes=[shapes[i]], dtypes=[dtypes[i]])
+
     @classmethod
     def version_2(cls, ctx, node, **kwargs):
         cls.version_1(ctx, node, **kwargs)
@@ -766,19 +791,32 @@ class SplitV:
         if node.inputs[1].is_const():
             # Call version 1 to deal with -1 cases
             cls.version_1(ctx, node, **kwargs)
+            if "split" not in node.attr:
+                return
             # Convert attr to input
             split_val = node.get_attr_value("split")
             split_const = ctx.make_const(utils.make_name("split"), np.array(split_val, np.int64))
             ctx.replace_inputs(node, [node.input[0], split_const.output[0]])
             del node.attr["split"]
         else:
-            # Technically incorrect if any of the splits are -1
             node.type = "Split"
             split_dims = node.inputs[2].get_tensor_value()
             ctx.remove_input(node, node.input[2], 2)
             node.set_attr("axis", split_dims)
             if ctx.get_dtype(node.input[1]) != TensorProto.INT64:
                 ctx.insert_new_node_on_input(node, "Cast", node.input[1], to=TensorProto.INT64)
+            # one of the sizes may be -1: use the remaining size
+            split = node.input[1]
+            shape = ctx.make_node("Shape", [node.input[0]], op_name_scope=node.name).output[0]
+            axis_const = ctx.make_const(utils.make_name("axis_const"), np.array([split_dims], np.int64)).output[0]
+            minus_one_const = ctx.make_const(utils.make_name("minus_one_const"), np.array([-1], np.int64)).output[0]
+            total = ctx.make_node("Gather", [shape, axis_const], op_name_scope=node.name).output[0]
+            split_sum = GraphBuilder(ctx).make_reduce_sum({"data": split, "axes": [0], "keepdims": 1})
+            other_sum = ctx.make_node("Sub", [split_sum, minus_one_const], op_name_scope=node.name).output[0]
+            remaining = ctx.make_node("Sub", [total, other_sum], op_name_scope=node.name).output[0]
+            is_remaining = ctx.make_node("Equal", [split, minus_one_const], op_name_scope=node.name).output[0]
+            split = ctx.make_node("Where", [is_remaining, remaining, split], op_name_scope=node.name).output[0]
+            ctx.replace_input(node, node.input[1], split, 1)
 
 
 @tf_op("ExpandDims")
-- 
2.43.0


From 65cf4433c7ea33da94bf05c4ea0c36ae49ca1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 43/78] fix: count negative axes and batch dims of a GatherV2
 from the end

---
 tf2onnx/onnx_opset/tensor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 0a917e8..ee42a9a 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -460,6 +460,12 @@ class GatherV2:
     @classmethod
     def version_12(cls, ctx, node, **kwargs):
         batch_dims = node.get_attr_value("batch_dims", 0)
+        err_msg = "Cannot convert GatherV2 with batch dims since inputs have unknown ranks."
+        if batch_dims < 0:
+            indices_rank = ctx.get_rank(node.input[1])
+            utils.make_sure(indices_rank is not None, err_msg)
+            batch_dims += indices_rank
+            node.set_attr("batch_dims", batch_dims)
         if batch_dims == 0:
             cls.version_1(ctx, node, **kwargs)
             return
@@ -472,13 +478,16 @@ class GatherV2:
             indices_inp = ctx.make_node("Cast", [indices_inp], attr={'to': TensorProto.INT64}).output[0]
         unperm = None
         # GatherND doesn't take an axis so we have to transpose stuff around
+        if axis < 0:
+            data_rank = ctx.get_rank(data_inp)
+            utils.make_sure(data_rank is not None, err_msg)
+            axis += data_rank
         if axis != batch_dims:
             data_rank = ctx.get_rank(data_inp)
             indices_rank = ctx.get_rank(indices_inp)
+            utils.make_sure(data_rank is not None and indices_rank is not None, err_msg)
             result_rank = data_rank + indices_rank - 1 - batch_dims
             shift_amt = axis - batch_dims
-            err_msg = "Cannot convert GatherV2 with batch dims since inputs have unknown ranks."
-            utils.make_sure(data_rank is not None and indices_rank is not None, err_msg)
             perm = list(range(data_rank))
             perm = perm[:batch_dims] + perm[axis:axis+1] + perm[batch_dims:axis] + perm[axis+1:]
             data_inp = ctx.make_node("Transpose", [data_inp], attr={'perm': perm}).output[0]
-- 
2.43.0


From a7fed33cafc2eb834c8928fa4d5ea695c5baba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 44/78] fix: roll by a shift given as a vector of length 1

---
 tf2onnx/onnx_opset/tensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index ee42a9a..39bf7e3 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -385,9 +385,10 @@ class Roll:
             shifts_casted = node.input[1]
 
         if len(axes) == 1:
-            unsqueeze_node = GraphBuilder(ctx).make_unsqueeze(
-                {'data': shifts_casted, "axes": [0]}, op_name_scope=node.name, return_node=True)
-            shifts_split = [unsqueeze_node.output[0]]
+            # the shift is a scalar or a vector of length 1
+            one_const = ctx.make_const(utils.make_name("one_const"), np.array([1], np.int64)).output[0]
+            reshape_node = ctx.make_node("Reshape", [shifts_casted, one_const], op_name_scope=node.name)
+            shifts_split = [reshape_node.output[0]]
         else:
             shifts_split = ctx.make_node("Split", [shifts_casted], attr={'axis': 0, 'num_outputs': len(axes)},
                                          output_count=len(axes), op_name_scope=node.name).output
-- 
2.43.0


From ee7139b9e49834ef8865d301851f810e982585dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:46 +0000
Subject: [PATCH 45/78] fix: transpose a reverse sequence with other axes than
 the first two

---
 tf2onnx/onnx_opset/tensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 39bf7e3..0d68d98 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -2248,11 +2248,22 @@ class ReverseSequence:
         ctx.remove_node(node.name)
         shape = ctx.get_shape(node.input[0])
         dtype = ctx.get_dtype(node.input[0])
+        perm = None
+        if sorted([batch_dim, seq_dim]) != [0, 1]:
+            # onnx only knows the first 2 dimensions as batch and time axis
+            rank = ctx.get_rank(node.input[0])
+            utils.make_sure(rank is not None, "rank of {} is unknown".format(node.input[0]))
+            perm = [batch_dim, seq_dim] + [i for i in range(rank) if i not in (batch_dim, seq_dim)]
+            shape = [shape[i] for i in perm]
+            batch_dim, seq_dim = 0, 1
         node = ctx.make_node(
             "ReverseSequence",
             node.input,
             outputs=node.output,
             attr={"batch_axis": batch_dim, "time_axis": seq_dim}, shapes=[shape], dtypes=[dtype])
+        if perm is not None:
+            ctx.insert_new_node_on_input(node, "Transpose", node.input[0], perm=perm)
+            ctx.insert_new_node_on_output("Transpose", node.output[0], perm=[perm.index(i) for i in range(rank)])
 
         seq_len_dtype = ctx.get_dtype(node.input[1])
         utils.make_sure(seq_len_dtype is not None, "dtype of {} is None".format(node.input[1]))
-- 
2.43.0


From 218fb508c937a0ca224f283f6bcaa83d6ba3e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 46/78] fix: select floats with Where and line up a condition
 of unknown rank with the first dimension

---
 tf2onnx/onnx_opset/controlflow.py | 38 ++++++++++++-------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/tf2onnx/onnx_opset/controlflow.py b/tf2onnx/onnx_opset/controlflow.py
index 5247df4..e38af7e 100644
--- a/tf2onnx/onnx_opset/controlflow.py
+++ b/tf2onnx/onnx_opset/controlflow.py
@@ -9,7 +9,7 @@ import copy
 import logging
 
 import numpy as np
-from onnx import onnx_pb
+from onnx import helper, onnx_pb
 from onnx.onnx_pb import TensorProto
 
 from tf2onnx import utils
@@ -190,30 +190,20 @@ class Select:
         # NOTE: condition can be 1-dimension in tensorflow, while in onnx,
         # it should be broadcastable with other two inputs
 
-        # We can't use the mul/add trick if a NaN is involved. handles_nan is added earlier in the converter.
-        handles_nan = node.get_attr_value("handles_nan", False)
-        if ctx.get_dtype(node.output[0]) in [TensorProto.FLOAT, TensorProto.DOUBLE]:
-            cond_node = node.inputs[0]
-            if cond_node.type in {"IsNaN", "IsInf"}:
-                # We can't use the mul trick if Inf is involved since Inf * 0 = NaN as per IEEE 754.
-                handles_nan = True
-            if cond_node.type == "NotEqual" and cond_node.input[0] == cond_node.input[1]:
-                handles_nan = True
-            if cond_node.type == "Not" and cond_node.inputs[0].type == "Equal":
-                eq_node = cond_node.inputs[0]
-                if eq_node.input[0] == eq_node.input[1]:
-                    handles_nan = True
-            for inp in node.inputs[1:]:
-                if handles_nan:
-                    break
-                if inp.is_const() and (np.any(np.isnan(inp.get_tensor_value(as_list=False))) or \
-                                       np.any(np.isinf(inp.get_tensor_value(as_list=False)))):
-                    handles_nan = True
-                if inp.type == "Mul":
-                    inp0 = inp.inputs[0].is_const() and np.any(np.isinf(inp.inputs[0].get_tensor_value(as_list=False)))
-                    inp1 = inp.inputs[1].is_const() and np.any(np.isinf(inp.inputs[1].get_tensor_value(as_list=False)))
-                    handles_nan = inp0 or inp1
+        if node.type == "Select" and ctx.get_rank(node.input[0]) is None:
+            # the condition might be 1-dimensional: append dimensions of size 1 until it has the rank of the other inputs
+            cond_shape = ctx.make_node("Shape", [node.input[0]]).output[0]
+            cond_rank = ctx.make_node("Shape", [cond_shape]).output[0]
+            input_rank = ctx.make_node("Shape", [ctx.make_node("Shape", [node.input[1]]).output[0]]).output[0]
+            ones = ctx.make_node("ConstantOfShape", [ctx.make_node("Sub", [input_rank, cond_rank]).output[0]],
+                                 attr={"value": helper.make_tensor("value", TensorProto.INT64, dims=[1], vals=[1])})
+            new_shape = ctx.make_node("Concat", [cond_shape, ones.output[0]], attr={"axis": 0})
+            reshape = ctx.make_node("Reshape", [node.input[0], new_shape.output[0]])
+            ctx.replace_input(node, node.input[0], reshape.output[0], 0)
 
+        # We can't use the mul/add trick on floats: the value not selected may be NaN or Inf and Inf * 0 = NaN as per IEEE 754.
+        handles_nan = node.get_attr_value("handles_nan", False) or ctx.get_dtype(node.output[0]) in \
+            [TensorProto.FLOAT, TensorProto.DOUBLE, TensorProto.FLOAT16, TensorProto.BFLOAT16]
         if ctx.get_dtype(node.output[0]) != TensorProto.STRING and not handles_nan:
             # Due to bad ORT implementation, Mul/Add ops are faster than Where op
             cls.version_7(ctx, node, **kwargs)
-- 
2.43.0


From b25bd34b52ddfbc414b46dddea9af0b6491201ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 47/78] fix: one-hot encode indices out of range as an all off
 row

---
 tf2onnx/onnx_opset/tensor.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index 0d68d98..b72469e 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -1419,6 +1419,27 @@ class Unpack:
 
 @tf_op("OneHot")
 class OneHot:
+    @classmethod
+    def replace_indices(cls, ctx, node, indices, replace_large=False):
+        # tf gives an all off row for an index out of range. Onnx counts a negative index from the end, but gives an all
+        # off row for index 'depth'.
+        dtype = ctx.get_dtype(indices)
+        indices_node = ctx.get_node_by_output(indices)
+        if ctx.opset < 9 or dtype not in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64] \
+                or indices_node.is_const() and not replace_large \
+                and np.all(indices_node.get_tensor_value(as_list=False) >= 0):
+            return indices
+        depth = node.input[1]
+        if ctx.get_dtype(depth) != dtype:
+            depth = ctx.make_node("Cast", [depth], attr={"to": dtype}).output[0]
+        zero = ctx.make_const(utils.make_name("zero"), np.array(0, dtype=utils.map_onnx_to_numpy_type(dtype)))
+        replace = ctx.make_node("Less", [indices, zero.output[0]]).output[0]
+        if replace_large:
+            is_large = ctx.make_node("Greater", [indices, depth]).output[0]
+            replace = ctx.make_node("Or", [replace, is_large]).output[0]
+        shape = ctx.get_shape(indices)
+        return ctx.make_node("Where", [replace, depth, indices], dtypes=[dtype], shapes=[shape]).output[0]
+
     @classmethod
     def version_1(cls, ctx, node, **kwargs):
         # until there is no onehot op in onnx, a workaround using gather from eye
@@ -1433,15 +1454,10 @@ class OneHot:
         node.set_attr("axis", 0)
         depth = node.inputs[1].get_tensor_value()
         on_val = node.inputs[2].get_tensor_value(as_list=False)
-        on = on_val.tolist()
         off = node.inputs[3].get_tensor_value()
-        eye = np.eye(depth, dtype=on_val.dtype)
-        if on != 0:
-            eye[eye == 1] = on
-            eye[eye == 0] = off
-        else:
-            eye[eye == 0] = off
-            eye[eye == 1] = on
+        # the extra row is all off: indices out of range select it
+        eye = np.where(np.eye(depth + 1, depth, dtype=bool), on_val, off).astype(on_val.dtype)
+        indices_name = cls.replace_indices(ctx, node, indices_name, replace_large=True)
 
         const_name = utils.make_name(node.name)
         ctx.make_const(const_name, eye)
@@ -1479,7 +1495,7 @@ class OneHot:
         off_value = GraphBuilder(ctx).make_unsqueeze({'data': off_value, 'axes': [0]})
         off_on_value = ctx.make_node("Concat", [off_value, on_value], attr={"axis": 0}).output[0]
 
-        indices = node.input[0]
+        indices = cls.replace_indices(ctx, node, node.input[0])
         indices_rank = ctx.get_rank(indices)
 
         # Add a special support for 0-rank indices, to do so we have to expand the dimension to 1
-- 
2.43.0


From 6a4770ee0475aca3f60ad5edb26ae3cf33b2e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 48/78] fix: reduce nothing for empty reduction axes

---
 tf2onnx/onnx_opset/reduction.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index 7978e97..a27f040 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -31,6 +31,12 @@ class ReduceOpBase:
         axes = axes_node.get_tensor_value()
         if np.isscalar(axes):
             axes = [axes]
+        if not axes:
+            # tf reduces nothing, onnx would reduce all dimensions
+            node.type = "Identity"
+            ctx.remove_input(node, node.input[1], 1)
+            del node.attr['keep_dims']
+            return
         input_shape = ctx.get_shape(node.input[0])
         if input_shape is None:
             if any([val < 0 for val in axes]) and ctx.opset < 11:
@@ -133,6 +139,13 @@ class AllAny:
         if np.isscalar(reduce_dim):
             reduce_dim = [reduce_dim]
 
+        if not reduce_dim:
+            # tf reduces nothing, onnx would reduce all dimensions
+            node.type = "Identity"
+            ctx.remove_input(node, node.input[1], 1)
+            del node.attr['keep_dims']
+            return
+
         if ctx.opset < 11:
             inp_rank = ctx.get_rank(node.input[0])
             if inp_rank is not None:
-- 
2.43.0


From 0e54d6080353fde0b12c5eb2293a12e5e51693ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 49/78] fix: add up updates of duplicate indices in ScatterNd
 from opset 16

---
 tf2onnx/onnx_opset/tensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tf2onnx/onnx_opset/tensor.py b/tf2onnx/onnx_opset/tensor.py
index b72469e..2d9b652 100644
--- a/tf2onnx/onnx_opset/tensor.py
+++ b/tf2onnx/onnx_opset/tensor.py
@@ -668,6 +668,13 @@ class ScatterND:
         # reorder inputs to match onnx
         ctx.replace_inputs(node, [node.input[2], node.input[0], node.input[1]])
 
+    @classmethod
+    def version_16(cls, ctx, node, **kwargs):
+        # tf adds up the updates of an index that occurs more than once
+        if ctx.get_dtype(node.input[1]) not in [TensorProto.BOOL, TensorProto.STRING]:
+            node.set_attr("reduction", "add")
+        cls.version_11(ctx, node, **kwargs)
+
 
 @tf_op("TensorScatterAdd", onnx_op="ScatterND")
 class TensorScatterAdd:
-- 
2.43.0


From 1aa4949588f395250d5a3f4ca1b425a9db0a486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 50/78] fix: give the inverse of an int32 permutation its type

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 9c49dad..ebccddd 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -1038,8 +1038,8 @@ class InvertPermutationOp:
         ctx.remove_node(node.name)
 
         last_node = ctx.make_node(
-            "Identity", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
-            shapes=[shape], dtypes=[onnx_dtype])
+            "Cast", inputs=topk_node.output[1:], name=utils.make_name(node.name + '_indices'),
+            attr={"to": onnx_dtype}, shapes=[shape], dtypes=[onnx_dtype])
 
         ctx.replace_all_inputs(node.output[0], last_node.output[0])  # ops=ctx.get_nodes()
 
-- 
2.43.0


From 713d844674d3dae7f339cab64c3d6f7e9e636d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 51/78] fix: compare the divisor of DivNoNan with 0 in every
 opset

---
 tf2onnx/onnx_opset/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index ebccddd..791eaa8 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -336,7 +336,9 @@ class DivNoNan:
         node.type = "Div"
         np_dtype = utils.map_onnx_to_numpy_type(ctx.get_dtype(node.input[1]))
         zero_const = ctx.make_const(utils.make_name("const_zero"), np.array(0, np_dtype)).output[0]
-        is_zero = ctx.make_node("Equal", [node.input[1], zero_const]).output[0]
+        # Equal doesn't support floats before opset 11
+        not_zero = ctx.make_node("Cast", [node.input[1]], attr={"to": onnx_pb.TensorProto.BOOL}).output[0]
+        is_zero = ctx.make_node("Not", [not_zero]).output[0]
         where_node = ctx.make_node("Where", [is_zero, zero_const, node.output[0]])
         ctx.insert_node_on_output(where_node, node.output[0])
 
-- 
2.43.0


From 992723c7dfcfada94fca6226b76be9d4afa81585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 52/78] fix: round floor division of negative integers down

---
 tf2onnx/onnx_opset/math.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 791eaa8..05db10a 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -511,6 +511,22 @@ class Erf:
         pass
 
 
+def make_int_floor_div(ctx, x, y):
+    # Div rounds toward zero: that is one too much if the remainder is not 0 and its sign differs from the sign of y.
+    dtype = ctx.get_dtype(x)
+    div = ctx.make_node("Div", [x, y]).output[0]
+    if dtype in [onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16, onnx_pb.TensorProto.UINT32,
+                 onnx_pb.TensorProto.UINT64]:
+        return div
+    remainder = ctx.make_node("Sub", [x, ctx.make_node("Mul", [div, y]).output[0]]).output[0]
+    remainder_float = ctx.make_node("Cast", [remainder], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+    y_float = ctx.make_node("Cast", [y], attr={"to": onnx_pb.TensorProto.FLOAT}).output[0]
+    sign = ctx.make_node("Mul", [remainder_float, y_float]).output[0]
+    zero = ctx.make_const(utils.make_name("const_zero"), np.array(0, np.float32)).output[0]
+    is_negative = ctx.make_node("Less", [sign, zero]).output[0]
+    return ctx.make_node("Sub", [div, ctx.make_node("Cast", [is_negative], attr={"to": dtype}).output[0]]).output[0]
+
+
 @tf_op("FloorDiv")
 class FloorDiv:
     @classmethod
@@ -518,7 +534,10 @@ class FloorDiv:
         # T output = FloorDiv(T x, T y)
         node.type = "Div"
         dtype = ctx.get_dtype(node.input[0])
-        if dtype in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
+        if dtype not in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
+            node.type = "Identity"
+            ctx.replace_inputs(node, [make_int_floor_div(ctx, node.input[0], node.input[1])])
+        else:
             new_node_name = utils.make_name("floor_div_res")
             floor_res = ctx.insert_new_node_on_output(op_type="Floor", output_name=node.output[0],
                                                       name=new_node_name)
@@ -531,12 +550,14 @@ class FloorMod:
     @classmethod
     def version_7(cls, ctx, node, **kwargs):
         # T output = FloorMod(T x, T y)
-        div = ctx.make_node(op_type="Div", inputs=node.input)
         dtype = ctx.get_dtype(node.input[0])
         if dtype in [onnx_pb.TensorProto.FLOAT, onnx_pb.TensorProto.FLOAT16, onnx_pb.TensorProto.DOUBLE]:
-            div = ctx.make_node(op_type="Floor", inputs=div.output)
+            div = ctx.make_node(op_type="Div", inputs=node.input)
+            div = ctx.make_node(op_type="Floor", inputs=div.output).output[0]
+        else:
+            div = make_int_floor_div(ctx, node.input[0], node.input[1])
 
-        mul = ctx.make_node(op_type="Mul", inputs=[div.output[0], node.input[1]])
+        mul = ctx.make_node(op_type="Mul", inputs=[div, node.input[1]])
         # res node will take over shape&dtype&output connection info of original "node"
         shapes = node.output_shapes
         dtypes = node.output_dtypes
-- 
2.43.0


From 90f4639bbca47917fc6ac9a838de759f43f98de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 53/78] fix: refuse to drop a matmul transposition of an input
 of unknown rank

---
 tf2onnx/onnx_opset/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 05db10a..70ff301 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -391,6 +391,7 @@ class MatMul:
 
         if transpose_a != 0:
             shape = ctx.get_shape(node.input[0])
+            utils.make_sure(shape is not None, "cannot transpose input %s of unknown rank", node.input[0])
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
@@ -400,6 +401,7 @@ class MatMul:
 
         if transpose_b != 0:
             shape = ctx.get_shape(node.input[1])
+            utils.make_sure(shape is not None, "cannot transpose input %s of unknown rank", node.input[1])
             if shape:
                 perm = list(range(0, len(shape)))
                 tmp = perm[-1]
-- 
2.43.0


From e7f8f5a88023de3dfa848a529f18bee33cad6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 54/78] fix: pad types onnx does not pad with a constant of the
 same type

---
 tf2onnx/onnx_opset/nn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index cdd346b..9a302d6 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -900,7 +900,7 @@ class Pad:
 
         if mode in [None, "constant"] and len(node.input) == 3:
             const_val = node.inputs[2].get_tensor_value()
-            node.set_attr("value", const_val)
+            node.set_attr("value", float(const_val))
             ctx.remove_input(node, node.input[2], 2)
 
         ctx.remove_input(node, node.input[1], 1)
@@ -916,6 +916,7 @@ class Pad:
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
             ctx.copy_shape(node.name, cast_back_node.output[0])
 
@@ -949,10 +950,13 @@ class Pad:
             cast_node = ctx.insert_new_node_on_input(node, "Cast", node.input[0], to=TensorProto.FLOAT)
             ctx.set_dtype(cast_node.output[0], TensorProto.FLOAT)
             ctx.copy_shape(node.name, cast_node.output[0])
+            if len(node.input) > 2:
+                ctx.insert_new_node_on_input(node, "Cast", node.input[2], input_index=2, to=TensorProto.FLOAT)
 
             cast_back_node = ctx.insert_new_node_on_output("Cast", node.output[0],
                                                            name=utils.make_name(node.name) + "_castback",
                                                            to=origin_dtype)
+            ctx.set_dtype(node.output[0], onnx_pb.TensorProto.FLOAT)
             ctx.set_dtype(cast_back_node.output[0], origin_dtype)
             ctx.copy_shape(node.name, cast_back_node.output[0])
 
-- 
2.43.0


From 762afbfd0c42e754435929ae0cf8a8375f2572bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:29 +0000
Subject: [PATCH 55/78] fix: add up integers with Add

---
 tf2onnx/onnx_opset/reduction.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tf2onnx/onnx_opset/reduction.py b/tf2onnx/onnx_opset/reduction.py
index a27f040..9a28283 100644
--- a/tf2onnx/onnx_opset/reduction.py
+++ b/tf2onnx/onnx_opset/reduction.py
@@ -199,6 +199,14 @@ class AllAny:
 class AddN():
     @classmethod
     def version_6(cls, ctx, node, **kwargs):
+        if ctx.get_dtype(node.output[0]) in [onnx_pb.TensorProto.INT32, onnx_pb.TensorProto.INT64]:
+            # Sum only takes floats
+            total = node.input[0]
+            for inp in node.input[1:]:
+                total = ctx.make_node("Add", [total, inp], op_name_scope=node.name).output[0]
+            node.type = "Identity"
+            ctx.replace_inputs(node, [total])
+            return
         node.type = "Sum"
 
 
-- 
2.43.0


From 08f2ccc040acaa12fdcab26b0b0851b58522919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 56/78] fix: line up a run-time NCHW bias with the channels

---
 tf2onnx/onnx_opset/nn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 9a302d6..3ada5cb 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -810,10 +810,11 @@ class BiasAdd:
             # so it needs being reshaped into 3-dim tensor before add
             shape0 = ctx.get_shape(node.input[0])
             shape1 = ctx.get_shape(node.input[1])
-            if node.inputs[1].type == 'Const' and len(shape1) == 1:
-                new_broadcast_shape = [shape1[0]] + [1] * (len(shape0) - 2)
+            utils.make_sure(shape0 is not None, "BiasAdd of %s in NCHW needs the rank of its input", node.name)
+            if shape1 is None or len(shape1) == 1:
+                new_broadcast_shape = [-1 if shape1 is None else shape1[0]] + [1] * (len(shape0) - 2)
                 shape_name = utils.make_name(node.name)
-                ctx.make_const(shape_name, np.array(new_broadcast_shape, dtype=np.int64))
+                ctx.make_const(shape_name, np.array([-1] + new_broadcast_shape[1:], dtype=np.int64))
                 op_name = node.input[1]
                 reshape_node = ctx.make_node("Reshape", [op_name, shape_name])
                 ctx.replace_input(node, op_name, reshape_node.output[0], 1)
-- 
2.43.0


From 6fd6f05a9f3a3844007b23c5fea2f6081b625776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 57/78] fix: record the types clipping computes with

---
 tf2onnx/onnx_opset/math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 70ff301..6443d02 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -166,6 +166,7 @@ class ClipByValueOp:
         shapes = node.output_shapes
         dtypes = node.output_dtypes
         input_dtype = ctx.get_dtype(node.input[0])
+        calc_dtype = input_dtype if input_dtype in supported else onnx_pb.TensorProto.FLOAT
         name = node.name
         min_node = node.input[1]
         if ctx.get_dtype(min_node) not in supported:
@@ -177,7 +178,7 @@ class ClipByValueOp:
             max_node = ctx.insert_new_node_on_input(node, "Cast", max_node, to=onnx_pb.TensorProto.FLOAT).output[0]
         ctx.remove_node(name)
         new_node = ctx.make_node("Max", [node.input[0], min_node], outputs=[node.output[0]],
-                                 shapes=shapes, dtypes=dtypes)
+                                 shapes=shapes, dtypes=[calc_dtype])
         if input_dtype not in supported:
             # cast the data tensor if needed
             ctx.insert_new_node_on_input(new_node, "Cast", new_node.input[0], to=onnx_pb.TensorProto.FLOAT)
@@ -185,7 +186,7 @@ class ClipByValueOp:
         new_node = ctx.insert_new_node_on_output("Min", new_node.output[0], name=utils.make_name(name))
         new_node.input.append(max_node)
         # copy shape and type
-        ctx.set_dtype(new_node.output[0], dtypes[0])
+        ctx.set_dtype(new_node.output[0], calc_dtype)
         ctx.set_shape(new_node.output[0], shapes[0])
         if dtypes[0] not in supported:
             # cast output if needed
-- 
2.43.0


From f30296f7b016d4490ace7266ebb83f5aa118d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 58/78] fix: shift int8 right with copies of the sign bit

---
 tf2onnx/onnx_opset/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 6443d02..5c281e0 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -824,7 +824,8 @@ class BitShift:
         direction = dir_map[node.type]
         supported = [onnx_pb.TensorProto.UINT8, onnx_pb.TensorProto.UINT16,
                      onnx_pb.TensorProto.UINT32, onnx_pb.TensorProto.UINT64]
-        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT8,
+        # a wider type holds the copies of the sign bit that are shifted in from the left
+        type_map = {onnx_pb.TensorProto.INT8: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT16: onnx_pb.TensorProto.UINT32,
                     onnx_pb.TensorProto.INT32: onnx_pb.TensorProto.UINT64}
         shapes = node.output_shapes
-- 
2.43.0


From 3edf34c714c95adcd898be773746dc9d7cd23a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 59/78] fix: give atan2 the shape its inputs broadcast to

---
 tf2onnx/onnx_opset/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/onnx_opset/math.py b/tf2onnx/onnx_opset/math.py
index 5c281e0..12e7fa8 100644
--- a/tf2onnx/onnx_opset/math.py
+++ b/tf2onnx/onnx_opset/math.py
@@ -955,7 +955,7 @@ class Atan2Op:
 
         onnx_dtype = ctx.get_dtype(node.input[0])
         utils.make_sure(onnx_dtype in supported_dtypes, "Unsupported input type.")
-        shape = ctx.get_shape(node.input[0])
+        shape = node.output_shapes[0]
         np_dtype = utils.map_onnx_to_numpy_type(onnx_dtype)
 
         # sign part
@@ -978,7 +978,7 @@ class Atan2Op:
 
         one_node = ctx.make_const(
             utils.make_name("{}_one".format(node.name)),
-            np.array([1], dtype=np_dtype))
+            np.array(1, dtype=np_dtype))
 
         pib2_node = ctx.make_const(
             utils.make_name("{}_pi".format(node.name)),
-- 
2.43.0


From e20f908fa85c4a44b6748f85204b54d53c571979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 60/78] fix: compare floats below opset 11 without cutting them
 to integers

---
 tf2onnx/onnx_opset/logical.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index a8824e9..9bb38e1 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -76,11 +76,26 @@ class Equal:
     def version_7(cls, ctx, node, **kwargs):
         # T2 output = Equal(T1, x, T1 y), T1 \in {bool, int32, int64}
         need_not = node.type == "NotEqual"
-        if need_not and node.input[0] == node.input[1]:
+        float_dtypes = [TensorProto.FLOAT, TensorProto.FLOAT16, TensorProto.DOUBLE]
+        is_float = all(ctx.get_dtype(inp) in float_dtypes for inp in node.input)
+        if need_not and is_float and ctx.opset >= 9 and node.input[0] == node.input[1]:
             # The only value not equal to itself is NaN
             node.type = "IsNaN"
             ctx.replace_inputs(node, [node.input[0]])
             return
+        if is_float:
+            # no Equal for floats: they differ if one is less than the other
+            shapes, dtypes = node.output_shapes, node.output_dtypes
+            differ = ctx.make_node("Or", [ctx.make_node("Less", node.input).output[0],
+                                          ctx.make_node("Greater", node.input).output[0]]).output[0]
+            if ctx.opset >= 9:
+                for inp in node.input:
+                    is_nan = ctx.make_node("IsNaN", [inp]).output[0]
+                    differ = ctx.make_node("Or", [differ, is_nan]).output[0]
+            ctx.remove_node(node.name)
+            ctx.make_node("Identity" if need_not else "Not", [differ], name=node.name, outputs=node.output,
+                          shapes=shapes, dtypes=dtypes)
+            return
         supported_dtypes = [
             TensorProto.BOOL,
             TensorProto.INT32,
-- 
2.43.0


From 65eadbf991d7832d6eba66c6272cf43030c8aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:41 +0000
Subject: [PATCH 61/78] fix: order integers as integers from opset 9

---
 tf2onnx/onnx_opset/logical.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tf2onnx/onnx_opset/logical.py b/tf2onnx/onnx_opset/logical.py
index 9bb38e1..a073d32 100644
--- a/tf2onnx/onnx_opset/logical.py
+++ b/tf2onnx/onnx_opset/logical.py
@@ -157,6 +157,12 @@ class GreaterLess:
             TensorProto.DOUBLE
         ]
         target_dtype = TensorProto.FLOAT
+        int_dtypes = [TensorProto.INT8, TensorProto.INT16, TensorProto.INT32, TensorProto.INT64,
+                      TensorProto.UINT8, TensorProto.UINT16, TensorProto.UINT32]
+        if ctx.opset >= 9 and all(ctx.get_dtype(inp) in int_dtypes for inp in node.input):
+            # a float does not hold every integer
+            target_dtype = TensorProto.INT64
+            supported_dtypes = [TensorProto.INT64]
         _add_cast_to_inputs(ctx, node, supported_dtypes, target_dtype)
 
 @tf_op(["GreaterEqual", "LessEqual"])
-- 
2.43.0


From 40b8fe3fd3fc8e5b44468936a29e67941a5e29db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 62/78] fix: make a LeakyRelu of Maximum(alpha * x, x) for a
 scalar alpha and floating point x only

---
 tf2onnx/rewriter/leakyrelu_rewriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/leakyrelu_rewriter.py b/tf2onnx/rewriter/leakyrelu_rewriter.py
index ec42294..e49d9b7 100644
--- a/tf2onnx/rewriter/leakyrelu_rewriter.py
+++ b/tf2onnx/rewriter/leakyrelu_rewriter.py
@@ -5,6 +5,9 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx leakyrelu op
 """
 
+import numpy as np
+from onnx import TensorProto
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -32,9 +35,13 @@ def rewrite_leakyrelu(g, ops):
         max_input_edge_name = match.get_tensor('max_input')
         mul_input_edge_name = match.get_tensor('mul_input')
         if max_input_edge_name == mul_input_edge_name:
-            alpha = match.get_op("alpha").get_tensor_value()
-            if alpha >= 1:
+            alpha = match.get_op("alpha").get_tensor_value(as_list=False)
+            # alpha becomes a float attribute: it must be a single number below 1 which a float can hold
+            if alpha.ndim != 0 or alpha >= 1 or alpha != np.float32(alpha):
+                continue
+            if g.get_dtype(max_node.output[0]) not in [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE]:
                 continue
+            alpha = float(alpha)
             leakyrelu = g.make_node("LeakyRelu", inputs=[max_input_edge_name], attr={"alpha": alpha},
                                     shapes=[g.get_shape(max_node.output[0])], dtypes=[g.get_dtype(max_node.output[0])])
             ops.append(leakyrelu)
-- 
2.43.0


From 17cec99cbabf3a7824a24cdcff8f442dbc83a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 63/78] fix: make a ThresholdedRelu of x * Cast(x > theta) for
 a scalar theta on the right hand side and floating point x only

---
 tf2onnx/rewriter/thresholded_relu_rewriter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/thresholded_relu_rewriter.py b/tf2onnx/rewriter/thresholded_relu_rewriter.py
index d0cfa12..0e2dc0c 100644
--- a/tf2onnx/rewriter/thresholded_relu_rewriter.py
+++ b/tf2onnx/rewriter/thresholded_relu_rewriter.py
@@ -5,6 +5,9 @@
 tf2onnx.rewriter - rewrite tensorflow subgraph to onnx ThresholdedRelu op
 """
 
+import numpy as np
+from onnx import TensorProto
+
 from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
 
 # pylint: disable=missing-docstring
@@ -17,7 +20,7 @@ def rewrite_thresholded_relu(g, ops):
     pattern = \
         OpTypePattern('Mul', name='mul', inputs=[
             OpTypePattern('Cast', name='cast', inputs=[
-                OpTypePattern('Greater', name='greater', inputs=[
+                OpTypePattern('Greater', name='greater', allow_reorder=False, inputs=[
                     OpTypePattern('*', name='greater_input'),
                     OpTypePattern('Const', name='theta')
                 ])
@@ -34,7 +37,13 @@ def rewrite_thresholded_relu(g, ops):
         greater_input_edge_name = match.get_tensor('greater_input')
         mul_input_edge_name = match.get_tensor('mul_input')
         if greater_input_edge_name == mul_input_edge_name:
-            theta = match.get_op('theta').get_tensor_value()
+            theta = match.get_op('theta').get_tensor_value(as_list=False)
+            # theta becomes a float attribute: it must be a single number which a float can hold
+            if theta.ndim != 0 or theta != np.float32(theta):
+                continue
+            if g.get_dtype(mul_node.output[0]) not in [TensorProto.FLOAT16, TensorProto.FLOAT, TensorProto.DOUBLE]:
+                continue
+            theta = float(theta)
             thresholded_relu = g.make_node("ThresholdedRelu", inputs=[mul_input_edge_name], attr={"alpha": theta},
                                            shapes=[g.get_shape(mul_node.output[0])],
                                            dtypes=[g.get_dtype(mul_node.output[0])])
-- 
2.43.0


From 7abaf92d2f4e5ddaa062f0f63e2daab9cf312e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 64/78] fix: make a Flatten of a Reshape only when the kept
 dimension is the one of the reshaped tensor

---
 tf2onnx/rewriter/flatten_rewriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tf2onnx/rewriter/flatten_rewriter.py b/tf2onnx/rewriter/flatten_rewriter.py
index fac9263..4f51002 100644
--- a/tf2onnx/rewriter/flatten_rewriter.py
+++ b/tf2onnx/rewriter/flatten_rewriter.py
@@ -64,7 +64,12 @@ def rewrite_flatten(g, ops):
                                np.array_equal(list(input_shape), list(slice_node.inputs[0].get_tensor_value()))
                 if not need_rewrite:
                     continue
+            elif match.get_tensor('input2') != reshape_node.input[0]:
+                # the batch size has to be the one of the tensor that is reshaped
+                continue
 
+            if not all(inp.is_const() for inp in slice_node.inputs[1:4]):
+                continue
             begin = slice_node.inputs[1].get_tensor_value(as_list=False)
             end = slice_node.inputs[2].get_tensor_value(as_list=False)
             strides = slice_node.inputs[3].get_tensor_value(as_list=False)
-- 
2.43.0


From b5b0bd6139c093bdc78b46793fa5dab73fba51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 65/78] fix: do not make a Gemm when a factor or an addend has
 more dimensions than a matrix

---
 tf2onnx/rewriter/gemm_rewriter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tf2onnx/rewriter/gemm_rewriter.py b/tf2onnx/rewriter/gemm_rewriter.py
index d06c7e0..a8d4782 100644
--- a/tf2onnx/rewriter/gemm_rewriter.py
+++ b/tf2onnx/rewriter/gemm_rewriter.py
@@ -90,6 +90,7 @@ def rewrite_gemm(g, ops):
                 if c_shape is None: continue
                 if a_mul_b_shape is None: continue
                 if -1 in c_shape + a_mul_b_shape: continue
+                if len(c_shape) > 2: continue
                 if g.get_rank(a_edge_name) != 2 or g.get_rank(b_edge_name) != 2: continue
                 compatible = True
                 for i in range(1, len(c_shape) + 1):
@@ -114,12 +115,10 @@ def get_gemm_attr(match):
     for arg in ["alpha", "beta"]:
         arg_op = match.get_op(arg)
         if arg_op is not None:
-            match_args = arg_op.get_tensor_value()
-            if isinstance(match_args, list):
-                if len(match_args) != 1:
-                    return attr, False
-                match_args = match_args[0]
-            attr[arg] = match_args
+            match_args = arg_op.get_tensor_value(as_list=False)
+            if match_args.size != 1 or match_args.ndim > 2:
+                return attr, False
+            attr[arg] = match_args.item()
     for arg in ["matmul"]:
         arg_op = match.get_op(arg)
         if arg_op is not None:
-- 
2.43.0


From 7957483d52e398e5eee61c56c7e473b07577006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 66/78] fix: do not merge a Pad into a Conv2D that has explicit
 paddings of its own

---
 tf2onnx/rewriter/conv2d_with_pad_rewriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
index ca281f6..d67c1d8 100644
--- a/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_pad_rewriter.py
@@ -37,7 +37,7 @@ def rewrite_conv2d_with_pad(g, ops):
         if mode not in [None, "constant"] or len(pad.input) >= 3:
             continue
         # Conv2D already has a pad
-        if conv.get_attr("padding").s.decode("utf-8") == "SAME":
+        if conv.get_attr("padding").s.decode("utf-8") != "VALID":
             continue
 
         logger.debug("merge pad [%s] into conv [%s]", pad.name, conv.name)
-- 
2.43.0


From 613d6655f8ecbdb3dcd51a1d00dcac8f1e3f810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 67/78] fix: do not merge a BiasAdd into a convolution when
 their data formats differ

---
 tf2onnx/rewriter/conv2d_with_add_rewriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tf2onnx/rewriter/conv2d_with_add_rewriter.py b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
index fb719b5..f713d3a 100644
--- a/tf2onnx/rewriter/conv2d_with_add_rewriter.py
+++ b/tf2onnx/rewriter/conv2d_with_add_rewriter.py
@@ -28,6 +28,10 @@ def rewrite_biasadd_with_conv2d(g, ops):
             biasadd = match.get_op('biasadd')
             conv = match.get_op('conv')
 
+            # the bias has to be added along the channels of the convolution
+            if biasadd.get_attr_value("data_format", b"NHWC") != conv.get_attr_value("data_format", b"NHWC"):
+                continue
+
             # Backup the conv and biasadd values
             conv_type = conv.type
             conv_input = conv.input
-- 
2.43.0


From aef3b495d1765f2b2d39ddcdb48cf7c23b4dd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:07 +0000
Subject: [PATCH 68/78] fix: recognise a layer normalization only where it
 subtracts the mean, keeps the axis and is of type float

---
 tf2onnx/rewriter/layer_normalization_rewriter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tf2onnx/rewriter/layer_normalization_rewriter.py b/tf2onnx/rewriter/layer_normalization_rewriter.py
index a0e5e1c..501918f 100644
--- a/tf2onnx/rewriter/layer_normalization_rewriter.py
+++ b/tf2onnx/rewriter/layer_normalization_rewriter.py
@@ -20,7 +20,7 @@ def rewrite_layer_normalization(g, ops):
     inner_pattern = \
         OpTypePattern('Rsqrt', inputs=[
             OpTypePattern('Add', inputs=[
-                OpTypePattern('Mean', allow_reorder=False, inputs=[
+                OpTypePattern('Mean', name='variance', allow_reorder=False, inputs=[
                     OpTypePattern('Square', inputs=[
                         OpTypePattern('Sub', allow_reorder=False, inputs=[
                             OpTypePattern('*', name='input'),
@@ -43,7 +43,7 @@ def rewrite_layer_normalization(g, ops):
                     inner_pattern,
                     OpTypePattern('*', name='scale')
                 ]),
-                OpTypePattern('Sub', inputs=[
+                OpTypePattern('Sub', allow_reorder=False, inputs=[
                     OpTypePattern('*', name='input_r3'),
                     OpTypePattern('Mean', name='mean_r2')
                 ])
@@ -55,7 +55,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     inner_pattern,
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
@@ -69,7 +69,7 @@ def rewrite_layer_normalization(g, ops):
             OpTypePattern('Mul', name='scale_mul', inputs=[
                 OpTypePattern('Mul', inputs=[
                     OpTypePattern('*', name='scale'),
-                    OpTypePattern('Sub', inputs=[
+                    OpTypePattern('Sub', allow_reorder=False, inputs=[
                         OpTypePattern('*', name='input_r3'),
                         OpTypePattern('Mean', name='mean_r2')
                     ])
@@ -94,10 +94,12 @@ def rewrite_layer_normalization(g, ops):
                 if match.get_op('mean').name != match.get_op('mean_r2').name:
                     continue
                 inp = match.get_op('mean').input[0]
-                if rank != 3:
+                if rank != 3 or g.get_dtype(input_tensor) != TensorProto.FLOAT:
                     continue
-                mean_axes = match.get_op('mean_axes').get_tensor_value(as_list=True)
-                variance_axes = match.get_op('variance_axes').get_tensor_value(as_list=True)
+                if not all(match.get_op(n).get_attr_value('keep_dims', False) for n in ['mean', 'variance']):
+                    continue
+                mean_axes = match.get_op('mean_axes').get_tensor_value(as_list=False).flatten().tolist()
+                variance_axes = match.get_op('variance_axes').get_tensor_value(as_list=False).flatten().tolist()
                 mean_axes = [a % rank for a in mean_axes]
                 variance_axes = [a % rank for a in variance_axes]
                 if mean_axes != [2] or variance_axes != [2]:
-- 
2.43.0


From cf0c3872f0d17f0081a43ff92ab08f86ed25f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:28 +0000
Subject: [PATCH 69/78] fix: make a dilated convolution only of a convolution
 that has no strides or dilations and no other use

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 22 ++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index d162c8d..6ab21bb 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -72,6 +72,24 @@ def rewrite_conv_dilations(g, ops):
 
             if conv.get_attr_value("padding") != b"VALID":
                 continue
+            # the convolution must not skip anything itself
+            strides = conv.get_attr_value("strides")
+            if any(s != 1 for s in strides + (conv.get_attr_value("dilations") or [])):
+                continue
+            # the blocks have to be taken from the spatial dimensions, all of them
+            channels_first = conv.get_attr_value("data_format") in [b"NCHW", b"NCDHW"]
+            if is_conv_1d:
+                if channels_first or len(block_shape1) != 1:
+                    continue
+            elif channels_first:
+                if len(block_shape1) != len(strides) - 1 or block_shape1[0] != 1:
+                    continue
+            elif len(block_shape1) != len(strides) - 2:
+                continue
+            # the nodes that are about to change must not be used for anything else
+            inner = [expand, conv, squeeze] if is_conv_1d else [conv]
+            if any(len(g.find_output_consumers(n.output[0])) > 1 for n in inner):
+                continue
 
             if space_to_batch.inputs[2].is_const() and batch_to_space.inputs[2].is_const():
                 paddings = space_to_batch.inputs[2].get_tensor_value(as_list=True)
@@ -80,7 +98,9 @@ def rewrite_conv_dilations(g, ops):
                 if any(c[0] != 0 for c in crops):
                     continue
                 base_end_pad = [p[1] - c[1] for p, c in zip(paddings, crops)]
-                if not all(0 <= p[1] - bp < bs for p, bp, bs in zip(paddings, base_end_pad, block_shape1)):
+                if not all(0 <= bp and 0 <= p[1] - bp < bs for p, bp, bs in zip(paddings, base_end_pad, block_shape1)):
+                    continue
+                if channels_first and (base_start_pad[0] != 0 or base_end_pad[0] != 0):
                     continue
                 pad_mode = "EXPLICIT"
                 if is_conv_1d:
-- 
2.43.0


From bb7ddf16584e0d4343c550eec5177a15203ad0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 70/78] fix: keep the slope, epsilon and data format of fused
 ops when they are taken apart

---
 tf2onnx/rewriter/fused_op_rewriter.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/fused_op_rewriter.py b/tf2onnx/rewriter/fused_op_rewriter.py
index 35ab071..68e8caa 100644
--- a/tf2onnx/rewriter/fused_op_rewriter.py
+++ b/tf2onnx/rewriter/fused_op_rewriter.py
@@ -23,7 +23,7 @@ def rewrite_fused_ops(g, ops):
             for op in op_types:
                 num_inputs = {"BiasAdd": 2, "FusedBatchNorm": 5}.get(op, 1 + len(extra_inputs))
                 my_inputs = [last_output] + extra_inputs[:num_inputs - 1]
-                new_node = g.make_node(op, my_inputs, skip_conversion=False,
+                new_node = g.make_node(op, my_inputs, attr=get_fused_op_attr(node, op), skip_conversion=False,
                                        op_name_scope=node.name, dtypes=[dtype], shapes=[shape])
                 last_output = new_node.output[0]
                 extra_inputs = extra_inputs[num_inputs - 1:]
@@ -34,3 +34,16 @@ def rewrite_fused_ops(g, ops):
             g.replace_all_inputs(node.output[0], last_output, consumers)
 
     return g.get_nodes()
+
+
+def get_fused_op_attr(node, op):
+    """Get the attributes that the fused node has for one of its ops."""
+    attr = {}
+    if op in ["BiasAdd", "FusedBatchNorm"] and node.get_attr_value("data_format"):
+        attr["data_format"] = node.get_attr_value("data_format")
+    if op == "FusedBatchNorm":
+        attr["epsilon"] = node.get_attr_value("epsilon", 0.0001)
+        attr["is_training"] = False
+    elif op == "LeakyRelu":
+        attr["alpha"] = node.get_attr_value("leakyrelu_alpha", 0.2)
+    return attr
-- 
2.43.0


From 58d16ee9e380a01caa2490d4ced0f5d52abeb91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 71/78] fix: take a computed permutation for a reversal only
 when its range counts upwards

---
 tf2onnx/rewriter/transpose_rewriter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/rewriter/transpose_rewriter.py b/tf2onnx/rewriter/transpose_rewriter.py
index 4ea83a6..af7e6ed 100644
--- a/tf2onnx/rewriter/transpose_rewriter.py
+++ b/tf2onnx/rewriter/transpose_rewriter.py
@@ -16,7 +16,7 @@ def rewrite_transpose(g, ops):
             OpTypePattern(None),
             OpTypePattern('Sub', inputs=[
                 OpTypePattern('Sub', inputs=["*", "*"]),
-                OpTypePattern('Range', inputs=["*", "*", "*"]),
+                OpTypePattern('Range', name='range', inputs=["*", "*", "*"]),
             ]),
         ])
 
@@ -25,6 +25,10 @@ def rewrite_transpose(g, ops):
     for match in match_results:
         output = match.get_op('output')
         shape = g.get_shape(output.input[0])
+        delta = match.get_op('range').inputs[2]
+        if shape is None or not delta.is_const() or delta.get_tensor_value() != 1:
+            # not known to reverse the dimensions
+            continue
         dims = range(len(shape) - 1, -1, -1)
         output.set_attr("perm", dims)
         g.remove_input(output, output.input[1], 1)
-- 
2.43.0


From 54d1110b63df20531a0d082f569caa89ea4ee675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:05 +0000
Subject: [PATCH 72/78] fix: keep the order and the repetitions of the elements
 when a ListDiff is folded

---
 tf2onnx/tfonnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 6e4d5ee..245b969 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -77,7 +77,7 @@ def rewrite_constant_fold(g, ops):
         "Cast": np.asarray,
         "ConcatV2": np.concatenate,
         "Less": np.less,
-        "ListDiff": np.setdiff1d,
+        "ListDiff": lambda x, y: x[~np.isin(x, y)],
         "Mul": np.multiply,
         "Pack": np.stack,
         "Range": np.arange,
-- 
2.43.0


From fa91cf993850d6fbefd25886cf00e3b36332b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 73/78] fix: make a dilated one-dimensional convolution of
 tensors of unknown rank

---
 tf2onnx/rewriter/conv_dilations_rewriter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tf2onnx/rewriter/conv_dilations_rewriter.py b/tf2onnx/rewriter/conv_dilations_rewriter.py
index 6ab21bb..392aeb4 100644
--- a/tf2onnx/rewriter/conv_dilations_rewriter.py
+++ b/tf2onnx/rewriter/conv_dilations_rewriter.py
@@ -119,9 +119,13 @@ def rewrite_conv_dilations(g, ops):
                 g.copy_shape(batch_to_space.output[0], squeeze.output[0])
                 g.replace_all_inputs(batch_to_space.output[0], squeeze.output[0])
                 squeeze_out_shape = g.get_shape(squeeze.output[0])
-                g.set_shape(squeeze.input[0], squeeze_out_shape[:1] + [1] + squeeze_out_shape[1:])
+                if squeeze_out_shape is not None:
+                    squeeze_out_shape = squeeze_out_shape[:1] + [1] + squeeze_out_shape[1:]
+                g.set_shape(squeeze.input[0], squeeze_out_shape)
                 expand_inp_shape = g.get_shape(expand.input[0])
-                g.set_shape(expand.output[0], expand_inp_shape[:1] + [1] + expand_inp_shape[1:])
+                if expand_inp_shape is not None:
+                    expand_inp_shape = expand_inp_shape[:1] + [1] + expand_inp_shape[1:]
+                g.set_shape(expand.output[0], expand_inp_shape)
             else:
                 inp = space_to_batch.input[0]
                 kernel = conv.input[1]
-- 
2.43.0


From 431df4f79d828ca97bdde1dc5b675345d7e0bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:08 +0000
Subject: [PATCH 74/78] fix: convolutions whose kernel has dimensions that are
 not known

---
 tf2onnx/onnx_opset/nn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 3ada5cb..893f5f8 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -131,7 +131,7 @@ def conv_convert_inputs(ctx, node, with_kernel=False, new_kernel_shape=None,
                 ctx.replace_input(node, kernel_name, reshape.output[0], 1)
 
                 reshape.skip_conversion = True
-            ctx.set_shape(reshape.output[0], new_kernel_shape)
+            ctx.set_shape(reshape.output[0], [d if d > 0 else -1 for d in new_kernel_shape])
 
         # Get kernel (may have be changed to a reshape above).
         kernel_node = node.inputs[1]
@@ -233,8 +233,8 @@ def add_padding(ctx, node, kernel_shape, strides, dilations=None, spatial=2):
             input_shape = make_shape_channels_first(input_shape)
             output_shape = make_shape_channels_first(output_shape)
 
-        # Check for unknown input/output dimensions. Fall back to auto padding if so.
-        if any(input_shape[i + 2] == -1 or output_shape[i + 2] == -1 for i in range(spatial)):
+        # Check for unknown input/output/kernel dimensions. Fall back to auto padding if so.
+        if any(input_shape[i + 2] == -1 or output_shape[i + 2] == -1 or kernel_shape[i] == -1 for i in range(spatial)):
             logger.debug(
                 "node %s has unknown dim for pads calculation, fallback to auto_pad: "
                 "input_shape=%s, output_shape=%s",
@@ -662,7 +662,8 @@ class DepthwiseConv2d:
         node.set_attr("group", k_input_channels)
         add_padding(ctx, node, kernel_shape, strides, dilations)
 
-        new_kernel_shape = [k_h, k_w, 1, k_output_channels]
+        # 0 copies a dimension that is not known, -1 computes the number of the output channels
+        new_kernel_shape = [max(k_h, 0), max(k_w, 0), 1, k_output_channels if k_channel_multiplier > 0 else -1]
         conv_convert_inputs(ctx, node, with_kernel=True, new_kernel_shape=new_kernel_shape)
 
 
-- 
2.43.0


From 268466156bf6a31357211e08db6c98ec75b34083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:22 +0000
Subject: [PATCH 75/78] fix: do not transpose quantized convolution weights
 other nodes use

---
 tf2onnx/onnx_opset/nn.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/onnx_opset/nn.py b/tf2onnx/onnx_opset/nn.py
index 893f5f8..60fa098 100644
--- a/tf2onnx/onnx_opset/nn.py
+++ b/tf2onnx/onnx_opset/nn.py
@@ -148,10 +148,12 @@ def conv_convert_inputs(ctx, node, with_kernel=False, new_kernel_shape=None,
                 # Assuming the model was trained in NHWC in TF,
                 # the weights would be in [fH, fW, C_in, C_out].
                 # orig_conv_weights -> Q -> DQ -> new_conv_weights -> conv
-                weights_node = kernel_node.inputs[0].inputs[0]
-                val = weights_node.get_tensor_value(as_list=False)
+                # Other nodes may use the weights too, they get a constant of their own.
+                quantize_node = kernel_node.inputs[0]
+                val = quantize_node.inputs[0].get_tensor_value(as_list=False)
                 val = np.transpose(val, permutation)
-                weights_node.set_tensor_value(val)
+                weights = ctx.make_const(utils.make_name(quantize_node.inputs[0].name), val)
+                ctx.replace_input(quantize_node, quantize_node.input[0], weights.output[0], 0)
                 need_transpose = False
                 # Change the quantization axis for Q and DQ node accordingly
                 kernel_node.set_attr("axis", quantization_axis) # DQ node
-- 
2.43.0


From dba583dd8a918b75f4bf748607c7ecb58ee5a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:46 +0000
Subject: [PATCH 76/78] fix: transpose an output to NCHW without transposing
 what else is computed from it

---
 tf2onnx/tfonnx.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 245b969..0a42756 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -340,11 +340,11 @@ def transpose_outputs(ctx, outputs_as_nchw):
                     logger.warning("transpose_output for %s: shape must be rank 4, ignored" % output_name)
                     ops.append(node)
                     continue
-                # insert transpose
+                # insert transpose, only the output sees it and not the other consumers of the tensor
                 op_name = utils.make_name(node.name)
-                transpose = ctx.insert_new_node_on_output("Transpose", node.input[0], name=op_name)
+                transpose = ctx.insert_new_node_on_input(node, "Transpose", node.input[0], name=op_name)
                 transpose.set_attr("perm", constants.NHWC_TO_NCHW)
-                ctx.copy_shape(node.output[0], transpose.output[0])
+                ctx.copy_dtype(output_name, transpose.output[0])
                 ctx.set_shape(transpose.output[0], np.array(shape)[constants.NHWC_TO_NCHW])
                 ctx.set_shape(output_name, np.array(shape)[constants.NHWC_TO_NCHW])
                 ops.append(transpose)
-- 
2.43.0


From a89a60292de1968421403e1bf01624bde2d547c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:46 +0000
Subject: [PATCH 77/78] fix: keep the constant of a placeholder's default when
 something else uses it too

---
 tf2onnx/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tf2onnx/graph.py b/tf2onnx/graph.py
index bb0be51..42443c9 100644
--- a/tf2onnx/graph.py
+++ b/tf2onnx/graph.py
@@ -1143,7 +1143,12 @@ class Graph(object):
                 placeholder_default_const_ops.append(op.inputs[0])
 
         # create initializers for constant nodes
-        const_ops = [op for op in const_ops if op not in placeholder_default_const_ops]
+        def is_default_only(op):
+            consumers = self.find_output_consumers(op.output[0])
+            return op in placeholder_default_const_ops and op.output[0] not in self.outputs \
+                and all(c.type == "PlaceholderWithDefault" for c in consumers)
+
+        const_ops = [op for op in const_ops if not is_default_only(op)]
         for op in const_ops:
             # not to use numpy_helper.from_array to create a new tensor
             # because sometimes onnx will have a bug that only check the tensor data in specific field
-- 
2.43.0


From 45eafac339e580dfb5d8de979395edfd7d4f357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:46 +0000
Subject: [PATCH 78/78] fix: report a rewriter that fails in a body graph

---
 tf2onnx/tfonnx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tf2onnx/tfonnx.py b/tf2onnx/tfonnx.py
index 0a42756..f938b16 100644
--- a/tf2onnx/tfonnx.py
+++ b/tf2onnx/tfonnx.py
@@ -394,7 +394,7 @@ def run_rewriters(g, funcs, continue_on_error):
     if g.contained_graphs:
         for dict_val in g.contained_graphs.values():
             for attr_name, b_g in dict_val.items():
-                run_rewriters(b_g, funcs, attr_name)
+                run_rewriters(b_g, funcs, continue_on_error)
 
 
 def process_tf_graph(tf_graph, continue_on_error=False, verbose=False, target=None,
-- 
2.43.0

