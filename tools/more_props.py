prop('C03', 'Slices select exactly the elements TensorFlow selects',
     'A converted StridedSlice or Slice returns a tensor of TensorFlow\'s shape holding TensorFlow\'s element at every index, for every combination of begin, end, shrink, new-axis and ellipsis masks, '
     'positive and negative bounds and strides, whatever values stand in masked entries, whether the bounds are constants or computed at run time.',
     ['inputs', 'configurations'], 'all input sizes, begins, ends and non-zero strides; all masks; constant and run-time bounds of either integer type; all opsets the operator supports',
     'the tests slice fixed arrays with fixed bounds; wrong clamping, masks or axis bookkeeping needs particular signs, masks and positions together',
     ['tf2onnx/onnx_opset/tensor.py', 'tf2onnx/graph_builder.py'],
     [('StridedSlice, Slice', 'tf2onnx/onnx_opset/tensor.py'), ('GraphBuilder.make_slice, make_squeeze, make_unsqueeze', 'tf2onnx/graph_builder.py')],
     'proof', 'dimensions, bounds and strides symbolic, every arrangement of up to two entries and a reduced alphabet of three, ranks up to four; longer specifications and element types only by the bounded net')
prop('C04', 'The graph\'s indices always agree with the graph',
     'After any sequence of graph edits (making, inserting, removing, renaming and rewiring nodes, attaching body graphs, pruning and sorting) on graphs with nested body graphs: a node is found by its name and by '
     'each of its outputs from its own graph and every graph inside it, the consumers reported for a tensor are exactly the nodes of the graph and of the body graphs of its nodes that read it, '
     'rewiring a tensor reaches every reader it names and no other input, a removed node is found no longer and leaves no shape or type behind, and shapes and types follow their tensors.',
     ['histories', 'inputs'], 'every sequence of edits on every graph, with any number of nodes, inputs, outputs and nested body graphs',
     'a stale or missing index entry shows only when a later rewrite looks up that very tensor; the tests run fixed pipelines on fixed models',
     ['tf2onnx/graph.py'],
     [('_register_input_name, _unregister_input_name, find_output_consumers', 'tf2onnx/graph.py'), ('replace_input, replace_inputs, replace_all_inputs, remove_input, insert_new_node_on_input, insert_node_on_output', 'tf2onnx/graph.py'),
      ('make_node, remove_node, reset_nodes, set_node_by_name, append_node, rename_tensors, delete_unused_nodes, safe_to_remove_nodes', 'tf2onnx/graph.py')],
     'proof', 'methods proved one by one as inductive steps over tables and input lists of any size (replace_all_inputs with up to two nodes, lookups through up to four enclosing graphs); sequences of edits only by the bounded net',
     state='Graph._nodes_by_name, _output_to_node_name, _output_to_consumers, _input_to_graph, contained_graphs, _output_shapes, _dtypes')
prop('C07', 'Moving transposes never changes what a model computes',
     'After the transpose optimizer ran, every graph output is, element for element, the tensor it was before, for whatever operators stand behind and in front of a transpose, whichever tensors and constants several nodes share, '
     'whichever of the tensors are graph outputs, and every recorded shape is the shape of its tensor.',
     ['inputs', 'configurations'], 'all dimensions and constants; every permutation; every operator the optimizer handles with every axis argument, operand arrangement, broadcasting form and opset',
     'the tests optimize some 150 fixed graphs with one or two permutations each; a wrong axis, a shared constant or a self-inverse permutation shows only on particular graphs',
     ['tf2onnx/optimizer/transpose_optimizer.py', 'tf2onnx/optimizer/optimizer_base.py'],
     [('TransposeOptimizer._optimize and all its handlers', 'tf2onnx/optimizer/transpose_optimizer.py')],
     'proof', 'dimensions and constants symbolic, permutations of rank two to four all enumerated (rank five: the channel permutations); longer chains and body graphs only by the bounded net')
prop('C08', 'Every other optimizer pass keeps what a model computes',
     'After any of the optimizer passes besides the transpose optimizer ran (constant folding, removing upsamplings, identities and back-to-back pairs, merging duplicates, simplifying computed reshapes, recognising global pooling, '
     'moving quantization, reordering dequantized constants, moving transposes out of loops, decomposing einsums), every graph output is the tensor it was before, element for element, with its name, shape and element type, '
     'whichever tensors other nodes or the graph outputs share, and every recorded shape and element type is right.',
     ['inputs', 'configurations'], 'all dimensions and constants; every arrangement of operators, shared tensors, graph outputs, attributes and opset forms a pass looks for',
     'the tests optimize a fixed graph or two per pass; a tensor that is also a graph output, a constant two nodes share, an axis form or a cast that rounds shows only on particular graphs',
     ['tf2onnx/optimizer'],
     [('ConstFoldOptimizer, BackToBackOptimizer, IdentityOptimizer, MergeDuplicatedNodesOptimizer, ReshapeOptimizer, GlobalPoolOptimizer, QDQOptimizer, ConstDequantizeOptimizer, UpsampleOptimizer, LoopOptimizer', 'tf2onnx/optimizer')],
     'proof', 'dimensions and constants symbolic over the graph patterns the passes look for, ranks up to four or five; longer graphs, body graphs beyond If and Loop branches, and einsum decompositions only by the bounded net')

prop('C15', 'Operators that rearrange, join, split, index and reduce give TensorFlow\'s elements',
     'An operator that only rearranges, joins, splits, repeats, pads, indexes, selects or reduces (Reshape, Transpose, Squeeze, ExpandDims, Pack, Unpack, Concat, Split, SplitV, Tile, Fill, BroadcastTo, Gather, GatherNd, OneHot, Roll, '
     'Reverse, ReverseSequence, Pad, MirrorPad, BatchToSpace, SpaceToBatch, DepthToSpace, SpaceToDepth, Sum, Mean, Max, Min, Prod, All, Any, ArgMax, ArgMin, Cumsum, TopK, Softmax, MatMul, AddN, Select, Range, Shape, Size, scatters) is '
     'converted, on float tensors and on the integer and Boolean tensors the operator takes in ONNX, to operators that exist in the requested opset, take the element types they are given, and give TensorFlow\'s shape and TensorFlow\'s element at every index.',
     ['inputs', 'configurations'], 'all dimensions, indices and run-time shape operands; every rank up to three or four, axis (negative too), permutation and attribute; known and unknown input shapes; every opset',
     'the tests convert each operator with one or two axes and a fixed shape, usually all known; a negative axis, a rank, an opset form or a missing shape shows only in combination',
     ['tf2onnx/onnx_opset', 'tf2onnx/graph_builder.py'],
     [('handlers of the operators named', 'tf2onnx/onnx_opset/tensor.py'), ('ReduceOpBase, AllAny, ArgMax, AddN', 'tf2onnx/onnx_opset/reduction.py'), ('MatMul, Softmax, CumSum', 'tf2onnx/onnx_opset/math.py'),
      ('Select, Range', 'tf2onnx/onnx_opset/controlflow.py'), ('Pad, DepthToSpace, SpaceToDepth', 'tf2onnx/onnx_opset/nn.py'), ('Fill', 'tf2onnx/onnx_opset/generator.py'), ('GraphBuilder', 'tf2onnx/graph_builder.py')],
     'proof', 'dimensions, indices and shape operands symbolic, ranks up to three or four, every axis and attribute arrangement enumerated; the scatters, symmetric padding, inverse permutations and unknown ranks only by the bounded net')

prop('C16', 'Element-wise operators compute TensorFlow\'s function of TensorFlow\'s operands',
     'An arithmetic operator, comparison, logical or bitwise operator, shift, classification (IsNan, IsInf, IsFinite), unary function, activation, Cast, ClipByValue, BiasAdd or inference-time FusedBatchNorm is converted to operators that exist in the requested opset, '
     'take the element types they are given, and give at every index the function TensorFlow computes of the elements TensorFlow pairs by broadcasting, for every element type the operator is converted for, in the right operand order, '
     'with TensorFlow\'s rounding and sign for integers (division, modulo, shifts) and its meaning of infinities and NaN in comparisons and classifications; recorded shapes and types are those of the tensors.',
     ['inputs', 'configurations'], 'all elements of every element type (IEEE floats and two\'s complement integers), all dimensions, every broadcasting form, scalar and constant operands in either place, known and unknown shapes, every opset form',
     'the tests run each operator on a handful of ordinary values at one opset; a sign, a rounding, a large integer, an infinity, a broadcast order or an older opset form shows only in combination',
     ['tf2onnx/onnx_opset'],
     [('Sign, Erf, Clip, FloorDiv, FloorMod, TruncateDiv, DivNoNan, BitShift, Atan2, SquaredDifference, Round, activations', 'tf2onnx/onnx_opset/math.py'), ('comparisons, logical operators', 'tf2onnx/onnx_opset/logical.py'),
      ('BroadcastOp', 'tf2onnx/onnx_opset/common.py'), ('BiasAdd, BatchNorm', 'tf2onnx/onnx_opset/nn.py'), ('Cast, IsNan, IsFinite', 'tf2onnx/onnx_opset/tensor.py'), ('ZerosLike, OnesLike', 'tf2onnx/onnx_opset/generator.py')],
     'proof', 'elements and dimensions symbolic, ranks up to four; transcendental functions uninterpreted; no NaN into Maximum, Minimum, clipping, rectifiers and Sign, no zero integer divisor; formulas that are equal only up to rounding are compared over the reals')

prop('C13', 'Recognising a pattern of operators never changes what is computed',
     'Where the converter recognises several TensorFlow operators and replaces them together (leaky and thresholded rectifiers, flattening, matrix product with factors and addend, padding or bias or dilation around a convolution, computed constants and permutations, '
     'layer normalization, fused operators of grappler), every tensor other operators or the graph outputs see is the one the original operators compute, element for element, with its recorded shape and type - for graphs that match, '
     'and for graphs that only resemble the pattern (other operand, axis, order, data format, constant shape, or an inner tensor that something else reads).',
     ['inputs', 'configurations'], 'all dimensions and elements; operand orders, constants of every broadcast form, attributes, data formats, shared inner tensors, known and unknown shapes',
     'the tests contain the pattern as keras writes it; a model that resembles the pattern but means something else, or reads an inner tensor elsewhere, is not among them',
     ['tf2onnx/rewriter', 'tf2onnx/tfonnx.py', 'tf2onnx/graph_matcher.py'],
     [('rewrite_leakyrelu', 'tf2onnx/rewriter/leakyrelu_rewriter.py'), ('rewrite_thresholded_relu', 'tf2onnx/rewriter/thresholded_relu_rewriter.py'), ('rewrite_flatten', 'tf2onnx/rewriter/flatten_rewriter.py'), ('rewrite_gemm', 'tf2onnx/rewriter/gemm_rewriter.py'),
      ('rewrite_conv2d_with_pad', 'tf2onnx/rewriter/conv2d_with_pad_rewriter.py'), ('rewrite_biasadd_with_conv2d', 'tf2onnx/rewriter/conv2d_with_add_rewriter.py'), ('rewrite_conv_dilations', 'tf2onnx/rewriter/conv_dilations_rewriter.py'),
      ('rewrite_constant_fold', 'tf2onnx/tfonnx.py'), ('rewrite_transpose', 'tf2onnx/rewriter/transpose_rewriter.py'), ('rewrite_layer_normalization', 'tf2onnx/rewriter/layer_normalization_rewriter.py'), ('rewrite_fused_ops', 'tf2onnx/rewriter/fused_op_rewriter.py')],
     'proof', 'dimensions and elements symbolic over the patterns and near-patterns listed; real arithmetic; rewriters of recurrent networks, loops, conditionals, random numbers, dropout and quantization are not covered')
