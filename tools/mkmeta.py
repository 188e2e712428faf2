"""writes properties.jsonl and MANIFEST.json (python3 tools/mkmeta.py)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []
def prop(id, title, statement, over, q, why, files, mech, level=None, note='', tech='contract-based deductive verification of the real functions (own VC generator, z3/cvc5)', na=None, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = state
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
    if na:
        NA.append(dict(property=id, reason=na))
    elif level:
        CHECKS.append(dict(property=id, quick_cmd='python3 pyvc/run.py %s --tier quick' % id, thorough_cmd='python3 pyvc/run.py %s --tier thorough' % id,
                           technique=tech, level=level, level_note=note))

prop('C01', 'Shape reconciliation never contradicts or loses what is known about a tensor',
     'Merging two shapes of one tensor keeps every dimension either shape knows, keeps the rank, and fails exactly when the two contradict each other; two shapes are '
     'called compatible exactly when merging them succeeds and equal exactly when they are identical. The inferred shape of an element-wise operation has the larger rank, and each of its '
     'dimensions, counted from the last, is the broadcast of the two aligned dimensions or unknown; unknown means anything but a positive number.',
     ['inputs'], 'every pair of shapes of any rank, each dimension known, unknown or named, or the rank itself unknown',
     'the tests infer shapes of a few fixed models; ranks, unknown positions and their combinations are unbounded',
     ['tf2onnx/utils.py', 'tf2onnx/shape_inference.py'],
     [('merge_shapes, are_shapes_compatible, are_shapes_equal, is_unknown_dimension', 'tf2onnx/utils.py'), ('broadcast_shape_inference, _merge_shapes_for_tf', 'tf2onnx/shape_inference.py')],
     'proof', 'unbounded symbolic execution with loop invariants over shapes of any rank; the same contracts with unrolled loops up to rank 4 and on enumerated inputs')

prop('C02', 'Convolutions and poolings read the same windows and channels as TensorFlow',
     'For every converted convolution (plain, dilated, grouped, depthwise, transposed; 1-D, 2-D, 3-D) and every max or average pooling, each output element of the ONNX model is computed from exactly the input '
     'elements and kernel elements TensorFlow uses for it: same strides, dilations, groups, and the same amount of padding on each side under SAME, VALID and EXPLICIT padding, for both channel orders. '
     'The recorded shapes of the tensors involved agree with the tensors.',
     ['inputs', 'configurations'], 'all batch, channel, spatial, kernel, stride, dilation and padding sizes; both data formats; constant and computed kernels; known and unknown spatial sizes; all supported opsets',
     'the tests try some dozens of size combinations; an error in one axis, one parity, one padding side or one layout needs a specific combination of sizes to show',
     ['tf2onnx/onnx_opset/nn.py', 'tf2onnx/rewriter/conv2d_with_pad_rewriter.py', 'tf2onnx/rewriter/conv_dilations_rewriter.py'],
     [('add_padding, conv_convert_inputs, conv_kernel_shape, conv_dims_attr, ConvOp, ConvTranspose, DepthwiseConv2d, PoolOp', 'tf2onnx/onnx_opset/nn.py')],
     'proof', 'handlers executed with every size, stride and dilation symbolic (2-D and 3-D are all the ranks there are); rewriters, 1-D and run-time output sizes only by the bounded net')

exec(open(os.path.join(HERE, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'more_props.py')) else None
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='true', checks=CHECKS, not_applicable=NA), f, indent=1)
    f.write('\n')
