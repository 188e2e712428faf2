"""Convert a TensorFlow graph with the real converter, run it with onnxruntime, compare with TensorFlow itself."""
import os, sys, logging, warnings
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import numpy as np
warnings.filterwarnings('ignore')
import tensorflow as tf
import onnxruntime as ort
ort.set_default_logger_severity(4)
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

def build(fn, specs):
    """fn(*placeholders) -> tensor or list; specs: [(shape, dtype)] -> (tf.Graph, input names, output names)"""
    g = tf.Graph()
    with g.as_default():
        ps = [tf.compat.v1.placeholder(dt, sh, name='in%d' % i) for i, (sh, dt) in enumerate(specs)]
        r = fn(*ps)
        r = list(r) if isinstance(r, (list, tuple)) else [r]
        outs = [tf.identity(t, name='out%d' % i) for i, t in enumerate(r)]
    return g, [p.name for p in ps], [o.name for o in outs]

def tf_ref(g, ins, outs, feeds):
    cfg = tf.compat.v1.ConfigProto(intra_op_parallelism_threads=1, inter_op_parallelism_threads=1)
    cfg.graph_options.rewrite_options.disable_meta_optimizer = True              # the graph as it is written (grappler drops dimensions of 1 of a factor)
    cfg.graph_options.optimizer_options.opt_level = -1
    with tf.compat.v1.Session(graph=g, config=cfg) as s:
        return s.run(outs, dict(zip(ins, feeds)))

def convert(g, ins, outs, opset, optimize=False, extra_opset=None, **kw):
    from tf2onnx.tfonnx import process_tf_graph
    from tf2onnx import optimizer
    og = process_tf_graph(g, opset=opset, input_names=list(ins), output_names=list(outs), extra_opset=extra_opset, **kw)
    if optimize:
        og = optimizer.optimize_graph(og)
    return og.make_model('m')

class NoRun(Exception):
    pass
def run_onnx(m, feeds):
    o = ort.SessionOptions()
    o.log_severity_level = 4
    o.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    o.intra_op_num_threads = o.inter_op_num_threads = 1
    o.enable_mem_reuse = False
    try:
        s = ort.InferenceSession(m.SerializeToString(), o, providers=['CPUExecutionProvider'])
        return s.run(None, feeds)
    except Exception as e:
        raise NoRun(str(e))

def differs(want, got, tol=1e-4):
    for k, (a, b) in enumerate(zip(want, got)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return 'output %d has shape %s, TensorFlow gives %s' % (k, b.shape, a.shape)
        if a.dtype.kind in 'fc':
            ok = np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        if not ok:
            return 'output %d differs from TensorFlow: %s instead of %s' % (k, np.asarray(b).ravel()[:8].tolist(), a.ravel()[:8].tolist())
    return None

def data(rng, shape, dtype):
    dt = np.dtype(tf.as_dtype(dtype).as_numpy_dtype)
    if dt.kind == 'f':
        # distinct small integers: exact in float, every element distinguishable
        n = int(np.prod(shape))
        return (rng.permutation(n).reshape(shape) - n // 2).astype(dt)
    if dt.kind == 'b':
        return rng.rand(*shape) > 0.5
    return rng.randint(-20, 20, shape).astype(dt)
