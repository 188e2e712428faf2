"""Replay a counter-model of an optimizer contract: the same graph as an ONNX model with concrete tensors, run before and after the pass."""
import copy
import numpy as np
from . import optspec as O

DEF = [2, 3, 4, 5, 2, 3]
def variants(a):
    for D in (a.get('D'), DEF, [4, 6, 4, 2, 1, 2], [2, 2, 2, 2, 2, 2], [3, 1, 2, 4, 2, 2]):
        if D is None: continue
        b = copy.copy(a)
        b['D'] = list(D)[:len(a['D'])]
        yield b
        if any(k in a for k in 'MNK'):
            for n in (1, 2, 3):
                c = copy.copy(b)
                for k in 'MNK':
                    if isinstance(c.get(k), int): c[k] = n
                yield c

def body(H, TP, b, a, rng, outer_types):
    nodes = []
    inits = [const(nm, spec, b.get('cdt', {}), rng) for nm, spec in b.get('consts', ())]
    ins = [H.make_tensor_value_info(n, t, s if s is not None else None) for n, t, s in b.get('inputs', ())]
    for e in b['nodes']:
        nodes.append(node(H, TP, e, a, rng))
    outs = [H.make_empty_tensor_value_info(o) for o in b['outputs']]
    return H.make_graph(nodes, 'body', ins, outs, inits)
def node(H, TP, e, a, rng):
    op, i, o, at = e[:4]
    at = {k: (body(H, TP, v, a, rng, None) if isinstance(v, dict) else [int(x) if not isinstance(x, float) else x for x in v] if isinstance(v, (list, tuple)) else v) for k, v in at.items()}
    return H.make_node(op, i, o, name=next(x for x in o if x), domain=e[4] if len(e) > 4 else None, **at)
def const(nm, spec, cdt, rng):
    from onnx import numpy_helper as NH
    if isinstance(spec, np.ndarray): v = spec
    elif isinstance(spec, O.Ints): v = np.array([int(x) for x in spec.vals], np.int64)
    else:
        d = [int(x) for x in spec]
        if any(x < 0 for x in d) or np.prod(d, dtype=np.float64) > 20000: raise ValueError('size')
        v = value(d, np.dtype(cdt.get(nm, np.float32)), rng)
        if nm[:2] in ('sc', 'qs', 'va'): v = np.asarray(np.abs(v) + np.float32(.1), np.float32)
        if nm.startswith('qz') or nm == 'i8': v = np.asarray(rng.randint(0, 50, d)).astype(v.dtype)
    return NH.from_array(np.asarray(v), nm)
def value(d, dt, rng):
    if dt.kind == 'f':
        v = np.asarray(rng.choice([0.5, -1.5, 2, 3.25, -4, 300, 70000.7, 1e-3, 0, 7], d) if dt != np.float32 or rng.rand() < .3 else rng.randn(*d) * 2).astype(dt)
        return v
    if dt.kind == 'b': return np.asarray(rng.rand(*d) < .5)
    if dt.itemsize >= 4 and dt.kind in 'iu': return np.asarray(rng.choice([0, 1, 2, 5, 256, 2049, 65537, 16777217], d)).astype(dt)
    return np.asarray(rng.randint(0, 100, d)).astype(dt)

def replay(build, a, names, pre=None):
    for b in variants(a):
        try:
            if pre is not None and not pre(b): continue
        except Exception:
            continue
        for seed in range(3):
            r = one(build, b, names, seed)
            if r: return r
    return None

def model(build, a, seed):
    import onnx
    from onnx import helper as H, TensorProto as TP
    s = build(a)
    rng = np.random.RandomState(seed)
    feeds, ins = {}, []
    for e in s['inputs']:
        nm, spec = e[0], e[1]
        if isinstance(spec, O.Ints):
            v = np.array([int(x) for x in spec.vals], np.int64)
            shown = list(v.shape)
        else:
            d = [int(x) for x in spec]
            if any(x < 0 for x in d) or np.prod(d, dtype=np.float64) > 20000: return None
            dt = H.tensor_dtype_to_np_dtype(e[2]) if len(e) > 2 else np.dtype(np.float32)
            v = np.asarray(value(d, dt, rng))
            if nm == 'n' and dt == np.int64: v = np.array(3, np.int64)
            if nm == 'c' and dt.kind == 'b': v = np.array(True)
            sh = s['shown'][nm] if nm in s.get('shown', {}) else list(d) if a.get('known', 'all') == 'all' else [-1] * len(d)
            shown = [x if x > 0 else 'd%s%d' % (nm, k) for k, x in enumerate([int(q) for q in sh])]
        feeds[nm] = v
        ins.append(H.make_tensor_value_info(nm, H.np_dtype_to_tensor_dtype(v.dtype), shown))
    inits = [const(nm, spec, s.get('cdt', {}), rng) for nm, spec in s.get('consts', ())]
    nodes = [node(H, TP, e, a, rng) for e in s['nodes']]
    outs = []
    for o in s['outputs']:
        if not s.get('direct', a.get('direct', False)):
            nodes.append(H.make_node('Identity', [o], ['graph_out_' + o], name='graph_out_' + o)); o = 'graph_out_' + o
        outs.append(H.make_empty_tensor_value_info(o))
    g = H.make_graph(nodes, 'g', ins, outs, inits)
    iv = {7: 3, 8: 3, 9: 4, 10: 5, 11: 6, 12: 7}.get(a.opset, 7 if a.opset < 15 else 8)
    m = H.make_model(g, opset_imports=[H.make_operatorsetid('', a.opset)], ir_version=iv)
    mi = onnx.shape_inference.infer_shapes(m)
    outs = []
    for o in mi.graph.output:
        t = o.type.tensor_type
        if t.elem_type == 0: return None
        outs.append(H.make_tensor_value_info(o.name, t.elem_type, [d.dim_value or d.dim_param or None for d in t.shape.dim] if t.HasField('shape') else None))
    del m.graph.output[:]
    m.graph.output.extend(outs)
    return m, feeds

def one(build, a, names, seed):
    from props import C07net
    try:
        r = model(build, a, seed)
    except Exception:
        return None
    if r is None: return None
    m, feeds = r
    class G: pass
    gg = G(); gg.feeds = feeds
    st, txt = C07net.check(gg, m, names, ref=all(n.op_type in ('Cast', 'Identity') for n in m.graph.node))
    return '%s | model: %s' % (txt, C07net.describe(m)) if st == 'bad' else None
