"""Contracts of graph optimizers: run a real pass (or one handler of it) on a real Graph with symbolic dimensions and constants and
require that every graph output still denotes the same tensor, element for element, and that every recorded shape holds."""
import numpy as np
from .z3load import z3
from .core import SInt, SBool, VList, Unsupported, ctx, zi, I
from .symenv import VAL, OpaqueArr, SArr, zint
from . import symenv, denote
from .denote import T, Sem, same, bat, bshape, const_ints, elementwise, lit

class Ints:
    """an integer tensor of known length given by its values"""
    def __init__(self, vals): self.vals = list(vals)

def setup():
    if not getattr(symenv, '_done', False):
        symenv.install()
        symenv._done = True

# ------------------------------------------------------------------ further meanings
def family(dims, at, order=None):
    """the family of elements an operator folds over, independent of the order of the axes"""
    ks = sorted(range(len(dims)), key=lambda k: (str(z3.simplify(dims[k])), k))
    vs = [None] * len(dims)
    for n, k in enumerate(ks):
        vs[k] = z3.FreshInt('fam')
    body = at(inside(vs, dims))
    sizes = []
    for k in ks:
        sizes.append(z3.simplify(dims[k]))
    lam = [vs[k] for k in ks]
    return sizes, (z3.Lambda(lam, body) if lam else body), lam
def fold(name, dims, at, sort):
    """value of an uninterpreted fold over a family, e.g. a reduction; dims: the sizes of the folded axes"""
    sizes, lam, vs = family(dims, at)
    f = z3.Function('%s/%d' % (name, len(sizes)), *([I] * len(sizes) + [lam.sort(), sort]))
    return f(*(sizes + [lam]))
def inside(vs, dims):
    """an index over a dimension of size 1 is 0"""
    dims = [z3.simplify(d) for d in dims]
    return [z3.IntVal(0) if z3.is_int_value(d) and d.as_long() == 1 else v for v, d in zip(vs, dims)]
def put(idx, axes, vals):
    j = list(idx)
    for a, v in zip(axes, vals):
        j[a] = v
    return j
def axis_of(s, n, v, rank, what):
    v = int(v)
    s.need('%s: axis in range' % what, z3.BoolVal(-rank <= v < rank))
    if s.opset < 11:
        s.need('%s: negative axis needs opset 11' % what, z3.BoolVal(v >= 0))
    return v % rank
def softmax(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    if s.opset >= 13:
        ax = [axis_of(s, n, s.attr(n, 'axis', -1), a.rank, kind_)]
    else:
        ax = list(range(axis_of(s, n, s.attr(n, 'axis', 1), a.rank, kind_) if a.rank else 0, a.rank))
    def at(idx):
        sizes, lam, vs = family([a.shape[k] for k in ax], lambda v: a.at(put(idx, ax, v)))
        f = z3.Function('%s/%d' % (kind_, len(ax)), *([I] * len(sizes) + [VAL, lam.sort(), VAL]))
        return f(*(sizes + [a.at(idx), lam]))
    return T(a.shape, at)
def reduce_(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    since = 13 if kind_ == 'ReduceSum' else 18
    if len(x) > 1 and x[1] is not None:
        s.need('%s: axes given as an input need opset %d' % (kind_, since), z3.BoolVal(s.opset >= since))
        ax = [lit(z, 'axes') for z in const_ints(x[1], 'axes')]
    else:
        ax = s.attr(n, 'axes')
        if ax is not None:
            s.need('%s: axes given as an attribute need an opset below %d' % (kind_, since), z3.BoolVal(s.opset < since))
            ax = [int(v) for v in ax]
    if n.get_attr('noop_with_empty_axes') is not None:
        raise Unsupported('noop_with_empty_axes')
    ax = list(range(a.rank)) if not ax else ax
    ok = all(-a.rank <= v < a.rank for v in ax) and len({v % a.rank for v in ax}) == len(ax)
    s.need('%s: axes in range and distinct' % kind_, z3.BoolVal(ok))
    if not ok:
        raise Unsupported('ill-formed %s' % kind_)
    if s.opset < 11:
        s.need('%s: negative axes need opset 11' % kind_, z3.BoolVal(all(v >= 0 for v in ax)))
    ax = sorted(v % a.rank for v in ax)
    keep = int(s.attr(n, 'keepdims', 1))
    dims = [a.shape[k] for k in ax]
    rest = [k for k in range(a.rank) if k not in ax]
    def at(idx):
        full = [z3.IntVal(0)] * a.rank
        for k, i in zip(range(a.rank) if keep else rest, idx):
            full[k] = i
        return fold(kind_, dims, lambda v: a.at(put(full, ax, v)), VAL)
    return T([z3.IntVal(1) if k in ax else a.shape[k] for k in range(a.rank)] if keep else [a.shape[k] for k in rest], at)
def arg(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    ax = axis_of(s, n, s.attr(n, 'axis', 0), a.rank, kind_)
    if not getattr(s, 'drops', False): s.need('%s: attributes' % kind_, z3.BoolVal(set(n.attr) <= {'axis', 'keepdims', 'select_last_index'}))
    keep = int(s.attr(n, 'keepdims', 1))
    last = int(s.attr(n, 'select_last_index', 0))
    rest = [k for k in range(a.rank) if k != ax]
    def at(idx):
        full = [z3.IntVal(0)] * a.rank
        for k, i in zip(range(a.rank) if keep else rest, idx):
            full[k] = i
        return fold('%s%d' % (kind_, last), [a.shape[ax]], lambda v: a.at(put(full, [ax], v)), I)
    return T([z3.IntVal(1) if k == ax else a.shape[k] for k in range(a.rank)] if keep else [a.shape[k] for k in rest], at, 'int')
def quant(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    ax = s.attr(n, 'axis')
    s.need('%s: axis attribute needs opset 13' % kind_, z3.BoolVal(ax is None or s.opset >= 13))
    ax = 1 if ax is None else int(ax)
    def par(t, idx):
        if t is None:
            return []
        if t.rank == 0:
            return [t.at([])]
        if symenv.is_one(t.shape[0]):
            return [t.at([z3.IntVal(0)])]
        s.need('%s: axis in range' % kind_, z3.BoolVal(-a.rank <= ax < a.rank))
        if not -a.rank <= ax < a.rank:
            raise Unsupported('ill-formed %s' % kind_)
        s.need('%s: one scale per element of the axis' % kind_, z3.Or(t.shape[0] == a.shape[ax % a.rank], t.shape[0] == 1))
        return [t.at([z3.If(t.shape[0] == 1, 0, idx[ax % a.rank])])]
    par(x[1], [z3.IntVal(0)] * a.rank)
    def at(idx):
        p = [a.at(idx)] + sum([par(t, idx) for t in x[1:]], [])
        return z3.Function('%s/%d' % (kind_, len(p)), *([VAL] * (len(p) + 1)))(*p)
    return T(a.shape, at)
MUL2 = lambda p, q: z3.Function('elem:Mul()/2', VAL, VAL, VAL)(p, q)
ADD2 = lambda p, q: z3.Function('elem:Add()/2', VAL, VAL, VAL)(p, q)
def mentions(e, vs):
    seen, todo = set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if any(z3.eq(t, v) for v in vs):
            return True
        todo += t.children() if z3.is_app(t) else [t.body()] if z3.is_quantifier(t) else []
    return False
def conv(s, n, x):
    """linear in its kernel: every element of output channel m depends on the kernels of channel m only, and scaling those scales it"""
    a, w = x[0], x[1]
    at_ = ','.join('%s=%r' % (k, v.value()) for k, v in sorted(n.attr.items()) if hasattr(v, 'value'))
    if at_:
        raise Unsupported('Conv attributes')
    s.need('Conv: channels agree', a.shape[1] == w.shape[1])
    b = x[2] if len(x) > 2 else None
    if b is not None:
        s.need('Conv: bias has one entry per output channel', z3.And(z3.BoolVal(b.rank == 1), b.shape[0] == w.shape[0]))
        if b.rank != 1:
            raise Unsupported('ill-formed Conv')
    # one application per output element; the input is folded in as a whole
    xs = [z3.FreshInt('cx') for _ in range(a.rank)]
    X = z3.Lambda(xs, a.at(inside(xs, a.shape)))
    def at(idx):
        ks = [z3.FreshInt('ck') for _ in range(3)]
        e = z3.simplify(w.at([idx[1]] + inside(ks, w.shape[1:])))
        scale = None
        if z3.is_app(e) and e.decl().name() == 'elem:Mul()/2' and not mentions(e.arg(1), ks):
            e, scale = e.arg(0), e.arg(1)
        K = z3.Lambda(ks, e)
        f = z3.Function('conv', X.sort(), K.sort(), I, I, I, I, I, VAL)
        r = f(X, K, idx[0], idx[2], idx[3], w.shape[2], w.shape[3])
        if scale is not None:
            r = MUL2(r, scale)
        if b is not None:
            r = ADD2(r, b.at([idx[1]]))
        return r
    return T([a.shape[0], w.shape[0], a.shape[2] - w.shape[2] + 1, a.shape[3] - w.shape[3] + 1], at)
def opaque(s, n, x):
    kind_, name_ = n.type, n.name
    at_ = ','.join('%s=%r' % (k, v.value()) for k, v in sorted(n.attr.items()) if hasattr(v, 'value'))
    dims, lams = [], []
    for t in x:
        if t is None: continue
        vs = [z3.FreshInt('ox') for _ in t.shape]
        lams.append(z3.Lambda(vs, t.at(inside(vs, t.shape))) if vs else t.at([]))
        dims += t.shape
    r = x[0].rank
    shape = [z3.Function('dim%d:%s' % (k, kind_), *([I] * (len(dims) + 1)))(*dims) for k in range(r)]
    def mk(o):
        return lambda idx: z3.Function('whole%d:%s(%s)' % (o, kind_, at_), *([l.sort() for l in lams] + [I] * len(dims) + [I] * r + [VAL]))(*(lams + dims + list(idx)))
    outs = [T(shape, mk(o)) for o in range(len(n.output))]
    return outs
def const_of_shape(s, n, x):
    v = n.get_attr('value')
    t = v.value() if v is not None else None
    if t is None:
        raise Unsupported('ConstantOfShape without value')
    c = denote.from_tensor(t)
    return T(const_ints(x[0], 'shape'), lambda idx: c.at([z3.IntVal(0)]), c.sort)
EXTRA = dict(Softmax=softmax, LogSoftmax=softmax, ArgMax=arg, ArgMin=arg, QuantizeLinear=quant, DequantizeLinear=quant, Conv=conv, ConstantOfShape=const_of_shape)
for _o in ('ReduceSum', 'ReduceLogSum', 'ReduceLogSumExp', 'ReduceMax', 'ReduceMean', 'ReduceMin', 'ReduceProd', 'ReduceSumSquare', 'ReduceL1', 'ReduceL2'):
    EXTRA[_o] = reduce_
WHOLE = ['Flatten', 'MatMul', 'DepthToSpace', 'GlobalAveragePool', 'CumSum', 'Resize', 'InstanceNormalization', 'LRN', 'TopK', 'Hardmax', 'Gemm', 'BatchNormalization']
for _o in WHOLE:
    EXTRA[_o] = opaque
def opaque_if_val(name):
    """structural operators given a data tensor where an integer tensor is due: as a whole"""
    real = getattr(Sem, 'op_' + name)
    def f(s, n, x):
        if len(x) > 1 and x[1] is not None and x[1].sort != 'int':
            return opaque(s, n, x)
        return real(s, n, x)
    return f
for _o in ('Reshape', 'Gather', 'Expand'):
    EXTRA[_o] = opaque_if_val(_o)

# ------------------------------------------------------------------ graphs
def as_dim(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SInt(z)
def shown(sh, known):
    sh = [as_dim(z) for z in sh]
    if known == 'none': return None
    if known == 'all': return VList(sh)
    if known == 'unknown': return VList([d if isinstance(d, int) else -1 for d in sh])
    if known == 'first': return VList([d if k == 0 or isinstance(d, int) else -1 for k, d in enumerate(sh)])
def in_tensor(nm, spec):
    if isinstance(spec, Ints):
        zs = [zint(v) for v in spec.vals]
        def at(idx):
            r = zs[-1] if zs else z3.IntVal(0)
            for k in range(len(zs) - 2, -1, -1):
                r = z3.If(idx[0] == k, zs[k], r)
            return z3.simplify(r)
        return T([len(zs)], at, 'int')
    dims = list(spec)
    f = z3.Function('in:' + nm, *([I] * len(dims) + [VAL])) if dims else None
    return T(dims, lambda idx: f(*idx) if dims else z3.Const('in:' + nm, VAL))
def arr(nm, spec):
    if isinstance(spec, Ints):
        return SArr(list(spec.vals), np.int64)
    dims = list(spec)
    f = z3.Function('const:' + nm, *([I] * len(dims) + [VAL])) if dims else None
    return OpaqueArr(dims, lambda idx: f(*[i if z3.is_expr(i) else z3.IntVal(i) for i in idx]) if dims else z3.Const('const:' + nm, VAL))

def make(s, a, extra=None):
    from onnx import TensorProto as TP
    ph, env = [], {}
    for e in s['inputs']:
        nm, spec = e[0], e[1]
        env[nm] = in_tensor(nm, spec)
        dt = TP.INT64 if isinstance(spec, Ints) else TP.UINT8 if len(e) > 2 else s.get('dtype', TP.FLOAT)
        ph.append((nm, dt, shown(env[nm].shape, a.known if not isinstance(spec, Ints) else 'all')))
    def dt(op, k):
        if op in ('ArgMax', 'ArgMin', 'Shape'): return TP.INT64
        if op == 'QuantizeLinear': return TP.UINT8
        return TP.FLOAT
    known = {nm: d for nm, d, _ in ph}
    for nm, spec in s['consts']:
        known[nm] = TP.INT64 if isinstance(spec, Ints) else TP.FLOAT
    nodes = []
    for op, ins, outs, attrs in s['nodes']:
        d = known.get(ins[0], TP.FLOAT) if op in ('Identity', 'Transpose', 'Squeeze', 'Unsqueeze') and ins else dt(op, 0)
        for o in outs: known[o] = d
        nodes.append((op, outs[0], ins, outs, attrs, [None] * len(outs), [d] * len(outs)))
    consts = [(nm, arr(nm, spec)) for nm, spec in s['consts']]
    g, made = symenv.mkgraph(a.opset, ph, consts, nodes, s['outputs'])
    sem = Sem(g, env, a.opset, extra or EXTRA)
    want = {o: sem.get(o) for o in g.outputs}
    for op, ins, outs, attrs in s['nodes']:
        for o in outs:
            g.set_shape(o, shown(sem.get(o).shape, a.known))
    for o in g.outputs:
        g.set_shape(o, shown(sem.get(o).shape, a.known))
    for nm, cond in sem.side:                   # the model we start from is well-formed
        ctx().assume(cond)
    nn = {o: g.get_node_by_output(o) for n in s['nodes'] for o in n[2]}
    return g, env, want, nn

def runner(build, call, make_opt=None):
    def run(f, a):
        setup()
        from tf2onnx.optimizer.transpose_optimizer import TransposeOptimizer
        try:
            g, env, want, nn = make(build(a), a)
        except Exception as e:
            raise Unsupported('the case cannot be built: %r' % e)
        opt = TransposeOptimizer()
        opt._g = g
        opt.opt_iteration = 0
        opt._output_names = [g.get_node_by_output(o).name for o in g.outputs]
        a['_g'], a['_env'], a['_want'], a['_outs'] = g, env, want, list(g.outputs)
        names = [n.name for n in g.inputs]
        r = call(lambda *x: f(opt, *x[1:]) if x and x[0] is opt else f(*x), opt, nn)
        return r
    return run

def post(build, extra=None):
    def p(a, r, old):
        if r.exc is not None:
            yield 'the pass is skipped', True
            return
        g, want = a['_g'], a['_want']
        yield 'the graph outputs keep their names and order', list(g.outputs) == a['_outs']
        sem = Sem(g, a['_env'], a.opset, extra or EXTRA)
        for o in a['_outs']:
            n = g.get_node_by_output(o)
            yield 'output %s exists' % o, n is not None
            if n is None:
                return
            try:
                got = sem.get(o)
            except denote.Dangling:
                got = None
            yield 'every tensor output %s needs is made by a node' % o, got is not None
            if got is None: return
            for nm, c in same('output %s' % o, got, want[o]):
                yield nm, SBool(c)
        for nm, c in list(sem.side):
            yield nm, SBool(c)
        for o, t in list(sem.env.items()):
            sh = g.get_shape(o)
            if sh is None:
                continue
            sh = list(sh)
            yield 'recorded rank of %s' % role(a, o), len(sh) == t.rank
            if len(sh) != t.rank:
                continue
            yield 'recorded shape of %s' % role(a, o), SBool(z3.And(*[z3.Or(zint(d) == -1, zint(d) == e) for d, e in zip(sh, t.shape)]) if sh else z3.BoolVal(True))
    return p
def role(a, o):
    return o if len(o) <= 2 or o.startswith('graph_out') else 'a new tensor'

# ------------------------------------------------------------------ replay on the real code
DEF = [2, 3, 4, 5, 6, 7]
def variants(a):
    import copy
    yield a
    b = copy.copy(a)
    for k, v in a.items():
        if k == 'D':
            b[k] = DEF[:len(v)]
        elif k in ('M', 'N', 'K') and isinstance(v, int):
            b[k] = {'M': 7, 'N': 1, 'K': 1}[k]
        elif k in ('pads', 'st', 'en', 'rep') and isinstance(v, list):
            b[k] = [min(max(x, 1 if k == 'rep' else -3), 3) for x in v]
    yield b
    b = copy.copy(b)
    b['D'] = [3, 1, 2, 4, 5, 2][:len(a['D'])]
    if 'N' in b: b['N'] = 1
    yield b

def replay(build, a, names, pre=None):
    out = None
    for b in variants(a):
        if pre is not None:
            try:
                if not pre(b): continue
            except Exception:
                continue
        for seed in range(2):
            out = replay_one(build, b, names, seed)
            if out:
                return out
    return None

def replay_one(build, a, names, seed):
    import onnx
    from onnx import helper as H, numpy_helper as NH, TensorProto as TP
    from props import C07net
    s = build(a)
    rng = np.random.RandomState(seed)
    feeds, ins, inits = {}, [], []
    for e in s['inputs']:
        nm, spec = e[0], e[1]
        if isinstance(spec, Ints):
            v = np.array([int(x) for x in spec.vals], np.int64)
        else:
            d = [int(x) for x in spec]
            if any(x < 0 for x in d) or np.prod(d, dtype=np.float64) > 20000:
                return None
            v = (rng.randint(0, 255, d).astype(np.uint8) if len(e) > 2 else rng.randn(*d).astype(np.float32)) if d else np.float32(rng.randn())
            v = np.asarray(v)
        feeds[nm] = v
        sh = list(v.shape)
        if not isinstance(spec, Ints):
            sh = list(v.shape) if a.known == 'all' else ['d%s%d' % (nm, k) if x != 1 else 1 for k, x in enumerate(v.shape)] if a.known == 'unknown' else \
                [x if k == 0 else 'd%s%d' % (nm, k) for k, x in enumerate(v.shape)] if a.known == 'first' else ['d%s%d' % (nm, k) for k, x in enumerate(v.shape)]
        ins.append(H.make_tensor_value_info(nm, H.np_dtype_to_tensor_dtype(v.dtype), sh))
    ops = {o: n[0] for n in s['nodes'] for o in n[1]}
    for nm, spec in s['consts']:
        if isinstance(spec, Ints):
            v = np.array([int(x) for x in spec.vals], np.int64)
        else:
            d = [int(x) for x in spec]
            if any(x < 0 for x in d) or np.prod(d, dtype=np.float64) > 20000:
                return None
            v = np.asarray(rng.randn(*d), np.float32) if d else np.float32(rng.randn())
            if nm == 'sc': v = np.abs(v) + np.float32(.1)
            if nm == 'zp': v = np.asarray(v * 20 + 100).astype(np.uint8)
            if nm == 'lo': v = np.float32(-.5)
            if nm == 'hi': v = np.float32(.7)
        inits.append(NH.from_array(np.asarray(v), nm))
    nodes = []
    for op, i, o, at in s['nodes']:
        at = {k: ([int(x) for x in v] if isinstance(v, (list, tuple)) else v) for k, v in at.items()}
        nodes.append(H.make_node(op, i, o, name=o[0], **at))
    outs = []
    for o in s['outputs']:
        nodes.append(H.make_node('Identity', [o], ['graph_out_' + o], name='graph_out_' + o))
        outs.append(H.make_empty_tensor_value_info('graph_out_' + o))
    g = H.make_graph(nodes, 'g', ins, outs, inits)
    iv = {7: 3, 8: 3, 9: 4, 10: 5, 11: 6, 12: 7}.get(a.opset, 7 if a.opset < 15 else 8)
    m = H.make_model(g, opset_imports=[H.make_operatorsetid('', a.opset)], ir_version=iv)
    try:
        mi = onnx.shape_inference.infer_shapes(m)
    except Exception:
        return None
    outs = []
    for o in mi.graph.output:
        t = o.type.tensor_type
        if t.elem_type == 0:
            return None
        outs.append(H.make_tensor_value_info(o.name, t.elem_type, [d.dim_value or d.dim_param or None for d in t.shape.dim] if t.HasField('shape') else None))
    del m.graph.output[:]
    m.graph.output.extend(outs)
    class G: pass
    gg = G(); gg.feeds = feeds
    st, txt = C07net.check(gg, m, names)
    if st != 'bad':
        return None
    return '%s | model: %s' % (txt, C07net.describe(m))
