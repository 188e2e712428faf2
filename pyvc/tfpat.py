"""Contracts of rewriters: a pattern of TensorFlow operators in a real Graph (symbolic dimensions, arbitrary elements) is given to the real
rewriter; the graph it leaves behind (TensorFlow operators still to be converted, ONNX operators already made) has to denote, by the meaning
of each operator, the tensors the graph denoted before."""
import numpy as np
from .z3load import z3
from .core import SInt, SBool, VList, Unsupported, ctx, I
from .symenv import zint, OpaqueArr, SArr
from . import denote, optspec as O, optsem as S, tfops as F, tfelem as X
from .denote import T, Sem, bshape, bat, const_ints, lit as ilit
from .tfelem import Num, lit, typed, elem, fold, uf, f32

TH = 'real'
def ints(v): return [int(q) for q in v]
def bstr(v): return v.decode() if isinstance(v, bytes) else v
MULR = z3.Function('times', z3.RealSort(), z3.RealSort(), z3.RealSort())
def times(x, w):
    """product whose value for a padded zero is zero"""
    x, w = z3.simplify(x), z3.simplify(w)
    for p, q, sw in ((x, w, 0), (w, x, 1)):
        if z3.is_rational_value(p) and p.as_fraction() == 0: return z3.RealVal(0)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = p.children()
            f = (lambda u: times(q, u)) if sw else (lambda u: times(u, q))
            if z3.is_rational_value(b) and b.as_fraction() == 0: return z3.If(c, f(a), b)
            if z3.is_rational_value(a) and a.as_fraction() == 0: return z3.If(c, a, f(b))
    return MULR(x, w)
DEPTH = 0
def dsum(name, dims, at):
    """a sum over a family of products, index order fixed"""
    dims = [z3.simplify(d if z3.is_expr(d) else zint(d)) for d in dims]
    global DEPTH
    vs = [z3.Int('su!%d!%d' % (DEPTH, k)) for k in range(len(dims))]             # the same sum is the same term
    DEPTH += 1
    try: body = at(O.inside(vs, dims))
    finally: DEPTH -= 1
    lam = z3.Lambda(vs, body)
    return z3.Function('%s/%d' % (name, len(dims)), *([I] * len(dims) + [lam.sort(), z3.RealSort()]))(*(dims + [lam]))
def dt_of(t): return t.dt

# ------------------------------------------------------------------ convolution
BATCH = {}
def batch(b, rs, n):
    f = BATCH.setdefault(tuple(b), z3.Function('batch%r' % (tuple(b),), *([I] * (len(b) + 2))))
    return f(*(list(rs) + [n]))
def unbatch(b, z):
    f = BATCH.get(tuple(b))
    if f is not None and z3.is_app(z) and z3.eq(z.decl(), f): return list(z.children())[:-1], z.children()[-1]
    raise Unsupported('batch index of a space-to-batch tensor')
def conv_out(i, k, s, d, p): return (i + p - (k - 1) * d - 1) / s + 1
def convolve(el, sp_in, sp_k, cin, wel, strides, dil, pads, depth=False):
    """element function (spatial index, output channel) of a convolution; el(spatial, channel) of the input, wel(kernel index, channel, output channel)"""
    n = len(sp_in)
    def at(sp, m):
        def term(v):
            q = [sp[k] * strides[k] + v[k] * dil[k] - pads[k][0] for k in range(n)]
            g = [z3.And(q[k] >= 0, q[k] < sp_in[k]) for k in range(n)]
            c = v[n] if not depth else None
            p = times(el(q, c), wel(v[:n], c, m))
            return z3.If(z3.simplify(z3.And(*g)), p, z3.RealVal(0))
        return dsum('conv' if not depth else 'depthconv', list(sp_k) + ([cin] if not depth else []), term)
    return at
def same_pads(i, k, s, d):
    o = (i + s - 1) / s
    t = (o - 1) * s + (k - 1) * d + 1 - i
    t = z3.If(t > 0, t, 0)
    return o, t / 2, t - t / 2
def tf_conv(s, n, x):
    a, w = x[:2]
    r = a.rank - 2
    last = bstr(s.raw(n, 'data_format', 'NHWC' if r == 2 else 'NDHWC')) in ('NHWC', 'NDHWC', 'NWC')
    sp_ax = list(range(1, r + 1)) if last else list(range(2, r + 2))
    c_ax = r + 1 if last else 1
    full = s.raw(n, 'dilations', None)
    dil = [ints(full)[k] for k in sp_ax] if full else [1] * r
    if full and len(full) != a.rank: raise Unsupported('dilations of %d entries' % len(full))
    strides = [ints(s.raw(n, 'strides'))[k] for k in sp_ax]
    mode = bstr(s.raw(n, 'padding'))
    sp_in, sp_k = [a.shape[k] for k in sp_ax], w.shape[:r]
    if mode == 'EXPLICIT':
        e = list(s.raw(n, 'explicit_paddings'))
        s.need('%s: explicit paddings of the other dimensions are 0' % n.type, z3.And(*[zint(e[2 * k + j]) == 0 for k in (0, c_ax) for j in (0, 1) if 2 * k + j < len(e)]))
        s.need('%s: explicit paddings are not negative' % n.type, z3.And(*[zint(v) >= 0 for v in e]))
        pads = [(zint(e[2 * k]), zint(e[2 * k + 1])) for k in sp_ax]
        outs = [conv_out(i, k, st, d, p + q) for i, k, st, d, (p, q) in zip(sp_in, sp_k, strides, dil, pads)]
    elif mode == 'SAME':
        o = [same_pads(i, k, st, d) for i, k, st, d in zip(sp_in, sp_k, strides, dil)]
        outs, pads = [q[0] for q in o], [q[1:] for q in o]
    else:
        pads = [(z3.IntVal(0), z3.IntVal(0))] * r
        outs = [conv_out(i, k, st, d, 0) for i, k, st, d in zip(sp_in, sp_k, strides, dil)]
    depth = n.type == 'DepthwiseConv2dNative'
    bias = x[2] if len(x) > 2 else None                # (merged by a rewriter)
    cout = w.shape[-1] if not depth else z3.simplify(w.shape[-2] * w.shape[-1])
    if depth and not (z3.is_int_value(z3.simplify(w.shape[-1])) and z3.simplify(w.shape[-1]).as_long() == 1): raise Unsupported('channel multiplier')
    wel = (lambda v, c, m: w.at(list(v) + [c, m])) if not depth else (lambda v, c, m: w.at(list(v) + [m, z3.IntVal(0)]))
    mk = lambda nn, q: [nn] + list(q) + [None] if last else [nn, None] + list(q)
    def at(idx):
        sp, m, nn = [idx[k] for k in sp_ax], idx[c_ax], idx[0]
        def el(q, c):
            j = mk(nn, q); j[c_ax] = c if c is not None else m
            return a.at(j)
        v = convolve(el, sp_in, sp_k, a.shape[c_ax], wel, strides, dil, pads, depth)(sp, m)
        return v if bias is None else v + s.el(bias, [m])
    shp = mk(a.shape[0], outs); shp[c_ax] = cout
    return T(shp, at)
def onnx_conv(s, n, x):
    """ONNX Conv (N, C, spatial), kernel (M, C/group, spatial)"""
    a, w = x[:2]
    r = a.rank - 2
    g = int(s.attr(n, 'group', 1))
    if g != 1: raise Unsupported('grouped Conv')
    dil, strides = ints(s.attr(n, 'dilations') or [1] * r), ints(s.attr(n, 'strides') or [1] * r)
    ks = s.attr(n, 'kernel_shape')
    s.need('Conv: kernel, strides, dilations and pads fit the rank', z3.BoolVal(w.rank == a.rank and len(dil) == r and len(strides) == r and (ks is None or len(ks) == r)))
    s.need('Conv: channels of the kernel', w.shape[1] == a.shape[1])
    if w.rank != a.rank or len(dil) != r or len(strides) != r: raise Unsupported('ill-formed Conv')
    if ks is not None: s.need('Conv: kernel_shape', z3.And(*[zint(q) == d for q, d in zip(list(ks), w.shape[2:])]))
    auto = bstr(s.attr(n, 'auto_pad') or 'NOTSET')
    sp_in, sp_k = a.shape[2:], w.shape[2:]
    if auto in ('SAME_UPPER', 'SAME_LOWER'):
        o = [same_pads(i, k, st, d) for i, k, st, d in zip(sp_in, sp_k, strides, dil)]
        outs, pads = [q[0] for q in o], [q[1:] if auto == 'SAME_UPPER' else (q[2], q[1]) for q in o]
    else:
        e = list(s.attr(n, 'pads') if auto == 'NOTSET' and s.attr(n, 'pads') is not None else [0] * (2 * r))
        s.need('Conv: pads', z3.And(z3.BoolVal(len(e) == 2 * r), *[zint(v) >= 0 for v in e]))
        if len(e) != 2 * r: raise Unsupported('ill-formed Conv')
        pads = [(zint(e[k]), zint(e[r + k])) for k in range(r)]
        outs = [conv_out(i, k, st, d, p + q) for i, k, st, d, (p, q) in zip(sp_in, sp_k, strides, dil, pads)]
    bias = x[2] if len(x) > 2 and x[2] is not None else None
    def at(idx):
        v = convolve(lambda q, c: a.at([idx[0], c] + list(q)), sp_in, sp_k, a.shape[1], lambda v, c, m: w.at([m, c] + list(v)), strides, dil, pads)(list(idx[2:]), idx[1])
        return v + bias.at([idx[1]]) if bias is not None else v
    t = T([a.shape[0], w.shape[0]] + outs, at)
    t.dt = a.dt
    return t

# ------------------------------------------------------------------ TensorFlow operators
def same_type(f):
    def g(s, n, x):
        r = f(s, n, x)
        if getattr(r, 'dt', None) is None: r.dt = x[0].dt
        return r
    return g
def biasadd(s, n, x):
    a, b = x
    c = 1 if bstr(s.raw(n, 'data_format', 'NHWC')) in ('NCHW', 'NCDHW') else a.rank - 1
    N = Num(a.dt, TH)
    return T(a.shape, lambda idx: N.add(s.el(a, idx), s.el(b, [idx[c]])))
def tf_cast(s, n, x):
    to = int(s.raw(n, 'to'))
    r = T(x[0].shape, (lambda idx: X.convert(s.el(x[0], idx), x[0].dt, to, TH)) if x[0].sort != 'int' or X.isf(to) else x[0].at, x[0].sort if not X.isf(to) else 'val')
    r.dt = to
    return r
def tf_shape(s, n, x):
    r = F.vals_T([SInt(d) for d in x[0].shape])
    r.dt = int(s.raw(n, 'out_type', 6))
    return r
def tf_slice0(s, n, x):
    """StridedSlice of a vector of integers at one constant place (shrinking it) or of a constant range of step 1"""
    a = x[0]
    b, e, st = [[int(ilit(z, 'slice')) for z in const_ints(t, 'slice')] for t in x[1:]]
    if a.rank != 1 or len(b) != 1 or st != [1]: raise Unsupported('StridedSlice')
    if any(int(s.raw(n, k, 0) or 0) for k in ('begin_mask', 'end_mask', 'ellipsis_mask', 'new_axis_mask')): raise Unsupported('StridedSlice masks')
    vals = const_ints(a, 'sliced')
    k = b[0] if b[0] >= 0 else b[0] + len(vals)
    if int(s.raw(n, 'shrink_axis_mask', 0) or 0) != 1:
        q = e[0] if e[0] >= 0 else e[0] + len(vals)
        r = F.vals_T([SInt(v) for v in vals[k:q]])
    else: r = F.vals_T(SInt(vals[k]))
    r.dt = a.dt
    return r
def concat(s, n, x):
    if int(ilit(x[-1].at([]), 'axis')) != 0 or any(t.rank != 1 or t.sort != 'int' for t in x[:-1]): raise Unsupported('ConcatV2')
    return F.vals_T([SInt(v) for t in x[:-1] for v in const_ints(t, 'part')])
def list_diff(s, n, x):
    a, b = [[int(ilit(z, 'list')) for z in const_ints(t, 'list')] for t in x]
    return F.vals_T([v for v in a if v not in b])
def pack(s, n, x):
    if x[0].sort == 'int' and all(t.rank == 1 for t in x) and int(s.raw(n, 'axis', 0)) == 0: return F.vals_T([[SInt(v) for v in const_ints(t, 'part')] for t in x])
    if any(t.rank for t in x): raise Unsupported('Pack of tensors')
    return F.vals_T([SInt(t.at([])) for t in x]) if x[0].sort == 'int' else T([z3.IntVal(len(x))], lambda idx: sel([t.at([]) for t in x], idx[0]))
def sel(els, i):
    r = els[-1]
    for k in range(len(els) - 2, -1, -1): r = z3.If(i == k, els[k], r)
    return r
def tf_reshape(s, n, x): return S.reshape(s, FakeNode('Reshape', n.name), x)
class FakeNode:
    def __init__(self, type, name, attr=None): self.type, self.name, self.attr, self.input, self.output, self.domain = type, name, attr or {}, [], [], ''
    def get_attr(self, k): return self.attr.get(k)
def tf_matmul(s, n, x):
    ta, tb = [int(s.raw(n, k, 0) or 0) for k in ('transpose_a', 'transpose_b')]
    a, b = [flip(t) if f else t for t, f in zip(x, (ta, tb))]
    return product2(a, b)
def flip(t): return T([t.shape[1], t.shape[0]], lambda idx: t.at([idx[1], idx[0]]))
def product2(a, b):
    return T([a.shape[0], b.shape[1]], lambda idx: dsum('matmul', [a.shape[1]], lambda v: times(a.at([idx[0], v[0]]), b.at([v[0], idx[1]]))))
def gemm(s, n, x):
    a, b, c = (list(x) + [None])[:3]
    s.need('Gemm: matrices', z3.BoolVal(a.rank == 2 and b.rank == 2 and (c is None or c.rank <= 2)))
    if a.rank != 2 or b.rank != 2 or c is not None and c.rank > 2: raise Unsupported('ill-formed Gemm')
    al, be = float(s.attr(n, 'alpha', 1.0)), float(s.attr(n, 'beta', 1.0))
    a, b = flip(a) if int(s.attr(n, 'transA', 0)) else a, flip(b) if int(s.attr(n, 'transB', 0)) else b
    s.need('Gemm: inner dimensions agree', a.shape[1] == b.shape[0])
    m = product2(a, b)
    N = Num(x[0].dt, TH)
    if c is not None: s.need('Gemm: the addend broadcasts to the product', z3.And(*[z3.Or(c.shape[-k] == 1, c.shape[-k] == m.shape[-k]) for k in range(1, c.rank + 1)]))
    def at(idx):
        v = f32(N, al) * m.at(idx)
        return v + f32(N, be) * s.el(c, idx, m.shape) if c is not None else v
    r = T(m.shape, at)
    r.dt = x[0].dt
    return r
def mean_of(a, ax, keep):
    def at(idx):
        def el(v):
            full, o = [], list(idx)
            p = 0
            for k in range(a.rank):
                if k in ax: full.append(v[ax.index(k)]); p += keep
                else: full.append(idx[p]); p += 1
            return a.at(full)
        return dsum('mean', [a.shape[k] for k in ax], el)
    return T([z3.IntVal(1) if k in ax else d for k, d in enumerate(a.shape) if keep or k not in ax], at)
def tf_mean(s, n, x):
    a = x[0]
    ax = sorted({int(ilit(z, 'axes')) % a.rank for z in (const_ints(x[1], 'axes') if x[1].rank else [x[1].at([])])})
    return mean_of(a, ax, int(bool(s.raw(n, 'keep_dims', 0))))
def instance_norm(s, n, x):
    a, sc, b = x
    s.need('InstanceNormalization: one parameter per channel', z3.And(z3.BoolVal(sc.rank == 1 and b.rank == 1), sc.shape[0] == a.shape[1], b.shape[0] == a.shape[1]))
    s.need('InstanceNormalization: a spatial dimension', z3.BoolVal(a.rank >= 3))
    ax = list(range(2, a.rank))
    m = mean_of(a, ax, 1)
    sq = T(a.shape, lambda idx: square(a.at(idx) - bat(m, idx, a.shape)))
    v = mean_of(sq, ax, 1)
    N = Num(a.dt, TH)
    eps = f32(N, float(s.attr(n, 'epsilon', 1e-5)))
    r = T(a.shape, lambda idx: (a.at(idx) - bat(m, idx, a.shape)) * rsqrt(bat(v, idx, a.shape) + eps) * s.el(sc, [idx[1]]) + s.el(b, [idx[1]]))
    r.dt = a.dt
    return r
square, rsqrt = [z3.Function(k, z3.RealSort(), z3.RealSort()) for k in ('square', 'rsqrt')]
def thresholded(N, at, x): return z3.If(N.lt(f32(N, at('alpha', 1.0)), x), x, N.lit(0))
def tf_pad(s, n, x):
    a = x[0]
    p = [[z for z in row] for row in matrix(x[1])]
    z0 = s.el(x[2], []) if len(x) > 2 else z3.RealVal(0)
    if len(p) != a.rank: raise Unsupported('Pad rank')
    s.need_pre('paddings are not negative', z3.And(*[z >= 0 for r in p for z in r]))
    def at(idx):
        j = [i - b for i, (b, e) in zip(idx, p)]
        return z3.If(z3.simplify(z3.And(*[z3.And(q >= 0, q < d) for q, d in zip(j, a.shape)])), a.at(j), z0)
    return T([d + b + e for d, (b, e) in zip(a.shape, p)], at)
def matrix(t):
    r, c = [int(ilit(d, 'matrix')) for d in t.shape]
    return [[z3.simplify(t.at([z3.IntVal(i), z3.IntVal(j)])) for j in range(c)] for i in range(r)]
def blocks(x): return [int(ilit(z, 'block')) for z in const_ints(x, 'block')]
def space_to_batch(s, n, x):
    a, b, p = x[0], blocks(x[1]), matrix(x[2])
    k = len(b)
    def at(idx):
        rs, nn = unbatch(b, idx[0])
        q = [i * m + r - pp[0] for i, m, r, pp in zip(idx[1:1 + k], b, rs, p)]
        return z3.If(z3.simplify(z3.And(*[z3.And(v >= 0, v < d) for v, d in zip(q, a.shape[1:1 + k])])), a.at([nn] + q + list(idx[1 + k:])), z3.RealVal(0))
    r = T([a.shape[0] * int(np.prod(b))] + [(d + pp[0] + pp[1]) / m for d, pp, m in zip(a.shape[1:], p, b)] + a.shape[1 + k:], at)
    r.rows, r.blocks = a.shape[0], b
    return r
def batch_to_space(s, n, x):
    a, b, c = x[0], blocks(x[1]), matrix(x[2])
    k = len(b)
    rows = getattr(a, 'rows', None)
    if rows is None or a.blocks != b: raise Unsupported('BatchToSpace of something else')
    def at(idx):
        q = [i + cc[0] for i, cc in zip(idx[1:1 + k], c)]
        return a.at([batch(b, [v % m for v, m in zip(q, b)], idx[0])] + [v / m for v, m in zip(q, b)] + list(idx[1 + k:]))
    return T([rows] + [d * m - cc[0] - cc[1] for d, m, cc in zip(a.shape[1:], b, c)] + a.shape[1 + k:], at)
def keep_rows(f):
    def g(s, n, x):
        r = f(s, n, x)
        if getattr(x[0], 'rows', None) is not None: r.rows, r.blocks = x[0].rows, x[0].blocks
        return r
    return g
def expand_dims(s, n, x):
    a, (k,) = x[0], const_ints(x[1], 'axis') if x[1].rank else [x[1].at([])]
    k = int(ilit(k, 'axis')); k = k + a.rank + 1 if k < 0 else k
    return T(a.shape[:k] + [z3.IntVal(1)] + a.shape[k:], lambda idx: a.at(list(idx[:k]) + list(idx[k + 1:])))
def tf_squeeze(s, n, x):
    a = x[0]
    ax = [int(v) % a.rank for v in s.raw(n, 'squeeze_dims', None) or []]
    keep = [k for k in range(a.rank) if k not in ax]
    def at(idx):
        j = [z3.IntVal(0)] * a.rank
        for k, i in zip(keep, idx): j[k] = i
        return a.at(j)
    return T([a.shape[k] for k in keep], at)
def tf_transpose(s, n, x):
    a = x[0]
    perm = s.raw(n, 'perm', None)
    perm = [int(ilit(z, 'perm')) for z in const_ints(x[1], 'perm')] if len(x) > 1 else ints(perm)
    def at(idx):
        j = [None] * a.rank
        for k, q in enumerate(perm): j[q] = idx[k]
        return a.at(j)
    return T([a.shape[q] for q in perm], at)
def tf_rank(s, n, x):
    r = F.vals_T(a_rank(x[0])); r.dt = 6
    return r
def a_rank(t): return t.rank
def tf_range(s, n, x):
    st, li, de = [int(ilit(t.at([]), 'range')) for t in x]
    r = F.vals_T(list(range(st, li, de)))
    r.dt = x[0].dt
    return r
def int_or(f, g):
    def h(s, n, x):
        if all(t.sort == 'int' for t in x):
            shp = bshape([t.shape for t in x])
            r = T(shp, lambda idx: z3.simplify(g(*[bat(t, idx, shp) for t in x])), 'int')
            r.dt = x[0].dt
            return r
        return elem(f)(s, FakeNode('TF', n.name), x)
    return h
def tf_elem(f, out=None):
    def g(s, n, x):
        m = FakeNode('TF', n.name)
        return elem(lambda N, at, *els: f(N, lambda k, d=None: s.raw(n, k, d), *els), out)(s, m, x)
    return g
def bn_tf(s, n, x):
    a = x[0]
    if int(bool(s.raw(n, 'is_training', 1))): raise Unsupported('training')
    last = bstr(s.raw(n, 'data_format', 'NHWC')) == 'NHWC'
    N = Num(a.dt, TH)
    eps = f32(N, float(s.raw(n, 'epsilon', 1e-4)))
    r = T(a.shape, lambda idx: X.normal(N, s.el(a, idx), *([s.el(t, [idx[a.rank - 1 if last else 1]]) for t in x[1:5]] + [eps])))
    return r
def fused(s, n, x):
    """convolution or product, then each named operator, with the attributes of the whole"""
    ops = [bstr(o) for o in s.raw(n, 'fused_ops')]
    base = n.type[len('_Fused'):]
    r = TF[base](s, View(n, base), x[:2])
    r.dt = x[0].dt
    extra = list(x[2:])
    for o in ops:
        take = {'BiasAdd': 1, 'FusedBatchNorm': 4}.get(o, 0)
        v = View(n, o, dict(alpha=s.raw(n, 'leakyrelu_alpha', 0.2), is_training=0, epsilon=s.raw(n, 'epsilon', 1e-4)))
        r = TF[o](s, v, [r] + extra[:take])
        r.dt = x[0].dt
        extra = extra[take:]
    return r
class View:
    """the node read as another operator"""
    def __init__(self, n, type, over=None): self.n, self.type, self.over, self.name, self.input, self.output = n, type, over or {}, n.name, n.input, n.output
    domain = ''
    def get_attr(self, k): return self.n.get_attr(k)

TF = {'Identity': lambda s, n, x: x[0], 'BiasAdd': biasadd, 'Cast': tf_cast, 'Shape': tf_shape, 'StridedSlice': tf_slice0, 'Pack': pack, 'ConcatV2': concat, 'ListDiff': list_diff, 'Reshape': tf_reshape, 'MatMul': tf_matmul,
      'Conv2D': keep_rows(tf_conv), 'Conv3D': keep_rows(tf_conv), 'DepthwiseConv2dNative': keep_rows(tf_conv), 'Mean': tf_mean, 'Pad': tf_pad, 'SpaceToBatchND': space_to_batch, 'BatchToSpaceND': batch_to_space,
      'ExpandDims': keep_rows(expand_dims), 'Squeeze': keep_rows(tf_squeeze), 'Transpose': tf_transpose, 'Rank': tf_rank, 'Range': tf_range, 'FusedBatchNorm': bn_tf,
      '_FusedConv2D': fused, '_FusedMatMul': fused,
      'Maximum': tf_elem(lambda N, at, x, y: N.max(x, y)), 'Minimum': tf_elem(lambda N, at, x, y: N.min(x, y)), 'Greater': tf_elem(lambda N, at, x, y: N.lt(y, x), 9), 'Square': tf_elem(lambda N, at, x: square(x)),
      'Rsqrt': tf_elem(lambda N, at, x: rsqrt(x)), 'Relu': tf_elem(lambda N, at, x: N.max(x, N.lit(0))), 'Relu6': tf_elem(lambda N, at, x: N.min(N.max(x, N.lit(0)), N.lit(6))), 'Elu': tf_elem(lambda N, at, x: N.uf('elu', x)),
      'LeakyRelu': tf_elem(lambda N, at, x: z3.If(N.lt(x, N.lit(0)), N.mul(f32(N, at('alpha', 0.2)), x), x)),
      'Add': int_or(lambda N, at, x, y: N.add(x, y), lambda x, y: x + y), 'Sub': int_or(lambda N, at, x, y: N.sub(x, y), lambda x, y: x - y), 'Mul': int_or(lambda N, at, x, y: N.mul(x, y), lambda x, y: x * y)}
TF['AddV2'] = TF['Add']
EXTRA = dict(X.EXTRA, Gemm=gemm, Conv=onnx_conv, InstanceNormalization=instance_norm, ThresholdedRelu=elem(thresholded), Flatten=S.flatten)

class SemP(X.SemE):
    """operators still to be converted have TensorFlow's meaning, the others ONNX's"""
    th = TH
    def raw(self, n, k, d=None):
        if isinstance(n, View) and k in n.over: return n.over[k]
        v = n.get_attr(k)
        if v is None: return d
        v = v.value() if hasattr(v, 'value') else v
        return v
    def need_pre(self, name, cond): pass
    def get(self, name):
        if name and name not in self.env:
            n = self.g.get_node_by_output(name)
            if n is not None and not n.is_const() and not n.is_graph_input() and not n.skip_conversion:
                xs = [self.get(i) for i in n.input]
                if n.type not in TF: raise Unsupported('no meaning for TensorFlow operator %s' % n.type)
                r = TF[n.type](self, n, xs)
                if getattr(r, 'dt', None) is None: r.dt = xs[0].dt
                self.env[n.output[0]] = r
                self.dts[n.output[0]] = r.dt
                return r
        return X.SemE.get(self, name)

# ------------------------------------------------------------------ patterns
class P:
    """a graph of TensorFlow operators under construction"""
    def __init__(self, a, flat=False):
        self.a, self.g, self.env, self.T, self.plan, self.hyp, self.flat = a, S.new_graph(a.opset), {}, {}, [], [], flat
        self.sem = SemP(self.g, {}, a.opset, EXTRA)
        self.n = 0
    def new(self, p): self.n += 1; return '%s%d' % (p, self.n)
    def x(self, dims, dt=1, known=None):
        nm = self.new('x')
        t = X.in_tensor(TH)(nm, [zint(d) for d in dims], dt)
        if self.flat: t = real_flat(nm, [zint(d) for d in dims])
        t.dt = dt
        known = known or self.a.get('known', 'all')
        sh = F.records(t.shape, known)
        self.g.add_graph_input(nm, dt, VList(list(sh)) if sh is not None else None)
        self.g.set_shape(nm, VList(list(sh)) if sh is not None else None)
        self.sem.env[nm] = t
        self.env[nm] = t
        self.plan.append(('x', nm, dims, dt, known))
        return nm
    def c(self, value, npdt=np.float32):
        """constant of these values (integers may be symbolic)"""
        nm = self.new('c')
        v = F.arr_of(value, np.dtype(npdt)) if np.dtype(npdt).kind in 'iu' and isinstance(value, (list, tuple)) else np.array(value, npdt)
        self.g.make_const(nm, v)
        out = self.g.get_node_by_name(nm).output[0]
        self.plan.append(('c', out, value, npdt))
        return out
    def k(self, dims, dt=1):
        """constant of arbitrary content"""
        from onnx import helper
        nm = self.new('k')
        v = X.array(TH)(nm, list(dims), dt)
        v._dt = np.dtype(helper.tensor_dtype_to_np_dtype(dt))
        self.g.make_const(nm, v)
        out = self.g.get_node_by_name(nm).output[0]
        self.plan.append(('k', out, dims, dt))
        return out
    def op(self, type, ins, attrs=None, name=None):
        nm = name or self.new('n')
        out = nm + ':0'
        n = self.g.make_node(type, list(ins), outputs=[out], name=nm, attr=dict(attrs or {}), skip_conversion=False)
        t = self.sem.get(out)
        self.g.set_dtype(out, t.dt)
        sh = F.records(t.shape, self.a.get('known', 'all'))
        self.g.set_shape(out, VList(list(sh)) if sh is not None else None)
        self.plan.append(('op', out, type, list(ins), dict(attrs or {})))
        return out
    def out(self, ref):
        o = 'out_%d' % len(self.g.outputs)
        t = self.sem.get(ref)
        sh = F.records(t.shape, self.a.get('known', 'all'))
        self.g.make_node('Identity', [ref], outputs=[o], name=o, shapes=[sh], dtypes=[t.dt], skip_conversion=False)
        self.g.outputs.append(o)
        self.plan.append(('out', ref))
    def want(self): return {o: self.sem.get(o) for o in self.g.outputs}
def real_flat(nm, dims):
    f = z3.Function('in:' + nm, I, z3.RealSort())
    return S.from_view(dims, lambda lin: f(lin), list(dims))

def runner(build, module, fname, prepare=None):
    def run(f, a):
        O.setup()
        import tf2onnx.tfonnx
        from tf2onnx.handler import tf_op
        tf_op.create_mapping(a.opset, None)
        try:
            p = build(a)
            a['_p'], a['_g'], a['_outs'] = p, p.g, list(p.g.outputs)
            a['_want'] = p.want()
            a['_before'] = live_nodes(p.g)
        except Exception:
            import traceback
            raise Unsupported('the case cannot be built: %s' % traceback.format_exc()[-700:])
        ops = f(p.g, p.g.get_nodes())
        p.g.reset_nodes(ops)
    return run

def post(a, r, old):
    p = a['_p']
    if r.exc is not None:
        yield 'does not raise', False
        return
    g = p.g
    yield 'the graph outputs keep their names and order', list(g.outputs) == a['_outs']
    r.cover('rewritten' if live_nodes(g) != a['_before'] else 'left alone')
    sem = SemP(g, p.env, a.opset, EXTRA)
    for o in a['_outs']:
        try: got = sem.get(o)
        except denote.Dangling: got = None
        yield 'every tensor output %s needs is made by a node' % o, got is not None
        if got is None: return
        w = a['_want'][o]
        for nm, c in same(p, 'output %s' % o, got, w): yield nm, SBool(c)
        yield 'output %s: element type' % o, got.dt == w.dt
    for nm, c in list(sem.side): yield nm, SBool(z3.Implies(z3.And(*p.hyp), c) if p.hyp else c)
    for o, t in list(sem.env.items()):
        if o in p.env or g.get_node_by_output(o) is None: continue
        d = g.get_dtype(o)
        if d is not None and t.dt is not None: yield 'recorded element type of %s' % g.get_node_by_output(o).type, d == t.dt
        sh = g.get_shape(o)
        if sh is None: continue
        sh = list(sh)
        yield 'recorded rank', len(sh) == t.rank
        if len(sh) == t.rank and sh: yield 'recorded shape', SBool(z3.Implies(z3.And(*p.hyp) if p.hyp else z3.BoolVal(True), z3.And(*[z3.Or(zint(d) == -1, zint(d) == e) for d, e in zip(sh, t.shape)])))
def live_nodes(g):
    live, stack = set(), list(g.outputs)
    while stack:
        n = g.get_node_by_output(stack.pop())
        if n is None or n.name in live: continue
        live.add(n.name)
        stack += list(n.input)
    return live

def sums(e, out, seen):
    if e.get_id() in seen: return
    seen.add(e.get_id())
    if not z3.is_app(e): return
    if any(z3.is_quantifier(c) for c in e.children()):
        out.append(e)
        return
    for c in e.children(): sums(c, out, seen)
def pair(x, y):
    """conditions under which two sums are equal: the same extents and the same summand everywhere"""
    conds = []
    for p, q in zip(x.children(), y.children()):
        if z3.is_quantifier(p) and z3.is_quantifier(q) and p.num_vars() == q.num_vars():
            vs = [z3.FreshInt('k') for _ in range(p.num_vars())]
            # de Bruijn: variable 0 is the innermost
            bp, bq = [z3.substitute_vars(b.body(), *reversed(vs)) for b in (p, q)]
            ext = [c for c in x.children() if not z3.is_quantifier(c)]
            dom = z3.And(*[z3.And(v >= 0, v < d) for v, d in zip(vs, ext)])
            conds.append(('summand', equal(bp, bq, dom)))
        else: conds.append(('extent', p == q))
    return conds
def equal(x, y, hyp):
    """(sufficient) equality of terms with sums inside: corresponding sums are equal and the rest agrees"""
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.eq(x, y): return z3.BoolVal(True)
    sx, sy = [], []
    sums(x, sx, set()); sums(y, sy, set())
    if len(sx) != len(sy) or any(not z3.eq(p.decl(), q.decl()) for p, q in zip(sx, sy)): return z3.Implies(hyp, x == y)
    parts = []
    subx, suby = [], []
    for p, q in zip(sx, sy):
        for _, c in pair(p, q): parts.append(c)
        v = z3.FreshReal('sum')
        subx.append((p, v)); suby.append((q, v))
    rest = z3.substitute(x, *subx) == z3.substitute(y, *suby) if sx else x == y
    return z3.Implies(hyp, z3.And(*(parts + [rest])))
def same(p, name, got, want):
    out = [(name + ': rank', z3.BoolVal(got.rank == want.rank))]
    if got.rank != want.rank: return out
    idx = [z3.Int('ix!%d' % k) for k in range(want.rank)]
    H = list(p.hyp)
    imp = lambda c: z3.Implies(z3.And(*H), c) if H else c
    for k in range(want.rank): out.append(('%s: dimension %d' % (name, k), imp(got.shape[k] == want.shape[k])))
    hyp = H + [z3.And(i >= 0, i < d) for i, d in zip(idx, want.shape)]
    idx = [z3.IntVal(0) if F.is_one(d) else i for i, d in zip(idx, want.shape)]
    x, y = typed(got.at(idx), got, TH), typed(want.at(idx), want, TH)
    ok = equal(x, y, z3.And(*hyp) if hyp else z3.BoolVal(True)) if x.sort() == y.sort() else z3.BoolVal(False)
    out.append((name + ': element at every index', ok))
    return out
