"""C13: recognising a pattern of operators (rewriters) never changes what the model computes."""
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SBool, Unsupported, SInt
from pyvc import tfpat as W
from pyvc.symenv import zint
from pyvc.tfpat import P
from props.C03 import Ints
from pyvc import contract as _c
def OneOf(*v): return _c.OneOf(list(v))

LEVEL = 'proof'
TRUSTED = ['CPython executing the instrumented rewriters and the real graph matcher', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2', 'meanings of the TensorFlow operators of the patterns and of the ONNX operators the rewriters make (pyvc/tfpat.py)']
ASSUMPTIONS = ['TensorFlow semantics of each pattern operator as stated in pyvc/tfpat.py (compared with TensorFlow itself by the bounded net)',
               'elements are real numbers (finite, no rounding): formulas that are equal only up to rounding are accepted',
               'a sum over a window is an uninterpreted function of its summands: two convolutions, matrix products or means are equal when they add up the same summands in the same order',
               'conv_dilations: paddings and crops are constants (for run-time paddings the rewriter accepts only graphs it assumes were made by keras)',
               'tensors are not empty (every dimension at least 1)']
EXPLANATION = ('the real rewriter runs on real graphs of TensorFlow operators with symbolic dimensions and arbitrary elements: its pattern, and the same pattern with another operand, axis, order, attribute, data format, constant form or second reader; '
               'whatever graph it leaves (rewritten or not) must denote the same tensors, element for element, with right recorded shapes and types; cover conditions check that the pattern itself is rewritten')
BOUNDED_NOTE = 'models_*: the patterns of the contracts with concrete sizes and numbers, partly unknown shapes and opsets 7-18, with and without the optimizers, converted end to end, run with onnxruntime and compared with TensorFlow'
PROOF_SHARDS = 4
BOUNDED_SHARDS = 4
OPS = [10, 13]
RW = 'tf2onnx.rewriter.'
CS = []
def rw(module, fname=None, cover=('rewritten',), known=('all',), opset=OPS, limit=100, timeout=10000, pre=None, name=None, **params):
    fname = fname or 'rewrite_' + module
    def deco(build):
        CS.append((name or build.__name__.replace('__', ':').replace('_', '-'), module if '.' in module else RW + module, fname, build, cover, known, opset, limit, timeout, pre, params))
        return build
    return deco
D4 = Ints(4, 1)

# ------------------------------------------------------------------ Maximum(alpha * x, x)
def leaky(a, val, shape, dt=1):
    p = P(a)
    x = p.x(list(a.D[:2]), dt)
    y = p.x(list(a.D[:2]), dt) if a.other else x
    npdt = {1: np.float32, 10: np.float16, 11: np.float64, 6: np.int32}[dt]
    al = p.c(np.full(shape, val), npdt)
    m = p.op('Mul', [al, x] if a.first else [x, al])
    r = p.op('Maximum', [m, y] if a.left else [y, m])
    p.out(r)
    if a.shared: p.out(m)
    return p
@rw('leakyrelu_rewriter', 'rewrite_leakyrelu', D=D4, dt=OneOf(1, 10, 11), alpha=OneOf(0.25, -1.5, 0.0), first=Bool(), left=Bool(), shared=Bool(), other=Const(False))
def leakyrelu(a): return leaky(a, a.alpha, [], a.dt)
@rw('leakyrelu_rewriter', 'rewrite_leakyrelu', cover=('left alone',), D=D4, alpha=OneOf(1.0, 1.5, 0.25), first=Bool(), left=Bool(), shared=Const(False), other=Bool(), pre=lambda a: a.other or a.alpha >= 1)
def leakyrelu__not(a): return leaky(a, a.alpha, [])
@rw('leakyrelu_rewriter', 'rewrite_leakyrelu', cover=(), D=Ints(4, 2), shape=OneOf([1], [1, 1], [3, 1, 1]), first=Bool(), left=Bool(), shared=Const(False), other=Const(False))
def leakyrelu__vector(a): return leaky(a, 0.25, a.shape)
@rw('leakyrelu_rewriter', 'rewrite_leakyrelu', cover=('left alone',), D=D4, first=Bool(), left=Bool(), shared=Const(False), other=Const(False), alpha=OneOf(0, -2))
def leakyrelu__ints(a): return leaky(a, a.alpha, [], 6)

# ------------------------------------------------------------------ x * Cast(x > theta)
def thr(a, shape=(), dt=1, val=0.5, flip=False):
    p = P(a)
    x = p.x(list(a.D[:2]), dt)
    y = p.x(list(a.D[:2]), dt) if a.other else x
    npdt = {1: np.float32, 10: np.float16, 11: np.float64, 6: np.int32}[dt]
    th = p.c(np.full(shape, val), npdt)
    gr = p.op('Greater', [th, x] if flip else [x, th])
    c = p.op('Cast', [gr], {'to': dt})
    m = p.op('Mul', [c, y] if a.left else [y, c])
    p.out(m)
    if a.shared: p.out(c)
    return p
TR = ('thresholded_relu_rewriter', 'rewrite_thresholded_relu')
@rw(*TR, D=D4, dt=OneOf(1, 10, 11), val=OneOf(0.5, -0.25, 0.0), left=Bool(), shared=Bool(), other=Const(False))
def thresholdedrelu(a): return thr(a, (), a.dt, a.val)
@rw(*TR, cover=('left alone',), D=D4, left=Bool(), shared=Const(False), other=Const(True))
def thresholdedrelu__other(a): return thr(a)
@rw(*TR, cover=('left alone',), D=D4, val=OneOf(0.5, -0.25), left=Bool(), shared=Const(False), other=Const(False))
def thresholdedrelu__flipped(a): return thr(a, (), 1, a.val, True)
@rw(*TR, cover=(), D=Ints(4, 2), shape=OneOf([1], [2, 1, 1]), left=Bool(), shared=Const(False), other=Const(False))
def thresholdedrelu__vector(a): return thr(a, a.shape)
@rw(*TR, cover=('left alone',), D=D4, left=Bool(), shared=Const(False), other=Const(False))
def thresholdedrelu__ints(a): return thr(a, (), 6, 1)

# ------------------------------------------------------------------ Reshape(x, [Shape(x)[0], -1])
def flat(a, own=True, begin=0, const=None):
    p = P(a, flat=True)
    x = p.x(list(a.D[:a.r]))
    y = x if own else p.x([a.D[3], a.D[1]])
    s = p.op('Shape', [y], {'out_type': 6}) if const is None else p.c(const, np.int32)
    q = p.op('StridedSlice', [s, p.c([begin], np.int32), p.c([begin + 1], np.int32), p.c([1], np.int32)], {'shrink_axis_mask': 1, 'begin_mask': 0, 'end_mask': 0, 'ellipsis_mask': 0, 'new_axis_mask': 0, 'T': 6, 'Index': 6})
    k = p.op('Pack', [q, p.c(-1, np.int32)], {'axis': 0, 'N': 2})
    p.out(p.op('Reshape', [x, k]))
    if a.get('shared', None) == 'pack': p.out(k)
    if a.get('shared', None) == 'slice': p.out(q)
    return p
FL = ('flatten_rewriter', 'rewrite_flatten')
@rw(*FL, known=('all', 'rank', 'none'), cover=(), D=D4, r=OneOf(1, 2, 3, 4), shared=OneOf(None, 'pack', 'slice'))
def flatten(a): return flat(a)
@rw(*FL, known=('all', 'rank'), cover=('rewritten',), D=D4, r=OneOf(2, 3, 4), shared=Const(None))
def flatten__fires(a): return flat(a)
@rw(*FL, known=('all', 'rank'), cover=(), D=D4, r=OneOf(2, 3), pre=lambda a: a.D[3] == a.D[0])
def flatten__other(a): return flat(a, False)
@rw(*FL, known=('all', 'rank'), cover=('left alone',), D=D4, r=OneOf(2, 3))
def flatten__later(a): return flat(a, True, 1)
@rw(*FL, known=('all',), cover=(), D=Const([2, 3, 4]), r=Const(3), s=OneOf([2, 3, 4], [2, 4, 3], [6, 2, 2], [2], [2, 3, 4, 1], [4, 3, 2], [1, 2, 12]))
def flatten__const(a): return flat(a, True, 0, a.s)

# ------------------------------------------------------------------ alpha * A B + beta * C
def gemm_p(a, cshape, alpha=None, beta=None, ta=0, tb=0, dt=1):
    p = P(a)
    m, k, n = a.D[:3]
    A, B = p.x([k, m] if ta else [m, k], dt), p.x([n, k] if tb else [k, n], dt)
    C = p.x(cshape, dt)
    npdt = {1: np.float32, 10: np.float16, 11: np.float64}[dt]
    mm = p.op('MatMul', [A, B], {'transpose_a': ta, 'transpose_b': tb})
    u, v = mm, C
    if alpha is not None:
        al = p.c(alpha, npdt)
        u = p.op('Mul', [al, u] if a.first else [u, al])
    if beta is not None:
        be = p.c(beta, npdt)
        v = p.op('Mul', [be, v] if a.first else [v, be])
    r = p.op(a.get('add', 'AddV2'), [u, v] if a.left else [v, u])
    p.out(r)
    if a.get('shared', False): p.out(mm)
    return p
GE = ('gemm_rewriter', 'rewrite_gemm')
CSH = {'mn': lambda D: [D[0], D[2]], 'n': lambda D: [D[2]], '1n': lambda D: [1, D[2]], 'm1': lambda D: [D[0], 1], '11': lambda D: [1, 1], '1': lambda D: [1], '': lambda D: [], 'bmn': lambda D: [D[3], D[0], D[2]], '1mn': lambda D: [1, D[0], D[2]]}
@rw(*GE, cover=('rewritten',), known=('all', 'rank', 'none'), D=D4, c=OneOf('mn', 'n', '1n', 'm1', '11', '1', ''), alpha=OneOf(None, 2.0, -0.5), beta=OneOf(None, 3.0), ta=OneOf(0, 1), tb=OneOf(0, 1), first=Bool(), left=Bool(), shared=Bool(), add=OneOf('AddV2', 'Add'),
    pre=lambda a: (a.add == 'Add') + a.shared + (not a.first) + (a.opset != 10) + (a.known != 'all') <= 1 and (a.first or a.alpha is not None or a.beta is not None) and (a.ta == a.tb or a.c == 'n'))
def gemm(a): return gemm_p(a, CSH[a.c](a.D), a.alpha, a.beta, a.ta, a.tb)
@rw(*GE, cover=('left alone',), D=Ints(4, 2), c=OneOf('bmn', '1mn'), alpha=OneOf(None, 2.0), beta=OneOf(None, 3.0), first=Bool(), left=Bool())
def gemm__tall(a): return gemm_p(a, CSH[a.c](a.D), a.alpha, a.beta)
@rw(*GE, cover=(), D=Ints(4, 2), c=OneOf('mn', 'n'), alpha=OneOf(None, [2.0], [[2.0]], [[[2.0]]]), beta=OneOf(None, [3.0], [[3.0]], [[[3.0]]]), first=Const(True), left=Bool())
def gemm__nested(a): return gemm_p(a, CSH[a.c](a.D), a.alpha, a.beta)
@rw(*GE, cover=(), D=Const([3, 2, 4]), c=OneOf('mn', 'n'), alpha=OneOf(None, [2.0, 3.0, 4.0, 5.0], [[1.0], [2.0], [3.0]]), beta=OneOf(None, [2.0, 3.0, 4.0, 5.0], [[1.0], [2.0], [3.0]]), first=Const(True), left=Bool())
def gemm__vector(a): return gemm_p(a, CSH[a.c](a.D), a.alpha, a.beta)
@rw(*GE, cover=('left alone',), D=Ints(4, 2), c=OneOf('mn', 'n'), dt=OneOf(11, 10), alpha=OneOf(None, 2.0), beta=OneOf(None), first=Const(True), left=Bool())
def gemm__types(a): return gemm_p(a, CSH[a.c](a.D), a.alpha, a.beta, 0, 0, a.dt)
@rw(*GE, cover=(), known=('all', 'rank', 'none'), D=D4, ta=OneOf(0, 1))
def gemm__biasadd(a):
    p = P(a)
    m, k, n = a.D[:3]
    mm = p.op('MatMul', [p.x([k, m] if a.ta else [m, k]), p.x([k, n])], {'transpose_a': a.ta, 'transpose_b': 0})
    p.out(p.op('BiasAdd', [mm, p.x([n])], {'data_format': 'NHWC'}))
    return p
@rw(*GE, cover=(), D=D4, c=OneOf('mn', 'n'), kind=OneOf('twice', 'both', 'chain', 'square'), left=Bool())
def gemm__shared(a):
    p = P(a)
    m, k, n = a.D[:3]
    mm = p.op('MatMul', [p.x([m, k]), p.x([k, n])], {'transpose_a': 0, 'transpose_b': 0})
    C = p.x(CSH[a.c](a.D))
    add = lambda u, v: p.op('AddV2', [u, v] if a.left else [v, u])
    if a.kind == 'twice': p.out(add(mm, mm))
    elif a.kind == 'both':
        p.out(add(mm, C)); p.out(add(p.op('Mul', [p.c(2.0), mm]), C))
    elif a.kind == 'chain': p.out(add(add(mm, C), C))
    else:
        p.out(add(mm, p.op('Mul', [p.c(2.0), mm])))
    return p

# ------------------------------------------------------------------ convolutions
def pads_of(n, *rows): return [list(r) for r in rows]
CV = {'strides': [1, 1, 1, 1], 'dilations': [1, 1, 1, 1], 'padding': 'VALID', 'data_format': 'NHWC'}
def conv_p(p, a, x, kdims, s=(1, 1), d=(1, 1), fmt='NHWC', kern='x', padding='VALID', explicit=None, type='Conv2D'):
    w = p.k(kdims) if kern == 'k' else p.x(kdims)
    full = (lambda v: [1] + list(v) + [1]) if fmt[-1] == 'C' else (lambda v: [1, 1] + list(v))
    at = dict(strides=full(s), dilations=full(d), padding=padding, data_format=fmt)
    if explicit is not None: at['explicit_paddings'] = explicit
    return p.op(type, [x, w], at)
PD = ('conv2d_with_pad_rewriter', 'rewrite_conv2d_with_pad')
def padconv(a, rows, **kw):
    p = P(a)
    N, H, Wd, C = a.D[:4]
    M, KH, KW = a.D[4:7]
    fmt = kw.get('fmt', 'NHWC')
    x = p.x([N, H, Wd, C] if fmt == 'NHWC' else [N, C, H, Wd])
    q = p.op('Pad', [x, p.c(rows, np.int32)])
    cpad = 0
    y = conv_p(p, a, q, [KH, KW, C, M] if kw.pop('own', True) else [KH, KW, a.D[7], M], **kw)
    p.out(y)
    if a.get('shared', False): p.out(q)
    p.hyp += fits(p, y)
    return p
def fits(p, y): return [d >= 1 for d in p.sem.get(y).shape]
@rw(*PD, name='pad-conv', known=('all', 'rank'), D=Ints(8, 1), p=Ints(4, 0), s=OneOf((1, 1), (2, 1), (2, 3)), d=OneOf((1, 1), (1, 2)), kern=OneOf('k', 'x'), shared=Bool(), fmt=OneOf('NHWC', 'NCHW'), limit=200,
    pre=lambda a: (a.s == (1, 1) or a.d == (1, 1)) and (not a.shared or a.s == (1, 1)))
def pad_conv(a):
    z, h, w = [0, 0], [a.p[0], a.p[1]], [a.p[2], a.p[3]]
    return padconv(a, [z, h, w, z] if a.fmt == 'NHWC' else [z, z, h, w], s=a.s, d=a.d, kern=a.kern, fmt=a.fmt)
@rw(*PD, name='pad-conv:own-padding', cover=('left alone',), D=Ints(8, 1), p=Ints(4, 0), e=Ints(4, 0), padding=OneOf('SAME', 'EXPLICIT'), limit=200)
def pad_conv2(a):
    z, h, w = [0, 0], [a.p[0], a.p[1]], [a.p[2], a.p[3]]
    return padconv(a, [z, h, w, z], padding=a.padding, explicit=[0, 0] + list(a.e) + [0, 0] if a.padding == 'EXPLICIT' else None)
@rw(*PD, name='pad-conv:other-dims', cover=('left alone',), D=Ints(8, 1), which=OneOf(0, 1, 2, 3, 4, 5), limit=200)
def pad_conv3(a):
    rows = [[0, 0], [1, 0], [0, 2], [0, 0]]
    r, c = [(0, 0), (0, 1), (3, 0), (3, 1), (0, 1), (3, 1)][a.which]
    rows[r][c] += 1 + a.which // 4
    p = P(a)
    N, H, Wd, C = a.D[:4]
    M, KH, KW = a.D[4:7]
    q = p.op('Pad', [p.x([N, H, Wd, C]), p.c(rows, np.int32)])
    p.out(conv_p(p, a, q, [KH, KW, SInt(p.sem.get(q).shape[3]), M]))
    p.hyp = [W.z3.And(zint(H) + 1 >= zint(KH), zint(Wd) + 2 >= zint(KW))]
    return p
BA = ('conv2d_with_add_rewriter', 'rewrite_biasadd_with_conv2d')
@rw(*BA, known=('all', 'rank', 'none'), D=Ints(8, 1), s=OneOf((1, 1), (2, 1)), padding=OneOf('VALID', 'SAME'), fmt=OneOf('NHWC', 'NCHW'), kern=OneOf('k', 'x'))
def biasadd__conv(a):
    p = P(a)
    N, H, Wd, C, M, KH, KW = a.D[:7]
    y = conv_p(p, a, p.x([N, H, Wd, C] if a.fmt == 'NHWC' else [N, C, H, Wd]), [KH, KW, C, M], a.s, fmt=a.fmt, kern=a.kern, padding=a.padding)
    p.out(p.op('BiasAdd', [y, p.x([M])], {'data_format': a.fmt}))
    p.hyp += fits(p, y)
    return p
@rw(*BA, cover=('left alone',), D=Ints(8, 1), kind=OneOf('format', 'shared', 'first'))
def biasadd__conv_not(a):
    p = P(a)
    N, H, Wd, C, M, KH, KW = a.D[:7]
    y = conv_p(p, a, p.x([N, H, Wd, C]), [KH, KW, C, M])
    p.hyp += fits(p, y)
    if a.kind == 'format': p.out(p.op('BiasAdd', [y, p.x([SInt(p.sem.get(y).shape[1])])], {'data_format': 'NCHW'}))
    else:
        p.out(p.op('BiasAdd', [y, p.x([M])], {'data_format': 'NHWC'}))
        if a.kind == 'shared': p.out(y)
        else: p.out(p.op('BiasAdd', [y, p.x([M])], {'data_format': 'NHWC'}))
    return p

# ------------------------------------------------------------------ BatchToSpace(conv(SpaceToBatch(x)))
DI = ('conv_dilations_rewriter', 'rewrite_conv_dilations')
def dil(a, b, pads, crops, s=(1, 1), d=(1, 1), padding='VALID', type='Conv2D', shared=None):
    p = P(a)
    N, H, Wd, C = a.D[:4]
    M, KH, KW = a.D[4:7]
    x = p.x([N, H, Wd, C])
    q = p.op('SpaceToBatchND', [x, p.c(list(b), np.int32), p.c(pads, np.int32)])
    y = conv_p(p, a, q, [KH, KW, C, M if type == 'Conv2D' else 1], s=s, d=d, padding=padding, type=type)
    r = p.op('BatchToSpaceND', [y, p.c(list(b), np.int32), p.c(crops, np.int32)])
    p.out(r)
    if shared == 'x': p.out(x)
    p.hyp += fits(p, r) + fits(p, y)
    for dim, k, (u, v) in ((H, 0, pads[0]), (Wd, 1, pads[1])):
        if k < len(b): p.hyp.append((zint(dim) + zint(u) + zint(v)) % b[k] == 0)
    return p
@rw(*DI, name='dilations', cover=('rewritten',), known=('all', 'rank', 'none'), D=Ints(8, 1), p=Ints(4, 0), c=Ints(2, 0), b=OneOf((2, 2), (1, 2), (3, 2)), type=OneOf('Conv2D', 'DepthwiseConv2dNative'), limit=300)
def dilations(a): return dil(a, a.b, [[a.p[0], a.p[1]], [a.p[2], a.p[3]]], [[0, a.c[0]], [0, a.c[1]]], type=a.type)
@rw(*DI, name='dilations:start-crops', cover=(), D=Ints(8, 1), p=Ints(4, 0), c=Ints(4, 0), b=OneOf((2, 2), (3, 1)), limit=300)
def dilations2(a): return dil(a, a.b, [[a.p[0], a.p[1]], [a.p[2], a.p[3]]], [[a.c[2], a.c[0]], [a.c[3], a.c[1]]])
@rw(*DI, name='dilations:not', cover=('left alone',), D=Ints(8, 1), p=Ints(4, 0), c=Ints(2, 0), b=OneOf((2, 2),), s=OneOf((1, 1), (2, 1), (1, 2), (2, 2)), d=OneOf((1, 1), (2, 1), (1, 2)), padding=OneOf('VALID', 'SAME'), limit=300, pre=lambda a: a.s != (1, 1) or a.d != (1, 1) or a.padding == 'SAME')
def dilations3(a): return dil(a, a.b, [[a.p[0], a.p[1]], [a.p[2], a.p[3]]], [[0, a.c[0]], [0, a.c[1]]], s=a.s, d=a.d, padding=a.padding)

@rw(*DI, name='dilations:1d', cover=('rewritten',), known=('all', 'rank', 'none'), D=Ints(8, 1), p=Ints(2, 0), c=Ints(1, 0), b=OneOf(2, 3), ax=OneOf(1, -3), shared=OneOf(None, 'x'), limit=300)
def dilations4(a): return dil1(a)
@rw(*DI, name='dilations:1d-shared', cover=('left alone',), D=Ints(8, 1), p=Ints(2, 0), c=Ints(1, 0), b=OneOf(2, 3), ax=Const(1), shared=OneOf('conv', 'squeeze', 'expand'), limit=300)
def dilations5(a): return dil1(a)
def dil1(a):
    p = P(a)
    N, Wd, C = a.D[:3]
    M, KW = a.D[4:6]
    x = p.x([N, Wd, C])
    q = p.op('SpaceToBatchND', [x, p.c([a.b], np.int32), p.c([[a.p[0], a.p[1]]], np.int32)])
    e = p.op('ExpandDims', [q, p.c(a.ax, np.int32)])
    y = conv_p(p, a, e, [1, KW, C, M])
    z = p.op('Squeeze', [y], {'squeeze_dims': [a.ax]})
    r = p.op('BatchToSpaceND', [z, p.c([a.b], np.int32), p.c([[0, a.c[0]]], np.int32)])
    p.out(r)
    more = {'x': x, 'conv': y, 'squeeze': z, 'expand': e}.get(a.shared)
    # another use of an inner tensor: its first row
    if a.shared == 'x': p.out(x)
    elif more: p.out(p.op('BatchToSpaceND', [z if a.shared == 'squeeze' else p.op('Squeeze', [more], {'squeeze_dims': [1]}), p.c([a.b], np.int32), p.c([[0, 0]], np.int32)]))
    p.hyp += fits(p, r) + fits(p, y) + [(zint(Wd) + zint(a.p[0]) + zint(a.p[1])) % a.b == 0]
    return p
@rw(*DI, name='dilations:3d', cover=('rewritten',), D=Ints(10, 1), p=Ints(2, 0), b=OneOf((2, 1, 2), (1, 2, 2)), limit=300)
def dilations6(a):
    p = P(a)
    N, A, B, E, C, M, K1, K2, K3 = a.D[:9]
    pads = [[a.p[0], a.p[1]], [0, a.p[0]], [a.p[1], 0]]
    q = p.op('SpaceToBatchND', [p.x([N, A, B, E, C]), p.c(list(a.b), np.int32), p.c(pads, np.int32)])
    y = conv_p(p, a, q, [K1, K2, K3, C, M], (1, 1, 1), (1, 1, 1), 'NDHWC', type='Conv3D')
    r = p.op('BatchToSpaceND', [y, p.c(list(a.b), np.int32), p.c([[0, 0], [0, 0], [0, 0]], np.int32)])
    p.out(r)
    p.hyp += fits(p, r) + fits(p, y) + [(zint(d) + zint(u) + zint(v)) % b == 0 for d, b, (u, v) in zip((A, B, E), a.b, pads)]
    return p
@rw(*DI, name='dilations:shared', cover=('left alone',), D=Ints(8, 1), p=Ints(4, 0), c=Ints(2, 0), limit=300)
def dilations7(a):
    p = P(a)
    N, H, Wd, C, M, KH, KW = a.D[:7]
    b = [2, 2]
    q = p.op('SpaceToBatchND', [p.x([N, H, Wd, C]), p.c(b, np.int32), p.c([[a.p[0], a.p[1]], [a.p[2], a.p[3]]], np.int32)])
    y = conv_p(p, a, q, [KH, KW, C, M])
    for cr in ([[0, a.c[0]], [0, a.c[1]]], [[0, 0], [0, 0]]): p.out(p.op('BatchToSpaceND', [y, p.c(b, np.int32), p.c(cr, np.int32)]))
    p.hyp += fits(p, y) + [(zint(H) + zint(a.p[0]) + zint(a.p[1])) % 2 == 0, (zint(Wd) + zint(a.p[2]) + zint(a.p[3])) % 2 == 0]
    for o in p.g.outputs: p.hyp += [d >= 1 for d in p.sem.get(o).shape]
    return p
@rw(*DI, name='dilations:part', cover=('left alone',), D=Ints(8, 1), p=Ints(2, 0), limit=300)
def dilations8(a):
    """blocks in one of the two spatial dimensions only"""
    p = P(a)
    N, H, Wd, C, M, KH, KW = a.D[:7]
    q = p.op('SpaceToBatchND', [p.x([N, H, Wd, C]), p.c([2], np.int32), p.c([[a.p[0], a.p[1]]], np.int32)])
    y = conv_p(p, a, q, [KH, KW, C, M])
    r = p.op('BatchToSpaceND', [y, p.c([2], np.int32), p.c([[0, 0]], np.int32)])
    p.out(r)
    p.hyp += fits(p, y) + fits(p, r) + [(zint(H) + zint(a.p[0]) + zint(a.p[1])) % 2 == 0]
    return p

# ------------------------------------------------------------------ folding of constants
CF = ('tf2onnx.tfonnx', 'rewrite_constant_fold')
@rw(*CF, cover=('rewritten',), V=Ints(4), W=Ints(4), op=OneOf('Add', 'Sub', 'Mul'), form=OneOf('vv', 'vs', 'sv', 'ss'), twice=Bool(), opset=(13,))
def fold__arithmetic(a):
    p = P(a)
    u = p.c([a.V[0], a.V[1], a.V[2]] if a.form[0] == 'v' else [a.V[3]], np.int32)
    v = p.c([a.W[0], a.W[1], a.W[2]] if a.form[1] == 'v' else [a.W[3]], np.int32)
    r = p.op(a.op, [u, v])
    if a.twice: r = p.op('Sub', [r, u])
    p.out(r)
    return p
@rw(*CF, cover=('rewritten',), V=Ints(6), n=OneOf(1, 2, 3), op=OneOf('Pack', 'ConcatV2'), opset=(13,))
def fold__joining(a):
    p = P(a)
    if a.op == 'Pack': r = p.op('Pack', [p.c([a.V[2 * k], a.V[2 * k + 1]], np.int32) for k in range(a.n)], {'axis': 0, 'N': a.n})
    else: r = p.op('ConcatV2', [p.c([a.V[2 * k], a.V[2 * k + 1]], np.int32) for k in range(a.n)] + [p.c(0, np.int32)])
    p.out(r)
    return p
@rw(*CF, cover=('rewritten',), st=OneOf(0, 2, -3), li=OneOf(0, 5, -4), de=OneOf(1, 2, -1), opset=(13,), pre=lambda a: (a.li - a.st) * a.de > 0)
def fold__range(a):
    p = P(a)
    p.out(p.op('Range', [p.c(a.st, np.int32), p.c(a.li, np.int32), p.c(a.de, np.int32)], {'Tidx': 6}))
    return p
@rw(*CF, cover=('rewritten',), x=OneOf([3, 1, 2, 3, 1], [5, 4], [0, 0, 0]), y=OneOf([1], [4, 3], [9], [2, 2]), opset=(13,), pre=lambda a: any(v not in a.y for v in a.x))
def fold__listdiff(a):
    p = P(a)
    p.out(p.op('ListDiff', [p.c(a.x, np.int32), p.c(a.y, np.int32)], {'out_idx': 6, 'T': 6}))
    return p
@rw(*CF, cover=('left alone',), D=D4, V=Ints(4), op=OneOf('Add', 'Sub', 'Mul'), opset=(13,))
def fold__not(a):
    p = P(a)
    p.out(p.op(a.op, [p.x(list(a.D[:2])), p.c(2.0)]))
    return p

# ------------------------------------------------------------------ layer normalization
LN = ('layer_normalization_rewriter', 'rewrite_layer_normalization')
def lnorm(a, form=0, sign=1, keep=(1, 1), axes=([2], [2]), scale='c', dt=1):
    p = P(a)
    dims = list(a.D[:3])
    x = p.x(dims, dt)
    y = p.x(dims, dt) if a.get('other', False) else x
    npdt = {1: np.float32, 11: np.float64, 10: np.float16}[dt]
    m = p.op('Mean', [x, p.c(axes[0], np.int32)], {'keep_dims': keep[0]})
    v = p.op('Mean', [p.op('Square', [p.op('Sub', [x, m])]), p.c(axes[1], np.int32)], {'keep_dims': keep[1]})
    inv = p.op('Rsqrt', [p.op('Add', [v, p.c(0.001, npdt)])])
    sub = p.op('Sub', [y, m] if sign > 0 else [m, y])
    sc = p.x({'c': [dims[2]], '': [], 'abc': dims, 'b1': [dims[1], 1]}[scale], dt)
    b = p.x([dims[2]], dt)
    fl = lambda u, w: [u, w] if a.left else [w, u]
    if form == 0: r = p.op('Mul', fl(p.op('Mul', fl(inv, sc)), sub))
    elif form == 1: r = p.op('Mul', fl(p.op('Mul', fl(inv, sub)), sc))
    else: r = p.op('Mul', fl(p.op('Mul', fl(sc, sub)), inv))
    p.out(p.op('Add', fl(r, b)))
    if a.get('shared', False): p.out(m)
    return p
@rw(*LN, cover=('rewritten',), D=D4, form=OneOf(0, 1, 2), left=Bool(), scale=OneOf('c', '', 'abc', 'b1'), shared=Bool(), ax=OneOf(([2], [2]), ([-1], [2]), (2, -1)), pre=lambda a: a.shared + (a.scale != 'c') + (a.ax != ([2], [2])) <= 1)
def layernorm(a): return lnorm(a, a.form, 1, (1, 1), a.ax, a.scale)
@rw(*LN, cover=('left alone',), D=D4, form=OneOf(0, 1, 2), left=Bool(), kind=OneOf('sign', 'other', 'axis', 'axis2', 'two', 'double', 'half'))
def layernorm__not(a):
    a['other'] = a.kind == 'other'
    return lnorm(a, a.form, -1 if a.kind == 'sign' else 1, (1, 1), {'axis': ([1], [2]), 'axis2': ([2], [1]), 'two': ([1, 2], [1, 2])}.get(a.kind, ([2], [2])), 'c', {'double': 11, 'half': 10}.get(a.kind, 1))
@rw(*LN, cover=('left alone',), D=D4, n=OneOf(2, 3), form=OneOf(0, 1, 2), left=Bool(), keep=OneOf((0, 0), (0, 1), (1, 0)), pre=lambda a: a.D[0] == a.D[1] and a.D[1] == a.D[2])
def layernorm__keep(a): return lnorm(a, a.form, 1, a.keep)

# ------------------------------------------------------------------ fused operators of grappler
FU = ('fused_op_rewriter', 'rewrite_fused_ops')
ACT = [[], ['Relu'], ['Relu6'], ['Elu'], ['LeakyRelu']]
@rw(*FU, cover=('rewritten',), known=('all', 'none'), D=D4, act=OneOf(0, 1, 2, 3, 4), alpha=OneOf(0.2, 0.5), ta=OneOf(0, 1), shared=Bool())
def fused__matmul(a):
    p = P(a)
    m, k, n = a.D[:3]
    r = p.op('_FusedMatMul', [p.x([k, m] if a.ta else [m, k]), p.x([k, n]), p.x([n])], {'transpose_a': a.ta, 'transpose_b': 0, 'fused_ops': ['BiasAdd'] + ACT[a.act], 'leakyrelu_alpha': a.alpha, 'epsilon': 0.0001, 'num_args': 1})
    p.out(r)
    if a.shared: p.out(r)
    return p
@rw(*FU, cover=('rewritten',), known=('all', 'none'), D=Ints(8, 1), act=OneOf(0, 1, 2, 3, 4), bn=Bool(), alpha=OneOf(0.2, 0.5), eps=OneOf(0.0001, 0.01), s=OneOf((1, 1), (2, 1)))
def fused__conv(a):
    p = P(a)
    N, H, Wd, C, M, KH, KW = a.D[:7]
    ins = [p.x([N, H, Wd, C]), p.x([KH, KW, C, M])] + [p.x([M]) for _ in range(4 if a.bn else 1)]
    r = p.op('_FusedConv2D', ins, {'strides': [1] + list(a.s) + [1], 'dilations': [1, 1, 1, 1], 'padding': 'VALID', 'data_format': 'NHWC', 'fused_ops': ['FusedBatchNorm' if a.bn else 'BiasAdd'] + ACT[a.act],
                                'leakyrelu_alpha': a.alpha, 'epsilon': a.eps, 'num_args': len(ins) - 2, 'explicit_paddings': [], 'use_cudnn_on_gpu': 0})
    p.out(r)
    p.hyp += fits(p, r)
    return p

# ------------------------------------------------------------------ transpose by a computed permutation
@rw('transpose_rewriter', 'rewrite_transpose', cover=('rewritten',), known=('all', 'rank'), D=D4, r=OneOf(1, 2, 3, 4))
def transpose(a):
    p = P(a)
    x = p.x(list(a.D[:a.r]))
    k = p.op('Rank', [x])
    perm = p.op('Sub', [p.op('Sub', [k, p.c(1, np.int32)]), p.op('Range', [p.c(0, np.int32), k, p.c(1, np.int32)])])
    p.out(p.op('Transpose', [x, perm]))
    return p
@rw('transpose_rewriter', 'rewrite_transpose', cover=(), known=('all', 'rank'), D=D4, r=OneOf(2, 3))
def transpose__identity(a):
    p = P(a)
    x = p.x(list(a.D[:a.r]))
    k = p.op('Rank', [x])
    perm = p.op('Sub', [p.op('Sub', [k, k]), p.op('Range', [p.c(0, np.int32), p.c(-a.r, np.int32), p.c(-1, np.int32)])])
    p.out(p.op('Transpose', [x, perm]))
    return p

def contracts(tier='quick'):
    out = []
    for name, module, fname, build, cover, known, opset, limit, timeout, pre, params in CS:
        params = dict(params, opset=OneOf(*opset), known=OneOf(*known))
        c = Contract(name, '%s:%s' % (module, fname), params, W.post, pre or (lambda a: True), modes=('sized',), covers=cover, call=W.runner(build, module, fname), timeout=timeout)
        c.no_concrete, c.limit, c.build = True, limit, build
        out.append(c)
    return out

def replay(cn, args):
    from pyvc.net import run_case
    from props import C13net
    c = next(q for q in contracts() if q.name == cn)
    rng = np.random.RandomState(1)
    for known in (args.get('known'), 'all'):
        for _ in range(4):
            a = A(args)
            a['known'] = known
            q = C13net.case(c, a, rng)
            if q is None: return None
            st, txt = run_case(q)
            if st == 'bad': return '%s  [%s]' % (txt, q.desc)
    return None

def bounded(tier, seed, shard, nshards, R):
    from pyvc.net import run_net
    from props import C13net
    rng = np.random.RandomState(seed * 1000 + shard + 13)
    run_net(R, C13net.cases(rng, tier, contracts()), limit=1500 if tier == 'quick' else 15000)
