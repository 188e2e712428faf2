"""C15: operators that rearrange, join, split, index and reduce tensors give TensorFlow's element at every index."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, VList, Unsupported, ctx, zi as _zi
from pyvc import tfops as F, denote
from pyvc.tfops import K, T
from props.C03 import Ints

def zi(x): return x if z3.is_expr(x) else _zi(x)

LEVEL = 'proof'
PROOF_SHARDS = 7
BOUNDED_SHARDS = 3
TRUSTED = ['CPython executing the instrumented handlers', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2', 'index-level meanings of the emitted ONNX operators (pyvc/denote.py, optspec.py, optsem.py, tfops.py)',
           'operator schemas shipped with onnx (types, attributes)']
ASSUMPTIONS = ['TensorFlow semantics of each operator as stated in the contract (compared with TensorFlow itself by the bounded net)', 'casts the handlers insert are exact on the values concerned (32-bit indices, data below 2^24 below opset 8)',
               'tensors are not empty (every dimension at least 1)', 'reductions, cumulative sums, products and top-k are uninterpreted functions of the elements they range over, in any order',
               'python ints are mathematical integers (exact); attribute protobufs hold 64-bit values']
EXPLANATION = ('the real handler the real registry selects is executed for each operator with every dimension, index and shape operand symbolic, over every rank, axis, permutation and attribute arrangement within the stated ranks, constant or '
               'run-time operands and opsets 7 to 18; the emitted operators, by their index-level meaning, must give the TensorFlow shape and element at every index, be allowed by the operator schemas of the opset, and carry right records')
BOUNDED_NOTE = 'models_*: generated models with one or two of the operators, element types, unknown shapes, run-time operands and opsets 7-18, converted end to end, run with onnxruntime and compared with TensorFlow'

KNOWN = ['all', 'rank']
ALL = [7, 8, 9, 10, 11, 12, 13, 15, 18]
FEW = [7, 10, 11, 13, 18]
LATE = [11, 13, 18]
TP = dict(FLOAT=1, INT32=6, INT64=7, BOOL=9, DOUBLE=11)

CS = []
def con(name, fn, build, pre=None, cover=('converted',), limit=150, timeout=10000, **p):
    CS.append((name, fn, build, pre, cover, limit, timeout, p))

# ------------------------------------------------------------------ joining and splitting
def pack_dims(a, r): return list(a.D)[:r]
def b_pack(a):
    n, r = a.n, a.r
    d = list(a.D)[:r]
    ax = a.axis % (r + 1)
    ins = [('x', d) for _ in range(n)]
    if a.dup and n > 1: ins[-1] = ('=', 0)
    def want(ts):
        def at(idx):
            j = idx[:ax] + idx[ax + 1:]
            v = ts[-1].at(j)
            for q in range(n - 2, -1, -1): v = z3.If(idx[ax] == q, ts[q].at(j), v)
            return v
        return [T(ts[0].shape[:ax] + [n] + ts[0].shape[ax:], at)]
    return K('Pack', ins, want, dict(axis=a.axis, N=n))
def b_unpack(a):
    n, r = a.n, a.r
    ax = a.axis % r
    d = list(a.D)[:r]
    d[ax] = n
    def want(ts):
        return [T(ts[0].shape[:ax] + ts[0].shape[ax + 1:], (lambda q: lambda idx: ts[0].at(idx[:ax] + [z3.IntVal(q)] + idx[ax:]))(q)) for q in range(n)]
    return K('Unpack', [('x', d)], want, dict(axis=a.axis, num=n))
def joined(ts, ax):
    def at(idx):
        off, v = z3.IntVal(0), None
        offs = []
        for t in ts:
            offs.append(off); off = off + t.shape[ax]
        for t, o in list(zip(ts, offs))[::-1]:
            w = t.at(idx[:ax] + [z3.simplify(idx[ax] - o)] + idx[ax + 1:])
            v = w if v is None else z3.If(idx[ax] < o + t.shape[ax], w, v)
        return v
    tot = z3.IntVal(0)
    for t in ts: tot = tot + t.shape[ax]
    return T(ts[0].shape[:ax] + [z3.simplify(tot)] + ts[0].shape[ax + 1:], at)
def b_concat(a):
    r, ax = a.r, a.axis % a.r
    d = list(a.D)
    ins = []
    for q, kd in enumerate(a.parts):
        e = list(d[:r]); e[ax] = d[4 + q]
        if kd == '0': e[ax] = 0; ins.append(('k', e))
        elif kd == 'k': ins.append(('k', e))
        elif kd == '=': ins.append(('=', 1 if a.op == 'Concat' else 0))
        else: ins.append(('x', e))
    axi = ('c', a.axis)
    ins = [axi] + ins if a.op == 'Concat' else ins + [axi]
    def want(ts):
        ts = ts[1:] if a.op == 'Concat' else ts[:-1]
        return [joined(ts, ax)]
    return K(a.op, ins, want, dict(N=len(a.parts)), must=True)
def b_split(a):
    r, n, ax = a.r, a.n, a.axis % a.r
    d = list(a.D)[:r]
    m = d[ax]
    d[ax] = m * n
    def want(ts):
        t = ts[1]
        return [T(t.shape[:ax] + [m] + t.shape[ax + 1:], (lambda q: lambda idx: t.at(idx[:ax] + [z3.simplify(idx[ax] + q * zi(m))] + idx[ax + 1:]))(q)) for q in range(n)]
    return K('Split', [('c', a.axis), ('x', d)], want, dict(num_split=n))
def b_splitv(a):
    r, n, ax = a.r, a.n, a.axis % a.r
    d = list(a.D)[:r]
    sz = list(a.S)[:n]
    tot = 0
    for s in sz: tot = tot + s
    d[ax] = tot
    given = list(sz)
    if a.hole is not None: given[a.hole % n] = -1
    def want(ts):
        t, out, o = ts[0], [], 0
        for s in sz:
            out.append(T(t.shape[:ax] + [s] + t.shape[ax + 1:], (lambda o: lambda idx: t.at(idx[:ax] + [z3.simplify(idx[ax] + zi(o))] + idx[ax + 1:]))(o)))
            o = o + s
        return out
    return K('SplitV', [('x', d), (a.kind, given, a.it), ('c', a.axis)], want, dict(num_split=n), must=a.kind == 'c' or a.opset >= 13)

# ------------------------------------------------------------------ shapes
def b_squeeze(a):
    r = a.r
    d = list(a.D)[:r]
    ax = sorted({q % r for q in a.axes})
    for q in ax: d[q] = 1
    attrs = dict(squeeze_dims=list(a.axes)) if a.axes or a.given else {}
    return K('Squeeze', [('x', d)], lambda ts: [F.squeezed(ts[0], ax)], attrs)
def b_squeeze_all(a):
    d = [1 if c == '1' else x + 1 for c, x in zip(a.ones, list(a.D))]
    ax = [k for k, c in enumerate(a.ones) if c == '1']
    return K('Squeeze', [('x', d)], lambda ts: [F.squeezed(ts[0], ax)], dict(squeeze_dims=[]) if a.given else {})
def b_expanddims(a):
    r = a.r
    ax = a.axis % (r + 1)
    v = {'s': a.axis, 'v': [a.axis]}[a.form[1]]
    return K('ExpandDims', [('x', list(a.D)[:r]), (a.form[0], v, a.it)], lambda ts: [T(ts[0].shape[:ax] + [1] + ts[0].shape[ax:], lambda idx: ts[0].at(idx[:ax] + idx[ax + 1:]))],
             must=a.form[0] == 'c' or a.opset >= 13)
def b_transpose(a):
    p = a.perm
    def want(ts):
        def at(idx):
            s = [None] * len(p)
            for k, q in enumerate(p): s[q] = idx[k]
            return ts[0].at(s)
        return [T([ts[0].shape[q] for q in p], at)]
    return K('Transpose', [('x', list(a.D)[:len(p)]), ('c', list(p), a.it)], want)
def group(d, w):
    """'AB' -> product of dimensions A and B, '1' -> 1"""
    r = 1
    for ch in w:
        if ch != '1': r = r * d['ABCD'.index(ch)]
    return r
def b_reshape(a):
    from pyvc import optsem as S
    d = list(a.D)
    src, dst, hole = a.pat
    inp = [group(d, w) for w in src]
    out = [group(d, w) for w in dst]
    tgt = [(-1 if k == hole else v) for k, v in enumerate(out)]
    def want(ts):
        t = ts[0]
        o, i = [zi(v) for v in out], [zi(v) for v in inp]
        return [T(out, lambda idx: t.at(S.renumber(idx, o, i)))]
    return K('Reshape', [('x', inp), (a.kind, tgt, a.it)], want)
def b_tile(a):
    r = a.r
    d, m = list(a.D)[:r], list(a.M)[:r]
    return K('Tile', [('x', d), (a.kind, m, a.it)], lambda ts: [T([x * y for x, y in zip(d, m)], lambda idx: ts[0].at([i % s for i, s in zip(idx, ts[0].shape)]))])
def b_broadcast(a):
    r = len(a.ones)
    d = list(a.D)
    src = [1 if c == '1' else d[k] for k, c in enumerate(a.ones)][a.drop:]
    out = d[:r]
    def want(ts):
        t = ts[0]
        return [T(out, lambda idx: t.at([z3.IntVal(0) if a.ones[a.drop + k] == '1' else idx[a.drop + k] for k in range(t.rank)]))]
    return K('BroadcastTo', [('x', src), (a.kind, out, a.it)], want)
def b_shape(a):
    t = TP[a.ot]
    def want(ts):
        sh = ts[0].shape
        def at(idx):
            v = sh[-1] if sh else z3.IntVal(0)
            for k in range(len(sh) - 2, -1, -1): v = z3.If(idx[0] == k, sh[k], v)
            return v
        return [T([len(sh)], at, 'int')]
    return K('Shape', [('x', list(a.D)[:a.r])], want, dict(out_type=t), types=[t])
def b_size(a):
    from pyvc import optsem as S
    t = TP[a.ot]
    return K('Size', [('x', list(a.D)[:a.r])], lambda ts: [T([], lambda idx: S.product(ts[0].shape), 'int')], dict(out_type=t), types=[t])
def b_fill(a):
    r = a.r
    d = list(a.D)[:r]
    return K('Fill', [(a.kind, d, a.it), (('x', []) if a.val == 'x' else ('v', 2.5))], lambda ts: [T(d, lambda idx: ts[1].at([]))], must=a.opset >= 11 or a.val == 'v')
def b_zeros(a): return K(a.op, [('x', list(a.D)[:a.r])], lambda ts: [T(ts[0].shape, lambda idx: z3.Const('const:%r' % (0.0 if a.op == 'ZerosLike' else 1.0), F.VAL))])

# ------------------------------------------------------------------ indexing
def b_gather(a):
    r, q = a.r, a.q
    d, e = list(a.D)[:r], list(a.D)[4:4 + q]
    ax, b = a.axis % r, a.b + q if a.b < 0 else a.b
    for k in range(b): e[k] = d[k]
    ins = [('x', d), ('i', e, d[ax], TP[a.it])]
    if a.op == 'GatherV2': ins.append(('c', a.axis))
    def want(ts):
        t, ix = ts[:2]
        return [T(t.shape[:ax] + ix.shape[b:] + t.shape[ax + 1:], lambda idx: t.at(idx[:ax] + [ix.at(idx[:b] + idx[ax:ax + q - b])] + idx[ax + q - b:]))]
    return K(a.op, ins, want, dict(batch_dims=a.b) if a.op == 'GatherV2' else {}, must=b == 0 and a.b == 0 or a.opset >= 12)
def b_gathernd(a):
    r, q, k = a.r, a.q, a.k
    d, e = list(a.D)[:r], list(a.D)[4:4 + q]
    fs = []
    lead = [zi(x) for x in e]
    class IX: pass
    f = z3.Function('index:nd', *([F.I] * (q + 2)))
    def at(idx):
        v = z3.IntVal(0)
        for j in range(k - 1, -1, -1):
            w = f(*idx)
            c = z3.If(z3.And(w >= 0, w < zi(d[j])), w, 0)
            v = c if j == k - 1 else z3.If(idx[-1] == j, c, v)
        return v
    def want(ts):
        t, ix = ts[0], ts[1]
        return [T(ix.shape[:-1] + t.shape[k:], lambda idx: t.at([z3.simplify(ix.at(list(idx[:q]) + [z3.IntVal(j)])) for j in range(k)] + list(idx[q:])))]
    kk = K('GatherNd', [('x', d), ('i', e + [k], 1, TP[a.it])], want, must=a.opset >= 11)
    kk.fix = {1: at}
    kk.conc = {1: lambda rng: np.stack([rng.randint(0, int(v), [int(w) for w in e]) for v in d[:k]], -1)}
    return kk
def b_onehot(a):
    q = a.q
    ax = a.axis % (q + 1)
    d = list(a.D)[:q]
    n = a.depth if a.kind != 'x' else list(a.D)[5]
    dep = ('c', n) if a.kind == 'c' else ('r', n)
    def want(ts):
        ix = ts[0]
        return [T(ix.shape[:ax] + [n] + ix.shape[ax:], lambda idx: z3.If(ix.at(idx[:ax] + idx[ax + 1:]) == idx[ax], ts[2].at([]), ts[3].at([])))]
    if a.get('ic') is not None: return K('OneHot', [('c', a.ic, a.it.lower()), dep, ('x', []), ('x', [])], want, dict(axis=a.axis if a.axis != q else -1))
    kk = K('OneHot', [('i', d, 1, TP[a.it]), dep, ('x', []), ('x', [])], want, dict(axis=a.axis if a.axis != q else -1))
    f = z3.Function('index:any', *([F.I] * (q + 1)))
    kk.fix = {0: lambda idx: f(*idx)}   # any integer: a negative or too large index selects no position
    kk.conc = {0: lambda rng: rng.randint(-2, int(n) + 2, [int(v) for v in d])}
    return kk
def b_roll(a):
    r, axs = a.r, a.axes
    d = list(a.D)[:r]
    sh = list(a.S)[:len(axs)]
    def want(ts):
        t = ts[0]
        def at(idx):
            j = list(idx)
            for s, x in list(zip(sh, axs))[::-1]:
                x %= r
                m = zi(s) % t.shape[x]
                j[x] = z3.If(j[x] >= m, j[x] - m, j[x] - m + t.shape[x])
            return t.at(j)
        return [T(t.shape, at)]
    sc = len(axs) == 1 and a.scalar
    return K('Roll', [('x', d), (a.kind, sh[0] if sc else sh, a.it), ('c', axs[0] if sc else list(axs))], want)
def b_reverse(a):
    r = a.r
    axs = [q % r for q in a.axes]
    def want(ts):
        t = ts[0]
        return [T(t.shape, lambda idx: t.at([t.shape[k] - 1 - i if k in axs else i for k, i in enumerate(idx)]))]
    return K('ReverseV2', [('x', list(a.D)[:r]), ('c', list(a.axes), a.it)], want)
def b_revseq(a):
    r = a.r
    d = list(a.D)[:r]
    ta, ba = a.ta, a.ba
    kk = K('ReverseSequence', [('x', d), ('i', [d[ba]], d[ta] + 1, TP[a.it])], lambda ts: [F.reversed_sequence(ts[0], ts[1], ta, ba)], dict(seq_dim=ta, batch_dim=ba))
    kk.conc = {1: lambda rng: rng.randint(1, int(d[ta]) + 1, [int(d[ba])])}   # onnxruntime mishandles length 0
    return kk
def b_pad(a):
    r = a.r
    d = list(a.D)[:r]
    P = list(a.P)
    pads = [[P[2 * k], P[2 * k + 1]] for k in range(r)]
    if a.zero is not None: pads[a.zero % r] = [0, 0]
    ins = [('x', d), (a.kind, pads, a.it)]
    if a.op == 'PadV2': ins.append(('x', []) if a.kind == 'r' else ('v', 2.5) if a.dt == 1 else ('k', []))
    def want(ts):
        t = ts[0]
        sh = [p + s + q for s, (p, q) in zip(t.shape, [[zi(u) for u in w] for w in pads])]
        lo = [zi(w[0]) for w in pads]
        def at(idx):
            src = [i - l for i, l in zip(idx, lo)]
            if a.op == 'MirrorPad':
                off = 0 if a.mode == 'REFLECT' else 1
                j = []
                for s, n in zip(src, t.shape):
                    s = z3.If(s < 0, -s - off, s)
                    s = z3.If(s >= n, 2 * n - 2 + off - s, s)
                    j.append(s)
                return t.at(j)
            v = z3.Const('const:0.0', F.VAL) if a.op == 'Pad' else ts[2].at([])
            return z3.If(z3.And(*[z3.And(s >= 0, s < n) for s, n in zip(src, t.shape)]), t.at(src), v)
        return [T(sh, at)]
    attrs = dict(mode=a.mode) if a.op == 'MirrorPad' else {}
    return K(a.op, ins, want, attrs, must=a.kind == 'c' or a.opset >= 11)
def pre_pad(a):
    D, P = list(a.D), list(a.P)
    off = 1 if a.op == 'MirrorPad' and a.mode == 'REFLECT' else 0
    if a.dt != 1 and a.opset < 11: return False
    cs = [And(p >= 0, p < 10 ** 6) for p in P]
    if a.op == 'MirrorPad': cs += [And(P[2 * k] + off <= D[k], P[2 * k + 1] + off <= D[k]) for k in range(a.r)]
    return And(*cs)

# ------------------------------------------------------------------ blocks
def b_b2s(a):
    bl = a.block
    n = len(bl)
    d = list(a.D)
    r = a.r
    prod = int(np.prod(bl))
    N = d[0]
    dims = [N * prod] + d[1:r]
    C = list(a.C)
    crops = [[C[2 * k], C[2 * k + 1]] for k in range(n)]
    if a.zero: crops[0] = [crops[0][0], 0]
    if a.zero == 2: crops = [[0, 0] for _ in range(n)]
    def want(ts):
        t = ts[0]
        out = [N] + [d[1 + k] * bl[k] - crops[k][0] - crops[k][1] for k in range(n)] + d[1 + n:r]
        def at(idx):
            pos = [idx[1 + k] + zi(crops[k][0]) for k in range(n)]
            blk = z3.IntVal(0)
            for k in range(n): blk = blk * bl[k] + pos[k] % bl[k]
            return t.at([blk * zi(N) + idx[0]] + [p / bl[k] for k, p in enumerate(pos)] + list(idx[1 + n:]))
        return [T(out, at)]
    return K('BatchToSpaceND', [('x', dims), ('c', list(bl), a.it), (a.kind, crops, a.it)], want, must=a.opset >= 11 or r in (3, 4) and n == 2 and bl[0] == bl[1] and (a.kind == 'c' or a.opset >= 10))
def pre_b2s(a):
    D, C = list(a.D), list(a.C)
    n = len(a.block)
    return And(*([c >= 0 for c in C] + [d < 10 ** 6 for d in D] + [C[2 * k] + C[2 * k + 1] < D[1 + k] * a.block[k] for k in range(n)]))
def b_s2b(a):
    bl = a.block
    n, r, d = len(bl), a.r, list(a.D)
    C = list(a.C)
    # the padded size is block * d; the input has what the paddings leave
    pads = [[C[2 * k], C[2 * k + 1]] for k in range(n)]
    if a.zero: pads = [[0, 0] for _ in range(n)]
    dims = [d[0]] + [d[1 + k] * bl[k] - pads[k][0] - pads[k][1] for k in range(n)] + d[1 + n:r]
    def want(ts):
        t = ts[0]
        prod = int(np.prod(bl))
        out = [d[0] * prod] + [d[1 + k] for k in range(n)] + d[1 + n:r]
        def at(idx):
            blk, b = idx[0] / zi(d[0]), idx[0] % zi(d[0])
            offs, rem = [], blk
            for k in range(n):
                m = int(np.prod(bl[k + 1:])) if k + 1 < n else 1
                offs.append(rem / m if m > 1 else rem)
                rem = rem % m if m > 1 else z3.IntVal(0)
            pos = [idx[1 + k] * bl[k] + offs[k] - zi(pads[k][0]) for k in range(n)]
            inside = z3.And(*[z3.And(p >= 0, p < t.shape[1 + k]) for k, p in enumerate(pos)])
            return z3.If(inside, t.at([b] + pos + list(idx[1 + n:])), z3.Const('const:0.0', F.VAL))
        return [T(out, at)]
    return K('SpaceToBatchND', [('x', dims), ('c', list(bl), a.it), (a.kind, pads, a.it)], want, must=a.opset >= 11 or r in (3, 4) and n == 2 and bl[0] == bl[1] and a.kind == 'c')
def pre_s2b(a):
    D, C = list(a.D), list(a.C)
    n = len(a.block)
    return And(*([c >= 0 for c in C] + [d < 10 ** 6 for d in D] + [C[2 * k] + C[2 * k + 1] < D[1 + k] * a.block[k] for k in range(n)]))
def b_d2s(a):
    b, d = a.blk, list(a.D)
    N, H, W, C = d[:4]
    nhwc = a.df == 'NHWC'
    if a.op == 'DepthToSpace':
        dims = [N, H, W, C * (b * b)] if nhwc else [N, C * (b * b), H, W]
        def want(ts):
            t = ts[0]
            def at(i):
                n, y, x, c = i if nhwc else (i[0], i[2], i[3], i[1])
                s = ((y % b) * b + x % b) * zi(C) + c
                return t.at([n, y / b, x / b, s] if nhwc else [n, s, y / b, x / b])
            return [T([N, H * b, W * b, C] if nhwc else [N, C, H * b, W * b], at)]
    else:
        dims = [N, H * b, W * b, C] if nhwc else [N, C, H * b, W * b]
        def want(ts):
            t = ts[0]
            def at(i):
                n, y, x, c = i if nhwc else (i[0], i[2], i[3], i[1])
                blk, cc = c / zi(C), c % zi(C)
                return t.at([n, y * b + blk / b, x * b + blk % b, cc] if nhwc else [n, cc, y * b + blk / b, x * b + blk % b])
            return [T([N, H, W, C * (b * b)] if nhwc else [N, C * (b * b), H, W], at)]
    return K(a.op, [('x', dims)], want, dict(block_size=b, data_format=a.df), types=None)

# ------------------------------------------------------------------ reductions and the like
RED = {'Max': 'ReduceMax', 'Mean': 'ReduceMean', 'Min': 'ReduceMin', 'Prod': 'ReduceProd', 'Sum': 'ReduceSum'}
def b_reduce(a):
    r = a.r
    axs = sorted({q % r for q in a.axes})
    v = a.axes[0] if a.form[1] == 's' and len(a.axes) == 1 else list(a.axes)
    dyn_ok = a.opset >= (13 if a.op == 'Sum' else 18)
    return K(a.op, [('x', list(a.D)[:r]), (a.form[0], v, a.it)], lambda ts: [F.reduced(RED[a.op], ts[0], axs, a.keep) if axs else ts[0]], dict(keep_dims=a.keep), must=a.form[0] == 'c' or dyn_ok)
def b_allany(a):
    r = a.r
    axs = sorted({q % r for q in a.axes})
    v = a.axes[0] if a.form[1] == 's' and len(a.axes) == 1 else list(a.axes)
    return K(a.op, [('x', list(a.D)[:r]), (a.form[0], v, a.it)], lambda ts: [F.quantified(a.op, ts[0], axs, a.keep) if axs else ts[0]], dict(keep_dims=a.keep), must=a.form[0] == 'c' or a.opset >= 13)
def b_arg(a):
    r, ax = a.r, a.axis % a.r
    from pyvc import optspec as O
    t = TP[a.ot]
    def want(ts):
        x = ts[0]
        rest = [k for k in range(r) if k != ax]
        def at(idx):
            full = [z3.IntVal(0)] * r
            for k, i in zip(rest, idx): full[k] = i
            return O.fold('%s0' % a.op, [x.shape[ax]], lambda v: x.at(O.put(full, [ax], v)), F.I)
        return [T([x.shape[k] for k in rest], at, 'int')]
    return K(a.op, [('x', list(a.D)[:r]), ('c', a.axis)], want, dict(output_type=t), types=[t])
def b_cumsum(a):
    r = a.r
    return K('Cumsum', [('x', list(a.D)[:r]), (a.kind, a.axis, a.it)], lambda ts: [F.cumulated(ts[0], a.axis % r, a.ex, a.rev)], dict(exclusive=a.ex, reverse=a.rev))
def b_topk(a):
    r = a.r
    return K('TopKV2', [('x', list(a.D)[:r]), (a.kind, a.k if a.kind == 'c' else list(a.D)[5])], lambda ts: F.topked(ts[0], zi(a.k if a.kind == 'c' else list(a.D)[5]), r - 1), dict(sorted=1),
             types=[TP['FLOAT'], TP['INT32']], must=a.kind == 'c' or a.opset >= 10)
def b_softmax(a):
    from pyvc import optspec as O
    r = a.r
    def want(ts):
        t = ts[0]
        class N: type, name = a.op, 'n'
        def at(idx):
            sizes, lam, vs = O.family([t.shape[r - 1]], lambda v: t.at(O.put(idx, [r - 1], v)))
            f = z3.Function('%s/1' % a.op, *([F.I] * len(sizes) + [F.VAL, lam.sort(), F.VAL]))
            return f(*(sizes + [t.at(idx), lam]))
        return [T(t.shape, at)]
    return K(a.op, [('x', list(a.D)[:r])], want)
def b_matmul(a):
    M, Kd, N = list(a.D)[:3]
    B = list(a.D)[3:3 + a.r - 2]
    A2, B2 = ([Kd, M] if a.ta else [M, Kd]), ([N, Kd] if a.tb else [Kd, N])
    ba = [1 if c == '1' else x for c, x in zip(a.ba, B)] if a.ba is not None else B
    names = ('transpose_a', 'transpose_b') if a.op == 'MatMul' else ('adj_x', 'adj_y')
    def want(ts):
        def tr(t, f):
            return t if not f else T(t.shape[:-2] + [t.shape[-1], t.shape[-2]], lambda idx: t.at(list(idx[:-2]) + [idx[-1], idx[-2]]))
        return [F.matmuled(tr(ts[0], a.ta), tr(ts[1], a.tb))]
    return K(a.op, [('x', ba + A2), ('x' if a.kb == 'x' else 'k', B + B2)], want, {names[0]: a.ta, names[1]: a.tb}, must=a.known != 'none')
def b_addn(a):
    def want(ts):
        if a.dt == 1: return [F.sum_(None, None, ts)]
        r = ts[0]
        class N: attr = {}
        for t in ts[1:]:
            r.dt = a.dt
            r = F.add(None, N, [r, t])
        return [r]
    return K('AddN', [('x', list(a.D)[:2]) for _ in range(a.n)], want, dict(N=a.n))
def b_select(a):
    r = a.r
    d = list(a.D)[:r]
    def want(ts):
        c, x, y = ts
        t = F.truth
        if a.form == 'vec': return [T(x.shape, lambda idx: z3.If(t(c.at(idx[:1])), x.at(idx), y.at(idx)))]
        if a.form == 'scalar': return [T(x.shape, lambda idx: z3.If(t(c.at([])), x.at(idx), y.at(idx)))]
        return [T(x.shape, lambda idx: z3.If(t(c.at(idx)), x.at(idx), y.at(idx)))]
    cd = d[:1] if a.form == 'vec' else [] if a.form == 'scalar' else d
    return K(a.op, [('x', cd, TP['BOOL']), ('x', d), ('x', d)], want, must=a.opset >= 8)
def b_range(a):
    kd = a.kind
    d = list(a.S)
    return K('Range', [(kd, d[0], a.it), (kd, d[1], a.it), (kd, d[2], a.it)], lambda ts: [F.ranged(*[zi(x) for x in d])], types=[TP['INT32' if a.it == 'int32' else 'INT64']])

def axes_of(r): return list(range(-r, r))
def subsets(r, neg=True):
    out = []
    for n in range(r + 1):
        for c in itertools.combinations(range(r), n):
            out.append(tuple(c))
            if neg and n: out.append(tuple(q - r for q in c)); 
            if n > 1: out.append(tuple(c[::-1]))
    return out

def build_all():
    CS.clear()
    M, R, N, C, Gn, Ma = 'tf2onnx.onnx_opset.tensor:', 'tf2onnx.onnx_opset.reduction:', 'tf2onnx.onnx_opset.nn:', 'tf2onnx.onnx_opset.controlflow:', 'tf2onnx.onnx_opset.generator:', 'tf2onnx.onnx_opset.math:'
    D6 = dict(D=Ints(6, 1))
    it2 = OneOf(['int32', 'int64'])
    for r in (1, 2, 3):
        con('pack-rank%d' % r, M + 'Pack.version_1', b_pack, r=Const(r), n=OneOf([1, 2, 3]), axis=OneOf(list(range(-r - 1, r + 1))), dup=OneOf([False, True]), opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
        con('unpack-rank%d' % r, M + 'Unpack.version_1', b_unpack, r=Const(r), n=OneOf([1, 2, 3]), axis=OneOf(axes_of(r)), opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
        con('split-rank%d' % r, M + 'Split.version_1', b_split, r=Const(r), n=OneOf([1, 2, 3]), axis=OneOf(axes_of(r)), opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
        con('splitv-rank%d' % r, M + 'SplitV.version_1', b_splitv, r=Const(r), n=OneOf([1, 2, 3]), axis=OneOf(axes_of(r)), opset=OneOf([7, 11, 13, 18]), known=OneOf(KNOWN), hole=OneOf([None, 0, 1]), kind=OneOf(['c', 'r']), it=Const('int32'),
            S=Ints(3, 1), pre=lambda a: And(*[s < 10 ** 9 for s in list(a.S)]), **D6)
        con('concat-rank%d' % r, M + 'ConcatV2.version_1', b_concat, r=Const(r), axis=OneOf(axes_of(r)), parts=OneOf(['x', 'xx', 'x=', 'xkx', 'x0x', '0x', 'x0']), op=Const('ConcatV2'), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf([1, 6, 7]), D=Ints(8, 1))
        con('concat-old-rank%d' % r, M + 'Concat.version_1', b_concat, r=Const(r), axis=OneOf(axes_of(r)), parts=OneOf(['xx', 'x=', 'xkx']), op=Const('Concat'), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf([1, 6]), D=Ints(8, 1))
    for r in (1, 2, 3, 4):
        con('squeeze-rank%d' % r, M + 'Squeeze.version_1', b_squeeze, r=Const(r), axes=OneOf([s for s in subsets(r) if s]), given=Const(True), opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
        con('squeeze-all-rank%d' % r, M + 'Squeeze.version_1', b_squeeze_all, ones=OneOf([''.join(p) for p in itertools.product('1d', repeat=r)]), given=OneOf([True, False]), opset=OneOf(FEW), known=Const('all'), **D6)
        con('transpose-rank%d' % r, M + 'Transpose.version_1', b_transpose, perm=OneOf(list(itertools.permutations(range(r)))), it=it2, opset=OneOf([7, 13]), known=OneOf(KNOWN), **D6)
    for r in (0, 1, 2, 3):
        con('expanddims-rank%d' % r, M + 'ExpandDims.version_13', b_expanddims, r=Const(r), axis=OneOf(list(range(-r - 1, r + 1))), form=OneOf(['cs', 'cv', 'rs', 'rv']), it=it2, opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
        con('shape-rank%d' % r, M + 'Shape.version_1', b_shape, r=Const(r), ot=OneOf(['INT32', 'INT64']), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf([1, 6]), **D6)
        con('size-rank%d' % r, M + 'Size.version_1', b_size, r=Const(r), ot=OneOf(['INT32', 'INT64']), opset=OneOf(FEW), known=OneOf(KNOWN), **D6)
    pats = []
    for src, dst in (('A B C', 'AB C'), ('A B C', 'A BC'), ('A B C', 'ABC'), ('AB C', 'A B C'), ('A B', 'A B'), ('A B', 'B A'), ('A B C', 'C B A'), ('A B', 'A 1 B'), ('A 1 B', 'A B'), ('AB', 'A B'), ('A B C', 'A B C'), ('A', 'A'), ('A', '1 A'), ('A B C D', 'AB CD')):
        dst = tuple(dst.split())
        pats += [(tuple(src.split()), dst, h) for h in [None] + list(range(len(dst)))]
    for k in range(4):
        con('reshape-%d' % k, M + 'Reshape.version_5', b_reshape, pat=OneOf(pats[k::4]), kind=OneOf(['c', 'r']), it=it2, opset=OneOf([7, 8, 13]), known=OneOf(KNOWN), dt=OneOf([1, 6]), **D6)
    for r in (1, 2, 3):
        con('tile-rank%d' % r, M + 'Tile.version_1', b_tile, r=Const(r), kind=OneOf(['c', 'r']), it=it2, opset=OneOf(FEW), known=OneOf(KNOWN), M=Ints(3, 1), **D6)
        con('fill-rank%d' % r, Gn + 'Fill.version_9', b_fill, r=Const(r), kind=OneOf(['c', 'r']), val=OneOf(['x', 'v']), it=it2, opset=OneOf(ALL), known=OneOf(KNOWN), **D6)
        con('broadcast-rank%d' % r, M + 'BroadcastTo.version_8', b_broadcast, ones=OneOf([''.join(p) for p in itertools.product('1d', repeat=r)]), drop=OneOf(list(range(r))), kind=OneOf(['c', 'r']), it=it2, opset=OneOf([8, 11, 13]), known=OneOf(KNOWN), **D6)
    for r in (1, 2, 3):
        for q in (0, 1, 2):
            con('gather-rank%d-%d' % (r, q), M + 'Gather.version_1', b_gather, r=Const(r), q=Const(q), axis=Const(0), b=Const(0), op=Const('Gather'), it=OneOf(['INT32', 'INT64']), opset=OneOf([7, 11, 13]), known=OneOf(KNOWN), **D6)
            con('gatherv2-rank%d-%d' % (r, q), M + 'GatherV2.version_12', b_gather, r=Const(r), q=Const(q), axis=OneOf(axes_of(r)), b=OneOf(list(range(min(r, q + 1))) + list(range(-q, 0))), op=Const('GatherV2'), it=OneOf(['INT32', 'INT64']), opset=OneOf([7, 11, 12, 13, 18]), known=OneOf(KNOWN),
                pre=lambda a: a.axis % a.r >= (a.b + a.q if a.b < 0 else a.b), **D6)
        for q in (0, 1, 2):
            con('gathernd-rank%d-%d' % (r, q), M + 'GatherND.version_11', b_gathernd, r=Const(r), q=Const(q), k=OneOf(list(range(1, r + 1))), it=OneOf(['INT32', 'INT64']), opset=OneOf([11, 13]), known=OneOf(KNOWN), **D6)
    for q in (0, 1, 2):
        con('onehot-rank%d' % q, M + 'OneHot.version_9', b_onehot, q=Const(q), axis=OneOf(list(range(-1, q + 1))), kind=OneOf(['c', 'r', 'x']), depth=Const(3), it=OneOf(['INT32', 'INT64']), opset=OneOf([9, 11, 13]), known=OneOf(KNOWN), **D6)
    con('onehot-const', M + 'OneHot.version_9', b_onehot, q=Const(1), axis=OneOf([-1, 0, 1]), kind=OneOf(['c', 'r']), depth=Const(3), ic=OneOf([[0, 2, 1], [-1, 0, 2], [1, 3, -3], [0]]), it=OneOf(['INT32', 'INT64']), opset=OneOf([9, 11, 13]), known=OneOf(KNOWN), **D6)
    for r in (1, 2, 3):
        con('roll-rank%d' % r, M + 'Roll.version_10', b_roll, r=Const(r), axes=OneOf([(q,) for q in axes_of(r)] + [c for c in itertools.product(axes_of(r), repeat=2)] if r < 3 else [(0,), (-1,), (2, 0), (-3, -2), (1, 1)]), scalar=OneOf([True, False]),
            kind=OneOf(['c', 'r']), it=it2, opset=OneOf([10, 13, 18]), known=OneOf(KNOWN), S=Ints(2), **D6)
        con('reverse-rank%d' % r, M + 'ReverseV2.version_10', b_reverse, r=Const(r), axes=OneOf(subsets(r)), it=it2, opset=OneOf([10, 11, 13]), known=OneOf(KNOWN), **D6)
        for op in ('Pad', 'PadV2', 'MirrorPad'):
            con('%s-rank%d' % (op.lower(), r), N + 'Pad.version_1', b_pad, pre_pad, r=Const(r), op=Const(op), mode=OneOf(['REFLECT']) if op == 'MirrorPad' else Const(''), kind=OneOf(['c', 'r']), it=it2, zero=OneOf([None, 0, -1]) if r > 1 else Const(None),
                opset=OneOf([7, 10, 11, 13, 18]), known=OneOf(KNOWN), P=Ints(2 * r), dt=OneOf([1, 6, 2]) if op == 'PadV2' else Const(1), **D6)
    for r in (2, 3, 4):
        con('reversesequence-rank%d' % r, M + 'ReverseSequence.version_10', b_revseq, r=Const(r), ta=OneOf(list(range(r))), ba=OneOf(list(range(r))), it=OneOf(['INT32', 'INT64']), opset=OneOf([10, 11, 13]), known=OneOf(KNOWN), pre=lambda a: a.ta != a.ba, **D6)
    for r, bls in ((4, [(2, 2), (3, 3), (1, 1), (2, 3), (2,), (3,)]), (3, [(2, 2), (2,), (3, 2), (3, 3)]), (2, [(2,), (3,)]), (5, [(2, 1, 3)])):
        for bl in bls:
            con('batchtospace-rank%d-%s' % (r, 'x'.join(map(str, bl))), M + 'BatchToSpace.version_1', b_b2s, pre_b2s, r=Const(r), block=Const(bl), kind=OneOf(['c', 'r']), zero=OneOf([0, 1, 2]), it=it2, opset=OneOf([7, 10, 11, 13, 18]), known=OneOf(KNOWN), C=Ints(6), **D6)
            con('spacetobatch-rank%d-%s' % (r, 'x'.join(map(str, bl))), M + 'SpaceToBatch.version_1', b_s2b, pre_s2b, r=Const(r), block=Const(bl), kind=OneOf(['c', 'r']), zero=OneOf([0, 1]), it=it2, opset=OneOf([7, 10, 11, 13, 18]), known=OneOf(KNOWN), C=Ints(6), **D6)
    for op in ('DepthToSpace', 'SpaceToDepth'):
        con(op.lower(), N + op + '.version_1', b_d2s, op=Const(op), blk=OneOf([2, 3]), df=OneOf(['NHWC', 'NCHW']), opset=OneOf([7, 11, 13]), known=OneOf(KNOWN), **D6)
    for r in (1, 2, 3):
        for op in RED:
            con('%s-rank%d' % (op.lower(), r), R + 'ReduceOpBase.version_18', b_reduce, r=Const(r), op=Const(op), axes=OneOf(subsets(r)), keep=OneOf([0, 1]), form=OneOf(['cv', 'cs', 'rv', 'rs']), it=it2, opset=OneOf([7, 11, 13, 18]), known=OneOf(KNOWN),
                pre=lambda a: a.form[1] == 'v' or len(a.axes) == 1, **D6)
        for op in ('All', 'Any'):
            con('%s-rank%d' % (op.lower(), r), R + 'AllAny.version_13', b_allany, r=Const(r), op=Const(op), axes=OneOf(subsets(r)), keep=OneOf([0, 1]), form=OneOf(['cv', 'cs', 'rv', 'rs']), it=it2, opset=OneOf([7, 11, 13, 18]), known=OneOf(KNOWN), dt=Const(9),
                pre=lambda a: a.form[1] == 'v' or len(a.axes) == 1, **D6)
        for op in ('ArgMax', 'ArgMin'):
            con('%s-rank%d' % (op.lower(), r), R + 'ArgMax.version_1', b_arg, r=Const(r), op=Const(op), axis=OneOf(axes_of(r)), ot=OneOf(['INT32', 'INT64']), opset=OneOf([7, 11, 12, 13]), known=OneOf(KNOWN), **D6)
        con('cumsum-rank%d' % r, Ma + 'CumSum.version_11', b_cumsum, r=Const(r), axis=OneOf(axes_of(r)), ex=OneOf([0, 1]), rev=OneOf([0, 1]), kind=OneOf(['c', 'r']), it=it2, opset=OneOf([11, 13]), known=OneOf(KNOWN), **D6)
        con('topk-rank%d' % r, M + 'TopKV2.version_10', b_topk, r=Const(r), kind=OneOf(['c', 'r']), k=Const(2), opset=OneOf([7, 10, 11, 13]), known=OneOf(KNOWN), **D6)
        for op in ('Softmax', 'LogSoftmax'):
            con('%s-rank%d' % (op.lower(), r), Ma + 'Softmax.version_1', b_softmax, r=Const(r), op=Const(op), opset=OneOf([7, 11, 13]), known=OneOf(KNOWN), **D6)
    con('matmul', Ma + 'MatMul.version_1', b_matmul, r=Const(2), op=Const('MatMul'), ta=OneOf([0, 1]), tb=OneOf([0, 1]), ba=Const(None), kb=OneOf(['x', 'k']), opset=OneOf([7, 13]), known=OneOf(KNOWN + ['none']), **D6)
    for r in (2, 3, 4):
        con('batchmatmul-rank%d' % r, Ma + 'MatMul.version_1', b_matmul, r=Const(r), op=OneOf(['BatchMatMul', 'BatchMatMulV2']), ta=OneOf([0, 1]), tb=OneOf([0, 1]), ba=OneOf([None, '1' * (r - 2)]), kb=OneOf(['x', 'k']), opset=OneOf([7, 13]), known=OneOf(KNOWN + ['none']), **D6)
    con('addn', R + 'AddN.version_6', b_addn, n=OneOf([1, 2, 3]), opset=OneOf([7, 8, 13]), known=OneOf(KNOWN), dt=OneOf([1, 6, 7]), **D6)
    for r in (1, 2, 3):
        con('select-rank%d' % r, C + 'Select.version_9', b_select, r=Const(r), op=Const('Select'), form=OneOf(['same', 'vec', 'scalar']), opset=OneOf([9, 13]), known=OneOf(KNOWN), dt=OneOf([1, 10, 6]), **D6)
        con('selectv2-rank%d' % r, C + 'Select.version_9', b_select, r=Const(r), op=Const('SelectV2'), form=OneOf(['same', 'scalar']), opset=OneOf([9, 13]), known=OneOf(KNOWN), dt=OneOf([1, 10, 6]), **D6)
    con('range', C + 'Range.version_11', b_range, lambda a: And(list(a.S)[2] != 0), kind=OneOf(['c', 'r']), it=it2, opset=OneOf([11, 13]), known=Const('all'), S=Ints(3), **D6)
    return CS

def contracts(tier='quick'):
    out = []
    for name, fn, build, pre, cover, limit, timeout, p in build_all():
        c = Contract(name, fn, p, F.post, pre or (lambda a: True), modes=('sized',), covers=cover, call=F.runner(build), timeout=timeout)
        c.no_concrete, c.limit, c.build = True, limit, build
        out.append(c)
    return out

def replay(cn, args):
    from pyvc.net import run_case
    from props import C15net
    c = next(q for q in contracts() if q.name == cn)
    rng = np.random.RandomState(1)
    for known in (args.get('known'), 'some', 'rank'):
        a = A(args)
        a['known'] = known
        q = C15net.case(c.build(a), a, cn, rng, a.opset)
        if q is None: return None
        st, txt = run_case(q)
        if st == 'bad': return '%s  [%s]' % (txt, q.desc)
    return None

def bounded(tier, seed, shard, nshards, R):
    from pyvc.net import run_net
    from props import C15net
    rng = np.random.RandomState(seed * 1000 + shard)
    run_net(R, C15net.cases(rng, tier, contracts(), net_only()), limit=2500 if tier == 'quick' else 20000)

def net_only():
    """contracts checked by the bounded net alone"""
    none = lambda ts: []
    out = []
    def add(name, fn, build, pre=None, **p):
        p = dict(p, D=Ints(6, 1))
        c = Contract(name, fn, p, F.post, pre or (lambda a: True), modes=('sized',), call=F.runner(build))
        c.no_concrete, c.limit, c.build = True, 1, build
        out.append(c)
    M, G, Ma, N = 'tf2onnx.onnx_opset.tensor:', 'tf2onnx.onnx_opset.generator:', 'tf2onnx.onnx_opset.math:', 'tf2onnx.onnx_opset.nn:'
    it2 = OneOf([6, 7])
    def b_scatter(a):
        d = list(a.D)
        k = a.k                                            # length of an index
        upd = d[:1] + d[2:2 + a.r - k]
        shape = [z + 3 for z in d[3:3 + k]] + d[2:2 + a.r - k]
        bound = min(int(z) for z in shape[:k])
        n = int(d[0])
        def ids(rng):
            v = rng.randint(0, bound, (n, k))
            if a.dup and a.opset >= 16: return v
            flat = rng.permutation(bound ** k)
            return np.stack(np.unravel_index(flat[np.arange(n) % len(flat)], (bound,) * k), 1)
        q = {'ScatterNd': lambda: K('ScatterNd', [('i', [n, k], bound, a.it), ('x', upd), ('c', [int(z) for z in shape], np.int32 if a.it == 6 else np.int64)], none),
             'TensorScatterUpdate': lambda: K('TensorScatterUpdate', [('x', shape), ('i', [n, k], bound, a.it), ('x', upd)], none),
             'TensorScatterAdd': lambda: K('TensorScatterAdd', [('x', shape), ('i', [n, k], bound, a.it), ('x', upd)], none)}[a.op]()
        j = 0 if a.op == 'ScatterNd' else 1
        q.conc = {j: ids}
        q.must = a.op != 'TensorScatterAdd' or a.opset >= 16
        return q
    def distinct(a):
        d = [int(z) for z in list(a.D)]
        k = a.k
        bound = min([z + 3 for z in d[3:3 + k]])
        return d[0] <= bound ** k and (a.op != 'TensorScatterUpdate' or not a.dup)
    for op in ('ScatterNd', 'TensorScatterUpdate', 'TensorScatterAdd'):
        for r in (1, 2, 3):
            add('%s-rank%d' % (op.lower(), r), M + 'ScatterND.version_11', b_scatter, distinct, op=Const(op), r=Const(r), k=OneOf(list(range(1, r + 1))), dup=OneOf([0, 1]), it=it2, known=Const('all'), opset=OneOf([16, 18] if 'Add' in op else [11, 13, 16, 18]), dt=OneOf([1, 6]))
    def b_invert(a):
        n = int(list(a.D)[0]) + 1
        q = K('InvertPermutation', [('i', [n], n, a.it)], none)
        q.conc = {0: lambda rng: rng.permutation(n)}
        return q
    add('invertpermutation', Ma + 'InvertPermutationOp.version_11', b_invert, it=it2, known=OneOf(KNOWN), opset=OneOf([11, 13, 18]))
    def b_sym(a):
        d = [int(z) + 3 for z in list(a.D)[:a.r]]
        P = [min(int(z), 3) for z in list(a.P)]
        return K('MirrorPad', [('x', d), ('c', [[P[2 * k], P[2 * k + 1]] for k in range(a.r)])], none, dict(mode='SYMMETRIC'), must=a.opset >= 11)
    for r in (1, 2, 3): add('mirrorpad-symmetric-rank%d' % r, N + 'Pad.version_11', b_sym, r=Const(r), known=OneOf(KNOWN), opset=OneOf([11, 13, 18]), P=Ints(2 * r))
    def b_where(a): return K('Where', [('x', list(a.D)[:a.r], TP['BOOL'])], none)
    for r in (1, 2, 3): add('where-rank%d' % r, 'tf2onnx.onnx_opset.controlflow:Where.version_9', b_where, r=Const(r), known=OneOf(KNOWN), opset=OneOf([9, 11, 13]))
    def b_fill0(a): return K('Fill', [('c', [], np.int32 if a.it == 6 else np.int64), ('x', [])], none, must=a.opset >= 11)
    add('fill-rank0', G + 'Fill.version_9', b_fill0, it=it2, known=Const('all'), opset=OneOf([9, 11, 13]), dt=OneOf([1, 6]))
    def b_onehot(a):
        d = list(a.D)[:a.q]
        return K('OneHot', [('i', d, 6, a.it, -3), ('c', a.depth), ('c', a.on, a.np), ('c', a.off, a.np)], none, dict(axis=a.axis), must=a.q == 1)
    for q in (0, 1, 2): add('onehot-values-rank%d' % q, M + 'OneHot.version_9', b_onehot, lambda a: a.axis <= a.q, q=Const(q), axis=OneOf([-1, 0, 1]), depth=OneOf([1, 3]), on=OneOf([1, 0, 5]), off=OneOf([0, 1, 2]), np=OneOf([np.float32, np.int32, np.bool_]), it=it2, known=OneOf(KNOWN), opset=OneOf([9, 11, 13]))
    return out
