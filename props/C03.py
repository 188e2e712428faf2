"""C03: slices select exactly the elements TensorFlow selects."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, VList, Unsupported, ctx, zi as _zi

def zi(x): return x if z3.is_expr(x) else _zi(x)

LEVEL = 'proof'
PROOF_SHARDS = 6
BOUNDED_SHARDS = 3
TRUSTED = ['CPython executing the instrumented handlers', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2',
           'denotations of Slice, Squeeze, Unsqueeze, Gather, Where, Less, Equal, And, Max, Add, Cast, Identity (pyvc/denote.py)']
ASSUMPTIONS = ['TensorFlow strided_slice semantics per axis as published (begin/end canonicalised and clamped by the sign of the stride)',
               'slice bounds and dimensions stay below 10^9, and below 2^24 where the bounds are computed at run time and pass through float32 (opset below 12)',
               'a negative stride that starts before the first element is excluded from the proof (known finding, reported by the bounded net)',
               'python ints are mathematical integers (exact); attribute protobufs hold 64-bit values']
EXPLANATION = ('the real handlers of Slice and StridedSlice are executed with every dimension, begin, end and stride symbolic, for every arrangement of range / shrink / new-axis / '
               'ellipsis entries of up to two entries (three over a reduced alphabet) and constant or run-time bounds; the emitted operators, taken by their index-level meaning, must produce '
               'the TensorFlow shape and the TensorFlow element at every index')
BOUNDED_NOTE = ('models_*: generated StridedSlice and Slice models with every mask, junk in masked entries, run-time bounds and opsets 7-18, converted end to end, run with onnxruntime and compared with TensorFlow')

BIG = 10 ** 9
ENTRY = ['r', 'rb', 're', 'rbe', 's', 'n', 'E']       # range with begin / end masked, shrink, new axis, ellipsis

def specs3():
    out = []
    for n in (1, 2):
        out += [t for t in itertools.product(ENTRY, repeat=n) if t.count('E') <= 1]
    return out
def specs_long():
    return [t for t in itertools.product(['r', 'rbe', 's', 'n', 'E'], repeat=3) if t.count('E') <= 1]

def masks_of(spec):
    m = dict(begin_mask=0, end_mask=0, ellipsis_mask=0, new_axis_mask=0, shrink_axis_mask=0)
    for k, e in enumerate(spec):
        b = 1 << k
        if e == 's': m['shrink_axis_mask'] |= b
        elif e == 'n': m['new_axis_mask'] |= b
        elif e == 'E': m['ellipsis_mask'] |= b
        else:
            if 'b' in e: m['begin_mask'] |= b
            if 'e' in e: m['end_mask'] |= b
    return m

def axis_of(spec, rank):
    """axis each entry acts on (None for new axes and the ellipsis), and the order of output axes"""
    used = sum(e in ('r', 'rb', 're', 'rbe', 's') for e in spec)
    gap = rank - used
    ax, k, order = [], 0, []
    for i, e in enumerate(spec):
        if e == 'E':
            ax.append(None)
            for _ in range(gap):
                order.append(('full', k)); k += 1
        elif e == 'n':
            ax.append(None); order.append(('new', None))
        else:
            ax.append(k)
            order.append(('shrink' if e == 's' else 'range', (k, i)))
            k += 1
    while k < rank:
        order.append(('full', k)); k += 1
    return ax, order

def tf_axis(d, b, e, s, bm, em):
    """TensorFlow: (first, count) on one axis"""
    from pyvc.denote import ceil_div_span
    lo, hi = z3.If(s > 0, z3.IntVal(0), z3.IntVal(-1)), z3.If(s > 0, d, d - 1)
    can = lambda x: (lambda y: z3.If(y < lo, lo, z3.If(y > hi, hi, y)))(z3.If(x < 0, x + d, x))
    first = z3.If(s > 0, z3.IntVal(0), d - 1) if bm else can(b)
    last = z3.If(s > 0, d, z3.IntVal(-1)) if em else can(e)
    return z3.simplify(first), ceil_div_span(last - first, s)

def graph(a, op, names, attr, out_rank):
    from pyvc import symenv
    from pyvc.symenv import SArr, VAL, mkgraph
    if not getattr(symenv, '_done', False):
        symenv.install()
        symenv._done = True
    from onnx import TensorProto as TP
    D = list(a.D)
    Xf = z3.Function('X', *([z3.IntSort()] * len(D)), VAL)
    n = len(list(a[names[0]]))
    ph, consts, ins, env = [('x:0', TP.FLOAT, D)], [], ['x:0'], {}
    it = TP.INT64 if a.get('i64') else TP.INT32
    for k in names:
        vals = list(a[k])
        if k in a.dyn:
            ph.append((k + ':0', it, [n]))
            env[k + ':0'] = vals
        else:
            consts.append((k + ':0', SArr(vals, np.int64 if a.get('i64') else np.int32)))
        ins.append(k + ':0')
    g, made = mkgraph(a.opset, ph, consts, [(op, 'node', ins, ['node:0'], attr, [[-1] * out_rank], [TP.FLOAT])], ['node:0'])
    return g, made['node'], Xf, env

def run_strided(f, a):
    ax, order = axis_of(a.spec, len(list(a.D)))
    g, node, X, env = graph(a, 'StridedSlice', ('b', 'e', 's'), masks_of(a.spec), sum(o[0] != 'shrink' for o in order))
    f(g, node)
    return g, X, env

def run_slice(f, a):
    g, node, X, env = graph(a, 'Slice', ('b', 'z'), {}, len(list(a.D)))
    f(g, node)
    return g, X, env

def semantics(a, r):
    from pyvc.denote import Sem, T
    g, X, env = r.value
    e = {'x:0': T([zi(d) for d in a.D], lambda ix: X(*ix))}
    for k, vals in env.items():
        zs = [zi(v) for v in vals]
        def at(ix, zs=zs):
            v = zs[-1]
            for j in range(len(zs) - 2, -1, -1):
                v = z3.If(ix[0] == j, zs[j], v)
            return z3.simplify(v)
        e[k] = T([len(zs)], at, 'int')
    sem = Sem(g, e, a.opset)
    return sem, sem.get('graph_out_node:0'), X

def post_strided(a, r, old):
    yield 'does not raise', r.exc is None
    if r.exc is not None:
        return
    from pyvc.denote import T, same
    sem, res, X = semantics(a, r)
    D, B, E, S = [[zi(v) for v in a[k]] for k in ('D', 'b', 'e', 's')]
    ax, order = axis_of(a.spec, len(D))
    shape, pick = [], [None] * len(D)
    for kind, w in order:
        if kind == 'new':
            shape.append(z3.IntVal(1))
        elif kind == 'full':
            pick[w] = ('i', len(shape), z3.IntVal(0), z3.IntVal(1))
            shape.append(D[w])
        elif kind == 'range':
            k, i = w
            first, cnt = tf_axis(D[k], B[i], E[i], S[i], 'b' in a.spec[i], 'e' in a.spec[i][1:])
            pick[k] = ('i', len(shape), first, S[i])
            shape.append(cnt)
        else:
            k, i = w
            pick[k] = ('c', z3.If(B[i] < 0, B[i] + D[k], B[i]))
    def at(ix):
        return X(*[p[1] if p[0] == 'c' else z3.simplify(p[2] + ix[p[1]] * p[3]) for p in pick])
    for nm, c in sem.side:
        yield nm, SBool(c)
    for nm, c in same('result', res, T(shape, at)):
        yield nm, SBool(c)

def pre_strided(a):
    D, cs = list(a.D), []
    B, E, S = list(a.b), list(a.e), list(a.s)
    ax, order = axis_of(a.spec, len(D))
    lim = 2 ** 24 if a.dyn and a.opset < 12 else BIG
    for i, e in enumerate(a.spec):
        cs += [S[i] != 0, B[i] > -lim, B[i] < lim, E[i] > -lim, E[i] < lim, S[i] > -lim, S[i] < lim]
        if e == 's':
            d = D[ax[i]]
            cs += [S[i] > 0, B[i] >= -d, B[i] < d]
        elif e in ('r', 're'):
            cs.append(Or(S[i] > 0, B[i] + D[ax[i]] >= 0))
        if 1 and ('s' in a.spec or True) and a.opset < 10:
            cs.append(S[i] == 1)
    return And(*(cs + [d < lim for d in D]))

def post_slice(a, r, old):
    yield 'does not raise', r.exc is None
    if r.exc is not None:
        return
    from pyvc.denote import T, same
    sem, res, X = semantics(a, r)
    D, B, Z = [[zi(v) for v in a[k]] for k in ('D', 'b', 'z')]
    shape = [z3.If(z == -1, d - b, z) for d, b, z in zip(D, B, Z)]
    for nm, c in sem.side:
        yield nm, SBool(c)
    for nm, c in same('result', res, T(shape, lambda ix: X(*[z3.simplify(i + b) for i, b in zip(ix, B)]))):
        yield nm, SBool(c)

def pre_slice(a):
    return And(*[And(d < 2 ** 31 - 1, b >= 0, b <= d, z >= -1, b + z <= d) for d, b, z in zip(list(a.D), list(a.b), list(a.z))])

class Ints(Dom):
    """as many integers as another argument's structure says"""
    def __init__(self, n, lo=None): self.n, self.lo = n, lo
    def sym(self, c, name, size): return VList([Int(lo=self.lo).sym(c, '%s%d' % (name, k), size) for k in range(self.n)])
    def enum(self): return [[]]
    def decode(self, v):
        ds = [Int().decode(e) for e in list.__iter__(v)]
        return lambda m: [d(m) for d in ds]

def contracts():
    M = 'tf2onnx.onnx_opset.tensor:'
    out = []
    def con(name, fn, p, post, pre, call):
        c = Contract(name, M + fn, p, post, pre, modes=('sized',), covers=('returned',), call=call, timeout=15000)
        c.no_concrete, c.limit = True, 250
        out.append(c)
    def strided(spec, dyns, ops, i64=False):
        used = sum(e[0] in 'rs' for e in spec)
        for extra in ((0, 1, 2) if 'E' in spec else (0, 1)) if len(spec) < 3 else (1,):
            r = used + extra
            if r == 0 or not spec:
                continue
            p = dict(spec=Const(spec), opset=OneOf(ops), dyn=OneOf(dyns), i64=Const(i64), D=Ints(r, 1), b=Ints(len(spec)), e=Ints(len(spec)), s=Ints(len(spec)))
            con('strided-%s-rank%d' % ('.'.join(spec), r), 'StridedSlice.version_13', p, post_strided, pre_strided,
                lambda f, a: run_strided(f if a.opset >= 13 else handler(a.opset), a))
    for spec in specs3():
        strided(spec, ['', 'bes', 'b'] if len(spec) < 2 else ['', 'bes'], [10, 13, 18] if len(spec) < 2 else [10, 13])
    for spec in specs_long():
        strided(spec, ['', 'bes'], [11 if len(set(spec)) % 2 else 13])
    for spec in specs3():
        if 'n' not in spec:
            used = sum(e[0] in 'rs' for e in spec)
            for r in {max(1, used), used + 1}:
                p = dict(spec=Const(spec), opset=OneOf([7, 9]), dyn=Const(''), i64=Const(True), D=Ints(r, 1), b=Ints(len(spec)), e=Ints(len(spec)), s=Ints(len(spec)))
                con('strided-old-%s-rank%d' % ('.'.join(spec), r), 'StridedSlice.version_1', p, post_strided, pre_strided, run_strided)
    for r in (1, 2, 3):
        for i64 in (False, True):
            con('slice-rank%d-%s' % (r, 'int64' if i64 else 'int32'), 'Slice.version_10',
                dict(opset=OneOf([7, 9, 10, 11, 13, 18]), dyn=OneOf(['', 'b', 'z', 'bz']), i64=Const(i64), D=Ints(r, 1), b=Ints(r), z=Ints(r)),
                post_slice, lambda a: And(pre_slice(a), a.opset >= 10 or a.dyn == ''), run_slice)
    return out

def handler(opset):
    from tf2onnx.onnx_opset.tensor import StridedSlice
    return StridedSlice.version_10 if opset >= 10 else StridedSlice.version_1

def replay(cn, args):
    from pyvc.net import run_case
    from props import C03net
    a = A(args)
    D = a.D
    if int(np.prod([max(d, 0) for d in D])) > 20000 or any(d < 0 for d in D):
        return None
    c = C03net.make_slice(D, a.b, a.z, a.dyn, a.i64, a.opset) if cn.startswith('slice') else C03net.make_strided(D, a.b, a.e, a.s, masks_of(a.spec), a.dyn, a.i64, a.opset)
    st, txt = run_case(c)
    return '%s  [%s]' % (txt, c.desc) if st == 'bad' else None

def bounded(tier, seed, shard, nshards, R):
    from pyvc.net import run_net
    from props import C03net
    rng = np.random.RandomState(seed * 1000 + shard)
    run_net(R, C03net.cases(rng, tier), limit=2500 if tier == 'quick' else 20000)
