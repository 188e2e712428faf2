"""Contracts of operator handlers: one TensorFlow operator with symbolic dimensions, shape and index operands in a real Graph is
converted by the real handler the real registry selects for the opset; the emitted operators, taken by their index-level meaning,
have to produce TensorFlow's tensor, be allowed by the operator schemas of that opset (types, attributes) and carry right records."""
import numpy as np
from .z3load import z3
from .core import SInt, SBool, VList, Unsupported, ctx, zi, I
from .symenv import VAL, OpaqueArr, SArr, FakeTensor, zint, is_one
from . import symenv, denote, optspec as O, optsem as S
from .denote import T, Sem, const_ints, lit, same, bshape, bat

class K:
    """one converted operator.  ins: ('x', dims[, type]) data, ('i', dims, bound) run-time indices below bound, ('c', value[, np dtype]) constant
    integers, ('r', value[, np dtype]) run-time integers of these values, ('k', dims) constant data, ('=', j) the tensor of input j again"""
    def __init__(self, op, ins, want, attrs=None, types=None, outs=1, must=True):
        self.op, self.ins, self.want, self.attrs, self.types, self.outs, self.must = op, ins, want, attrs or {}, types, outs, must

def tp():
    from onnx import TensorProto as TP
    return TP
def vals_T(v):
    """integer tensor of given (nested list) value"""
    if not isinstance(v, (list, tuple)):
        z = zint(v)
        return T([], lambda idx: z, 'int')
    def flat(x): return [zint(x)] if not isinstance(x, (list, tuple)) else sum([flat(y) for y in x], [])
    def dims(x): return [] if not isinstance(x, (list, tuple)) else [len(x)] + (dims(x[0]) if len(x) else [])
    zs, ds = flat(v), dims(v)
    def at(idx):
        lin = z3.IntVal(0)
        for d, i in zip(ds, idx): lin = lin * d + i
        lin = z3.simplify(lin)
        r = zs[-1] if zs else z3.IntVal(0)
        for k in range(len(zs) - 2, -1, -1): r = z3.If(lin == k, zs[k], r)
        return z3.simplify(r)
    return T(ds, at, 'int')
def index_T(nm, dims, bound):
    """arbitrary integer tensor with elements in 0 .. bound-1"""
    dims = [zint(d) for d in dims]
    f = z3.Function('index:' + nm, *([I] * (len(dims) + 1)))
    b = zint(bound)
    return T(dims, lambda idx: z3.If(z3.And(f(*idx) >= 0, f(*idx) < b), f(*idx), 0), 'int')

# ------------------------------------------------------------------ operator schemas: types and attributes
_sch = {}
def schema(op, domain, opset):
    k = (op, domain, opset)
    if k not in _sch:
        import onnx
        try: _sch[k] = onnx.defs.get_schema(op, opset, domain or '')
        except Exception: _sch[k] = None
    return _sch[k]
def tname(t):
    from onnx import TensorProto as TP
    return 'tensor(%s)' % {1: 'float', 2: 'uint8', 3: 'int8', 4: 'uint16', 5: 'int16', 6: 'int32', 7: 'int64', 8: 'string', 9: 'bool', 10: 'float16', 11: 'double', 12: 'uint32', 13: 'uint64'}[int(t)]
def tnum(s):
    d = {'float': 1, 'uint8': 2, 'int8': 3, 'uint16': 4, 'int16': 5, 'int32': 6, 'int64': 7, 'string': 8, 'bool': 9, 'float16': 10, 'double': 11, 'uint32': 12, 'uint64': 13}
    return d.get(s[7:-1]) if s.startswith('tensor(') else None

class Sem15(S.Sem8):
    """reads only the attributes the operator has in this opset (the others are dropped when the model is written) and checks every node against its schema"""
    def attr(self, n, name, default=None):
        sc = schema(n.type, n.domain, self.opset)
        if sc is not None and name not in sc.attributes:
            return default
        return Sem.attr(self, n, name, default)
    def get(self, name):
        fresh = name not in self.env
        n = self.g.get_node_by_output(name) if name and fresh else None
        if n is not None and not n.is_const() and not n.is_graph_input():
            for i in n.input: self.get(i)
            if name not in self.env: self.check(n)
        return S.Sem8.get(self, name)
    def check(self, n):
        sc = schema(n.type, n.domain, self.opset)
        self.need('%s exists in the opset' % n.type, z3.BoolVal(sc is not None))
        if sc is None: raise Unsupported('no operator %s in opset %d' % (n.type, self.opset))
        ins = list(n.input)
        self.need('%s: number of inputs' % n.type, z3.BoolVal(sc.min_input <= len(ins) <= sc.max_input))
        self.need('%s: number of outputs' % n.type, z3.BoolVal(sc.min_output <= len(n.output) <= sc.max_output))
        cons = {c.type_param_str: set(c.allowed_type_strs) for c in sc.type_constraints}
        bound = {}
        for k, i in enumerate(ins):
            if not i or not sc.inputs: continue
            p = sc.inputs[min(k, len(sc.inputs) - 1)]
            t = self.env[i].dt
            if t is None: continue
            s = tname(t)
            ok = s in cons[p.type_str] if p.type_str in cons else s == p.type_str
            self.need('%s: input %d may have its type' % (n.type, k), z3.BoolVal(ok))
            if p.type_str in cons and p.is_homogeneous:
                self.need('%s: inputs of one type parameter agree' % n.type, z3.BoolVal(bound.setdefault(p.type_str, t) == t))
        for k, v in sc.attributes.items():
            if v.required: self.need('%s: attribute %s is set' % (n.type, k), z3.BoolVal(n.get_attr(k) is not None))
        if n.type == 'Cast':
            n_to = n.get_attr('to')
            d = [int(n_to.i) if n_to is not None else None]
        elif n.type in ('ConstantOfShape',):
            v = n.get_attr('value')
            d = [v.value().data_type if v is not None and hasattr(v.value(), 'data_type') else tp().FLOAT]
        else:
            d = []
            for k in range(len(n.output)):
                p = sc.outputs[min(k, len(sc.outputs) - 1)]
                only = cons.get(p.type_str)
                d.append(bound[p.type_str] if p.type_str in bound else tnum(p.type_str) if only is None else tnum(list(only)[0]) if len(only) == 1 else None)
        for o, t in zip(n.output, d): self.dts[o] = t
    dts, drops = None, True
    def type_of(self, name):
        n = self.g.get_node_by_output(name)
        if n is not None and n.is_const():
            return n.get_attr('value').t.data_type
        return self.dts.get(name)
    def __init__(self, *p, **k):
        self.dts = {}
        S.Sem8.__init__(self, *p, **k)

# ------------------------------------------------------------------ meanings used by converted operators
def cast(s, n, x):
    """conversions are exact on the values concerned (assumption)"""
    a = x[0]
    TP = tp()
    to = int(s.attr(n, 'to'))
    if a.sort == 'val' and a.dt == TP.BOOL and to != TP.BOOL:
        r = T(a.shape, lambda idx: OF_BOOL(a.at(idx)))
        r.bools = lambda idx: truth(a.at(idx))
    else:
        r = T(a.shape, a.at, a.sort)
        if getattr(a, 'flat', None) is not None: r.flat, r.total = a.flat, a.total
    r.dt = to
    return r
def reduce_(s, n, x):
    a = x[0]
    kind = n.type
    noop = int(s.attr(n, 'noop_with_empty_axes', 0))
    since = 13 if kind == 'ReduceSum' else 18
    if len(x) > 1 and x[1] is not None:
        s.need('%s: axes given as an input need opset %d' % (kind, since), z3.BoolVal(s.opset >= since))
        ax = [lit(z, 'axes') for z in const_ints(x[1], 'axes')]
    else:
        ax = s.attr(n, 'axes')
        ax = None if ax is None else [int(v) for v in ax]
    if not ax:
        if noop:
            r = T(a.shape, a.at, a.sort)
            if getattr(a, 'bools', None) is not None: r.positive = a.bools
            return r
        ax = list(range(a.rank))
    ok = all(-a.rank <= v < a.rank for v in ax) and len({v % a.rank for v in ax}) == len(ax)
    s.need('%s: axes in range and distinct' % kind, z3.BoolVal(ok))
    if not ok: raise Unsupported('ill-formed %s' % kind)
    if s.opset < 11: s.need('%s: negative axes need opset 11' % kind, z3.BoolVal(all(v >= 0 for v in ax)))
    keep = int(s.attr(n, 'keepdims', 1))
    r = reduced(kind, a, sorted(v % a.rank for v in ax), keep)
    if getattr(a, 'bools', None) is not None and kind in ('ReduceSum', 'ReduceMax', 'ReduceMin'):
        # a sum or maximum of zeros and ones is positive when one of them is 1, a minimum when all are
        r.positive = exists_over(T(a.shape, a.bools), sorted(v % a.rank for v in ax), keep, kind == 'ReduceMin')
    return r
TRUE, FALSE = z3.Const('const:True', VAL), z3.Const('const:False', VAL)
def of_cond(c):
    """the Bool valued element (which is nothing but True or False)"""
    c = z3.simplify(c)
    return c.arg(0) if z3.is_app(c) and z3.eq(c.decl(), TRUTH) else z3.If(c, TRUE, FALSE)
def exists_over(b, ax, keep, every):
    """function: index -> does the (Bool valued) tensor hold somewhere (everywhere) along the axes"""
    rest = [k for k in range(b.rank) if k not in ax]
    def at(idx):
        full = [z3.IntVal(0)] * b.rank
        for k, i in zip(range(b.rank) if keep else rest, idx): full[k] = i
        sizes, lam, vs = O.family([b.shape[k] for k in ax], lambda v: z3.simplify(z3.Not(b.at(O.put(full, ax, v))) if every else b.at(O.put(full, ax, v))))
        f = z3.Function('exists/%d' % len(sizes), *([I] * len(sizes) + [lam.sort(), z3.BoolSort()]))
        r = f(*(sizes + [lam]))
        return z3.Not(r) if every else r
    return at
def quantified(op, a, ax, keep):
    at = exists_over(T(a.shape, lambda idx: truth(a.at(idx))), ax, keep, op == 'All')
    return T([z3.IntVal(1) if k in ax else a.shape[k] for k in range(a.rank)] if keep else [a.shape[k] for k in range(a.rank) if k not in ax], lambda idx: of_cond(at(idx)))
def greater(s, n, x):
    pos = getattr(x[0], 'positive', None)
    zero = x[1].at([z3.IntVal(0)] * x[1].rank) if x[1].rank == 0 else None
    if pos is not None and zero is not None and zero.decl().name() in ('const:0.0', 'const:0'): return T(x[0].shape, lambda idx: of_cond(pos(idx)))
    return Sem.op_Greater(s, n, x) if x[0].sort == 'int' else denote.elementwise('Greater')(n, x)
def reduced(kind, a, ax, keep):
    dims = [a.shape[k] for k in ax]
    rest = [k for k in range(a.rank) if k not in ax]
    def at(idx):
        full = [z3.IntVal(0)] * a.rank
        for k, i in zip(range(a.rank) if keep else rest, idx): full[k] = i
        return O.fold(kind, dims, lambda v: a.at(O.put(full, ax, v)), VAL)
    if a.sort == 'int':
        n = [lit(d, 'size of a reduced integer tensor') for d in dims]
        import itertools
        def at(idx):
            full = [z3.IntVal(0)] * a.rank
            for k, i in zip(range(a.rank) if keep else rest, idx): full[k] = i
            vs = [a.at(O.put(full, ax, [z3.IntVal(q) for q in c])) for c in itertools.product(*[range(m) for m in n])]
            r = vs[0] if vs else z3.IntVal(1 if kind == 'ReduceProd' else 0)
            for v in vs[1:]:
                r = r * v if kind == 'ReduceProd' else r + v if kind == 'ReduceSum' else z3.If(r > v, r, v) if kind == 'ReduceMax' else z3.If(r < v, r, v)
            return z3.simplify(r)
    return T([z3.IntVal(1) if k in ax else a.shape[k] for k in range(a.rank)] if keep else [a.shape[k] for k in rest], at, a.sort)
def squeeze(s, n, x):
    a = x[0]
    if (len(x) < 2 or x[1] is None) and s.attr(n, 'axes') is None:
        ax = [k for k in range(a.rank) if is_one(a.shape[k])]
        for k in range(a.rank):
            if k not in ax: s.need('Squeeze: which dimensions are 1 is known', a.shape[k] != 1)
        return squeezed(a, ax)
    return S.keeps_view('Squeeze')(s, n, x)
def squeezed(a, ax):
    keep = [k for k in range(a.rank) if k not in ax]
    def at(idx):
        src = [z3.IntVal(0)] * a.rank
        for k, q in enumerate(keep): src[q] = idx[k]
        return a.at(src)
    return T([a.shape[k] for k in keep], at, a.sort)
def size(s, n, x):
    p = S.product(x[0].shape)
    return T([], lambda idx: p, 'int')
def nonneg(z):
    c = ctx()
    k = ('nn', z.get_id())
    if k not in c.memo: c.memo[k] = (c.check(z < 0) == z3.unsat, z)
    return c.memo[k][0]
def quot(p, q):
    """truncating integer division"""
    p, q = z3.simplify(p), z3.simplify(q)
    if S.positive(q) and nonneg(p): return S.divide([p], [q])
    return z3.If(p * q >= 0, z3.If(q > 0, p / q, (-p) / (-q)), -(z3.If(p < 0, -p, p) / z3.If(q < 0, -q, q)))
def div(s, n, x):
    a, b = x
    if a.sort != 'int': return denote.elementwise('Div')(n, x)
    return denote.broadcast2(a, b, quot)
def floor_mod(p, q):
    p, q = z3.simplify(p), z3.simplify(q)
    if S.positive(q): return z3.simplify(p % q)
    return z3.If(q > 0, p % q, -((-p) % (-q)))
def mod(s, n, x):
    a, b = x
    if a.sort != 'int': return denote.elementwise('Mod')(n, x)
    if int(s.attr(n, 'fmod', 0)): raise Unsupported('fmod')
    return denote.broadcast2(a, b, floor_mod)
def gather_nd(s, n, x):
    return gathered_nd(x[0], x[1], int(s.attr(n, 'batch_dims', 0)))
def gathered_nd(a, ix, b):
    k = lit(ix.shape[-1], 'last dimension of the indices')
    q = ix.rank
    def at(idx):
        first = idx[:q - 1]
        sel = []
        for j in range(k):
            v = ix.at(list(first) + [z3.IntVal(j)])
            d = a.shape[b + j]
            sel.append(z3.simplify(z3.If(v < 0, v + d, v)))
        return a.at(list(first[:b]) + sel + list(idx[q - 1:]))
    return T(ix.shape[:-1] + a.shape[b + k:], at, a.sort)
def reverse_sequence(s, n, x):
    a, ln = x
    return reversed_sequence(a, ln, int(s.attr(n, 'time_axis', 0)), int(s.attr(n, 'batch_axis', 1)), s)
def reversed_sequence(a, ln, ta, ba, s=None):
    if s is not None:
        s.need('ReverseSequence: axes', z3.BoolVal(sorted([ta, ba]) == [0, 1]))
        s.need('ReverseSequence: one length per batch element', z3.And(z3.BoolVal(ln.rank == 1), ln.shape[0] == a.shape[ba]))
    def at(idx):
        j = list(idx)
        l = ln.at([idx[ba]])
        j[ta] = z3.simplify(z3.If(idx[ta] < l, l - 1 - idx[ta], idx[ta]))
        return a.at(j)
    return T(a.shape, at, a.sort)
def d2s(s, n, x):
    a = x[0]
    b = int(s.attr(n, 'blocksize'))
    N, C, H, W = a.shape
    m = s.attr(n, 'mode', b'DCR')
    s.need('DepthToSpace: channels are a multiple of the square of the block', C % (b * b) == 0)
    Cb = S.divide([C], [z3.IntVal(b * b)])
    def at(i):
        by, bx = i[2] % b, i[3] % b
        c = (by * b + bx) * Cb + i[1] if m == b'DCR' else (i[1] * b + by) * b + bx
        return a.at([i[0], z3.simplify(c), i[2] / b, i[3] / b])
    return T([N, Cb, H * b, W * b], at, a.sort)
def s2d(s, n, x):
    a = x[0]
    b = int(s.attr(n, 'blocksize'))
    N, C, H, W = a.shape
    s.need('SpaceToDepth: sizes are multiples of the block', z3.And(H % b == 0, W % b == 0))
    def at(i):
        blk, c = i[1] / C, i[1] % C
        return a.at([i[0], c, i[2] * b + blk / b, i[3] * b + blk % b])
    return T([N, C * b * b, S.divide([H], [z3.IntVal(b)]), S.divide([W], [z3.IntVal(b)])], at, a.sort)
def one_hot(s, n, x):
    ix, dep, va = x
    ax = int(s.attr(n, 'axis', -1))
    r = ix.rank + 1
    s.need('OneHot: axis in range', z3.BoolVal(-r <= ax < r))
    ax %= r
    d = dep.at([z3.IntVal(0)] * dep.rank)
    def at(i):
        v = ix.at(i[:ax] + i[ax + 1:])
        v = z3.If(v < 0, v + d, v)
        return z3.If(v == i[ax], va.at([z3.IntVal(1)]), va.at([z3.IntVal(0)]))
    return T(ix.shape[:ax] + [d] + ix.shape[ax:], at, va.sort)
def cumsum(s, n, x):
    a = x[0]
    ax = lit(const_ints(x[1], 'axis')[0], 'axis')
    s.need('CumSum: axis in range', z3.BoolVal(-a.rank <= ax < a.rank))
    return cumulated(a, ax % a.rank, int(s.attr(n, 'exclusive', 0)), int(s.attr(n, 'reverse', 0)))
def cumulated(a, ax, ex, rev):
    def at(idx):
        v = z3.FreshInt('cum')
        lam = z3.Lambda([v], a.at(O.put(idx, [ax], O.inside([v], [a.shape[ax]]))))
        return z3.Function('cumsum%d%d' % (ex, rev), lam.sort(), I, I, VAL)(lam, a.shape[ax], idx[ax])
    return T(a.shape, at)
def topk(s, n, x):
    a = x[0]
    ax = int(s.attr(n, 'axis', -1))
    if s.opset < 10:
        k = zint(s.attr(n, 'k'))
    else:
        s.need('TopK: k is a one-element vector', z3.And(z3.BoolVal(x[1].rank == 1), x[1].shape[0] == 1) if x[1].rank == 1 else z3.BoolVal(False))
        k = x[1].at([z3.IntVal(0)] * x[1].rank)
    s.need('TopK: largest first', z3.BoolVal(int(s.attr(n, 'largest', 1)) == 1 and int(s.attr(n, 'sorted', 1)) == 1))
    return topked(a, k, ax % a.rank)
def topked(a, k, ax):
    sh = list(a.shape)
    sh[ax] = k
    def el(tag, sort):
        def at(idx):
            v = z3.FreshInt('top')
            lam = z3.Lambda([v], a.at(O.put(idx, [ax], O.inside([v], [a.shape[ax]]))))
            return z3.Function('topk:%s' % tag, lam.sort(), I, I, sort)(lam, a.shape[ax], idx[ax])
        return at
    return [T(sh, el('value', VAL)), T(sh, el('place', I), 'int')]
def matmul(s, n, x):
    a, b = x
    s.need('MatMul: ranks', z3.BoolVal(a.rank >= 1 and b.rank >= 1))
    return matmuled(a, b, s)
def matmuled(a, b, s=None):
    if a.rank < 2 or b.rank < 2: raise Unsupported('MatMul of vectors')
    if s is not None: s.need('MatMul: inner dimensions agree', a.shape[-1] == b.shape[-2])
    ba, bb = a.shape[:-2], b.shape[:-2]
    bs = bshape([ba, bb]) if ba or bb else []
    A, B = T(ba, None), T(bb, None)
    def at(idx):
        bi, (i, j) = list(idx[:-2]), idx[-2:]
        sel = lambda sh: (lambda t: bat(t, bi, bs))(T(sh, lambda q: list(q)))
        pa, pb = sel(ba) if ba else [], sel(bb) if bb else []
        return O.fold('matmul', [a.shape[-1]], lambda v: O.MUL2(a.at(pa + [i, v[0]]), b.at(pb + [v[0], j])), VAL)
    return T(bs + [a.shape[-2], b.shape[-1]], at)
def expand(s, n, x):
    if x[1].sort != 'int': return O.opaque(s, n, x)
    return Sem.op_Expand(s, n, x)
def range_(s, n, x):
    st, li, de = [t.at([]) for t in x]
    return ranged(st, li, de)
def ranged(st, li, de):
    cnt = denote.ceil_div_span(li - st, de)
    return T([cnt], lambda idx: st + idx[0] * de, 'int')
def hardmax_free(s, n, x): raise Unsupported(n.type)
def sum_(s, n, x):
    shp = bshape([t.shape for t in x])
    f = z3.Function('sum/%d' % len(x), *([VAL] * (len(x) + 1)))
    return T(shp, lambda idx: f(*[bat(t, idx, shp) for t in x]))
TRUTH, OF_BOOL, ZERO = z3.Function('truth', VAL, z3.BoolSort()), z3.Function('of_bool', VAL, VAL), z3.Const('const:0', VAL)
NOT = z3.Function('elem:Not', VAL, VAL)
def truth(v):
    if z3.is_app(v) and z3.eq(v.decl(), NOT): return z3.Not(truth(v.arg(0)))
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.eq(v.arg(1), TRUE) and z3.eq(v.arg(2), FALSE): return v.arg(0)
    return TRUTH(v)
def not_(s, n, x): return Sem.op_Not(s, n, x) if x[0].sort == 'int' else T(x[0].shape, lambda idx: negated(x[0].at(idx)))
def negated(v):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.eq(v.arg(1), TRUE) and z3.eq(v.arg(2), FALSE): return of_cond(z3.Not(v.arg(0)))
    return v.arg(0) if z3.is_app(v) and z3.eq(v.decl(), NOT) else NOT(v)
def is_ind(v): return z3.is_app(v) and z3.eq(v.decl(), OF_BOOL)
def exact_ints(t): return t.dt in (tp().INT8, tp().INT16, tp().INT32, tp().INT64, tp().UINT8, tp().UINT16, tp().UINT32, tp().UINT64)
def mul(s, n, x):
    """an integer times a truth value (0 or 1) is the integer or 0; on floating point it is not (inf, nan)"""
    if x[0].sort == 'int' and x[1].sort == 'int' or not exact_ints(x[0]): return Sem.op_Mul(s, n, x) if x[0].sort == 'int' else denote.elementwise('Mul')(n, x)
    shp = bshape([t.shape for t in x])
    f = z3.Function('elem:Mul()/2', VAL, VAL, VAL)
    def at(idx):
        p, q = [bat(t, idx, shp) for t in x]
        if is_ind(p): return z3.If(truth(p.arg(0)), q, ZERO)
        if is_ind(q): return z3.If(truth(q.arg(0)), p, ZERO)
        return f(p, q)
    return T(shp, at)
def add(s, n, x):
    if x[0].sort == 'int' and x[1].sort == 'int' or not exact_ints(x[0]): return Sem.op_Add(s, n, x) if x[0].sort == 'int' else denote.elementwise('Add')(n, x)
    shp = bshape([t.shape for t in x])
    f = z3.Function('elem:Add()/2', VAL, VAL, VAL)
    def at(idx):
        p, q = [bat(t, idx, shp) for t in x]
        return z3.If(p == ZERO, q, z3.If(q == ZERO, p, f(p, q)))
    return T(shp, at)
def where(s, n, x):
    """conditions are data here"""
    c, a, b = x
    shp = bshape([c.shape, a.shape, b.shape])
    t = truth if c.sort == 'val' else (lambda v: v if z3.is_bool(v) else v != 0)
    return T(shp, lambda idx: z3.If(t(bat(c, idx, shp)), bat(a, idx, shp), bat(b, idx, shp)), a.sort)
def const_of_shape(s, n, x):
    v = s.attr(n, 'value')
    if v is None: return T(const_ints(x[0], 'shape'), lambda idx: z3.Const('const:0.0', VAL))
    c = denote.from_tensor(v)
    return T(const_ints(x[0], 'shape'), lambda idx: c.at([z3.IntVal(0)] * c.rank), c.sort)
EXTRA = dict(O.EXTRA, Reshape=S.reshape, Flatten=S.flatten, Squeeze=squeeze, Unsqueeze=S.keeps_view('Unsqueeze'), Cast=cast, Size=size, Mod=mod, Div=div, Not=not_, Mul=mul, Add=add,  GatherND=gather_nd, ReverseSequence=reverse_sequence,
             DepthToSpace=d2s, SpaceToDepth=s2d, OneHot=one_hot, CumSum=cumsum, TopK=topk, MatMul=matmul, Expand=expand, Range=range_, Sum=sum_, Where=where, ConstantOfShape=const_of_shape, Greater=greater)
for _o in ('Gather',): EXTRA.pop(_o, None)
for _o in ('ReduceSum', 'ReduceMax', 'ReduceMean', 'ReduceMin', 'ReduceProd'): EXTRA[_o] = reduce_

# ------------------------------------------------------------------ running a handler
def arr_of(v, dt):
    def hassym(x): return any(hassym(y) for y in x) if isinstance(x, (list, tuple)) else not isinstance(x, int)
    if hassym(v): return SArr(v, dt)
    return np.array(v, dt)
def records(sh, known):
    return O.shown(sh, {'rank': 'unknown'}.get(known, known))
def make(k, a):
    from onnx import helper
    TP = tp()
    g = S.new_graph(a.opset)
    env, ts, names = {}, [], []
    dt0 = a.get('dt', TP.FLOAT)
    for j, e in enumerate(k.ins):
        kind, nm = e[0], 'i%d' % j
        if kind == '=':
            names.append(names[e[1]]); ts.append(ts[e[1]])
            continue
        if kind == 'x':
            dt = e[2] if len(e) > 2 else dt0
            t = k.tensor(nm, e[1], dt) if getattr(k, 'tensor', None) else O.in_tensor(nm, e[1])
        elif kind == 'i':
            t, dt = index_T(nm, e[1], e[2]), (e[3] if len(e) > 3 else TP.INT32)
        elif kind in 'cr':
            t, npdt = vals_T(e[1]), np.dtype(e[2] if len(e) > 2 else np.int32)
            dt = helper.np_dtype_to_tensor_dtype(npdt)
        elif kind == 'v':
            arr = np.array(e[1], helper.tensor_dtype_to_np_dtype(dt0))
            el = k.scalar(arr, dt0) if getattr(k, 'scalar', None) else z3.Const('const:%r' % float(arr), VAL)
            t, dt = T(list(arr.shape), lambda idx, el=el: el), dt0
        elif kind == 'k':
            arr = k.array(nm, e[1], dt0) if getattr(k, 'array', None) else O.arr(nm, e[1])
            arr._dt = np.dtype(helper.tensor_dtype_to_np_dtype(dt0))
            t, dt = T(arr.shape_, lambda idx, f=arr.fn: f(list(idx))), dt0
        if kind == 'c': g.make_const(nm, arr_of(e[1], npdt)); nm = nm + ':0' if g.get_node_by_output(nm) is None else nm
        elif kind in 'kv': g.make_const(nm, arr)
        else:
            sh = records(t.shape, a.get('known', 'all') if kind in 'xi' else 'all')
            g.add_graph_input(nm, dt, VList(list(sh)) if sh is not None else None)
            g.set_shape(nm, VList(list(sh)) if sh is not None else None)
        if kind in 'ckv':
            out = g.get_node_by_name(nm.split(':')[0]).output[0]
        else:
            out = nm
        if j in getattr(k, 'fix', {}): t.at = k.fix[j]
        t.dt = dt
        if kind not in 'ckv': env[out] = t
        names.append(out); ts.append(t)
    want = k.want(ts)
    types = k.types or [dt0] * len(want)
    for w, d in zip(want, types): w.dt = d
    outs = ['y:%d' % j for j in range(len(want))]
    more = getattr(k, 'more', [])                    # outputs nobody reads: (dims, type)
    n = g.make_node(k.op, names, outputs=outs + ['y:%d' % (len(outs) + q) for q in range(len(more))], name='y', attr=dict(k.attrs), skip_conversion=False,
                    shapes=[records(w.shape, a.get('known', 'all')) for w in want] + [records([zint(q) for q in d], 'all') for d, _ in more], dtypes=list(types) + [d for _, d in more])
    for o, w in zip(outs, want):
        g.make_node('Identity', [o], outputs=['graph_out_' + o], name='graph_out_' + o.replace(':', '_'), shapes=[records(w.shape, a.get('known', 'all'))], dtypes=[w.dt])
        g.outputs.append('graph_out_' + o)
    return g, n, env, dict(zip(g.outputs, want))

def runner(build):
    def run(f, a):
        O.setup()
        from tf2onnx.handler import tf_op
        import tf2onnx.tfonnx
        try:
            k = build(a)
            g, n, env, want = make(k, a)
        except Exception as e:
            import traceback
            raise Unsupported('the case cannot be built: %s' % traceback.format_exc()[-300:])
        a['_k'], a['_g'], a['_env'], a['_want'], a['_outs'] = k, g, env, want, list(g.outputs)
        func, kw = tf_op.create_mapping(a.opset, None)[k.op]
        kw = dict(kw)
        if kw.get('onnx_op'):
            kw['tf_op'] = k.op
            n.type = kw['onnx_op']
        func(g, n, initialized_tables={}, dequantize=False, **kw)
    return run

def post(a, r, old):
    k = a['_k']
    if r.exc is not None:
        yield 'does not raise', not k.must if not callable(k.must) else not k.must(a)
        return
    r.cover('converted')
    g, want = a['_g'], a['_want']
    yield 'the graph outputs keep their names and order', list(g.outputs) == a['_outs']
    sem = k.sem(g, a['_env'], a.opset) if getattr(k, 'sem', None) else Sem15(g, a['_env'], a.opset, EXTRA)
    same = getattr(k, 'same', None) or denote.same
    for o in a['_outs']:
        try:
            got = sem.get(o)
        except denote.Dangling:
            got = None
        yield 'every tensor output %s needs is made by a node' % o, got is not None
        if got is None: return
        for nm, c in same('output %s' % o, got, want[o]): yield nm, SBool(c)
        yield 'output %s: element type' % o, got.dt == want[o].dt
    for nm, c in list(sem.side): yield nm, SBool(c)
    for o, t in list(sem.env.items()):
        if o in a['_env'] or g.get_node_by_output(o) is None: continue
        d = g.get_dtype(o)
        if d is not None and t.dt is not None: yield 'recorded element type of %s' % role(o), d == t.dt
        sh = g.get_shape(o)
        if sh is None: continue
        sh = list(sh)
        yield 'recorded rank of %s' % role(o), len(sh) == t.rank
        if len(sh) == t.rank and sh:
            yield 'recorded shape of %s' % role(o), SBool(z3.And(*[z3.Or(zint(d) == -1, zint(d) == e) for d, e in zip(sh, t.shape)]))
def role(o): return o if o.startswith('graph_out') or o.startswith('y:') else 'a new tensor'
