"""More operator meanings and graph builders for the contracts of the optimizer passes (C08): element types, row-major views,
body graphs, random operators, rearranging operators."""
import numpy as np
from .z3load import z3
from .core import SInt, SBool, VList, Unsupported, ctx, zi, I
from .symenv import VAL, OpaqueArr, SArr, FakeTensor, zint, is_one
from . import symenv, denote, optspec as O
from .denote import T, Sem, const_ints, lit, same, bshape, bat

R = z3.RealSort()

# ------------------------------------------------------------------ row-major views
def factors(z):
    """(coefficient, [atoms]) of a product of dimensions"""
    z = z3.simplify(z if z3.is_expr(z) else zint(z))
    if z3.is_int_value(z):
        return z.as_long(), []
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_MUL:
        c, l = 1, []
        for ch in z.children():
            k, m = factors(ch)
            c *= k; l += m
        return c, l
    return 1, [z]
def product(zs):
    r = z3.IntVal(1)
    for z in zs: r = r * z
    return z3.simplify(r)
def divide(total, others):
    """total / others by cancelling equal factors"""
    c, l = factors(product(total))
    for o in others:
        k, m = factors(o)
        if k == 0 or c % k:
            return product(total) / product(others)
        c //= k
        for a in m:
            j = next((n for n, b in enumerate(l) if z3.eq(a, b)), None)
            if j is None:
                return product(total) / product(others)
            l.pop(j)
    return z3.simplify(z3.IntVal(c) * product(l))
def ravel(idx, shape):
    lin = None
    for i, d in zip(idx, shape):
        if is_one(d):
            continue
        lin = i if lin is None else lin * d + i
    return z3.IntVal(0) if lin is None else lin
def unravel(lin, shape):
    idx, rem = [], lin
    for k in range(len(shape)):
        rest = product(shape[k + 1:])
        one = z3.is_int_value(rest) and rest.as_long() == 1
        idx.append(rem if one else rem / rest)
        rem = z3.IntVal(0) if one else rem % rest
    return idx
def fkey(zs):
    c, l = factors(product(zs))
    return c, sorted(str(q) for q in l)
def renumber(idx, out, inp):
    """index into shape inp of the element at idx of its row-major reshape to out; blocks of dimensions with equal products stay apart"""
    src = [z3.IntVal(0)] * len(inp)
    ia, ib = [k for k, d in enumerate(inp) if not is_one(d)], [k for k, d in enumerate(out) if not is_one(d)]
    while ia and ib:
        p, q = 1, 1
        while fkey([inp[k] for k in ia[:p]]) != fkey([out[k] for k in ib[:q]]):
            x, y = fkey([inp[k] for k in ia[:p]]), fkey([out[k] for k in ib[:q]])
            if (len(x[1]), x[0]) <= (len(y[1]), y[0]) and p < len(ia): p += 1
            elif q < len(ib): q += 1
            elif p < len(ia): p += 1
            else: break
        A, B = ia[:p], ib[:q]
        if p == q == 1:
            src[A[0]] = idx[B[0]]
        else:
            for k, e in zip(A, unravel(ravel([idx[k] for k in B], [out[k] for k in B]), [inp[k] for k in A])):
                src[k] = e
        ia, ib = ia[p:], ib[q:]
    return src
def view(t):
    """(linear index -> element, factors of the element count)"""
    if getattr(t, 'flat', None) is not None:
        return t.flat, t.total
    return (lambda lin: t.at(unravel(lin, t.shape))), list(t.shape)
def from_view(shape, flat, total, sort='val'):
    r = T(shape, None, sort)
    r.at = lambda idx: flat(ravel(idx, r.shape))
    r.flat, r.total = flat, total
    return r
def flat_input(nm, dims):
    f = z3.Function('in:' + nm, I, VAL)
    return from_view(list(dims), lambda lin: f(lin), [z if z3.is_expr(z) else zint(z) for z in dims])

def nm_zero(s): return z3.is_int_value(s) and s.as_long() == 0
def reshape(s, n, x):
    a = x[0]
    if s.opset < 5:
        sh = [zint(v) for v in s.attr(n, 'shape')]
    else:
        if x[1].sort != 'int':
            return O.opaque(s, n, x)
        sh = const_ints(x[1], 'shape')
    keep0 = int(s.attr(n, 'allowzero', 0))
    sh = [z3.simplify(v) for v in sh]
    out = []
    for k, v in enumerate(sh):
        if z3.is_int_value(v):
            if v.as_long() == 0 and not keep0:
                s.need('Reshape: a 0 copies an existing dimension', z3.BoolVal(k < a.rank))
                v = a.shape[k] if k < a.rank else z3.IntVal(0)
        elif not keep0 and not positive(v):
            v = z3.If(v == 0, a.shape[k] if k < a.rank else 0, v)
        out.append(v)
    flat, total = view(a)
    lits = [k for k, v in enumerate(out) if z3.is_int_value(v) and v.as_long() == -1]
    s.need('Reshape: at most one -1', z3.BoolVal(len(lits) <= 1))
    if lits:
        out[lits[0]] = divide(total, [v for k, v in enumerate(out) if k not in lits])
    else:
        for k, v in enumerate(out):
            if not z3.is_int_value(v) and not positive(v):
                rest = product([q for j, q in enumerate(out) if j != k])
                out[k] = z3.If(v == -1, product(total) / rest, v)
    c, l = factors(product(total)), factors(product(out))
    key = lambda f: (f[0], sorted(str(q) for q in f[1]))
    s.need('Reshape: same number of elements', z3.BoolVal(True) if key(c) == key(l) else product(out) == product(total))
    r = from_view(out, flat, total, a.sort)
    if getattr(a, 'flat', None) is None: r.at = lambda idx: a.at(renumber(idx, out, a.shape))
    return r
def flatten(s, n, x):
    a = x[0]
    ax = int(s.attr(n, 'axis', 1))
    s.need('Flatten: axis in range', z3.BoolVal(-a.rank <= ax <= a.rank))
    if s.opset < 11: s.need('Flatten: negative axis needs opset 11', z3.BoolVal(ax >= 0))
    ax = ax + a.rank if ax < 0 else ax
    flat, total = view(a)
    return from_view([product(a.shape[:ax]), product(a.shape[ax:])], flat, total, a.sort)
def positive(z):
    c = ctx()
    k = ('pos', z.get_id())
    if k not in c.memo:
        c.memo[k] = (c.check(z3.Not(z >= 1)) == z3.unsat, z)
    return c.memo[k][0]
def keeps_view(name):
    real = getattr(Sem, 'op_' + name)
    def f(s, n, x):
        t = real(s, n, x)
        if t is not x[0] and getattr(x[0], 'flat', None) is not None:
            flat, total = view(x[0])
            return from_view(t.shape, flat, total, t.sort)
        return t
    return f

# ------------------------------------------------------------------ elements as real numbers
_tr, _fr = z3.Function('real', VAL, R), z3.Function('element', R, VAL)
sqrt = z3.Function('sqrt', R, R)
def to_real(v): return v.arg(0) if z3.is_app(v) and z3.eq(v.decl(), _fr) else _tr(v)
def from_real(e): return _fr(e)
def real_const(o):
    from .core import SReal
    return o.z if isinstance(o, SReal) else z3.RealVal(repr(float(o)))
def batchnorm(s, n, x):
    nm_ = n.name
    a, sc, of, me, va = x[:5]
    if int(s.attr(n, 'training_mode', 0)) or s.opset < 14 and len([o for o in n.output if o]) > 1 or s.attr(n, 'spatial', 1) != 1:
        return O.opaque(s, n, x)
    eps = real_const(s.attr(n, 'epsilon', 1e-5))
    for t in (sc, of, me, va):
        s.need('BatchNormalization: one parameter per channel', z3.And(z3.BoolVal(t.rank == 1), t.shape[0] == a.shape[1]))
    def at(idx):
        c = [idx[1]]
        k = to_real(sc.at(c)) / sqrt(to_real(va.at(c)) + eps)
        return from_real((to_real(a.at(idx)) - to_real(me.at(c))) * k + to_real(of.at(c)))
    r = T(a.shape, at)
    def more(k): return T([a.shape[1]], lambda idx: z3.Function('running%d:%s' % (k, nm_), I, VAL)(*idx))
    return [r] + [more(k) for k in range(1, len(n.output))]
def conv_real(s, n, x):
    """every output element of channel m is linear in the kernel of channel m (exact arithmetic), plus the bias of m"""
    a, w = x[0], x[1]
    b = x[2] if len(x) > 2 else None
    at_ = ','.join('%s=%r' % (k, v.value()) for k, v in sorted(n.attr.items()) if hasattr(v, 'value'))
    if b is not None:
        s.need('Conv: bias has one entry per output channel', z3.And(z3.BoolVal(b.rank == 1), b.shape[0] == w.shape[0]))
        if b.rank != 1: raise Unsupported('ill-formed Conv')
    xs = [z3.FreshInt('cx') for _ in range(a.rank)]
    X = z3.Lambda(xs, a.at(O.inside(xs, a.shape)))
    def at(idx):
        ks = [z3.FreshInt('ck') for _ in range(w.rank - 1)]
        e = w.at([idx[1]] + O.inside(ks, w.shape[1:]))
        scale = None
        if z3.is_app(e) and z3.eq(e.decl(), _fr) and e.arg(0).decl().kind() == z3.Z3_OP_MUL and e.arg(0).num_args() == 2 and z3.eq(e.arg(0).arg(0).decl(), _tr) and not O.mentions(e.arg(0).arg(1), ks):
            e, scale = e.arg(0).arg(0).arg(0), e.arg(0).arg(1)
        K = z3.Lambda(ks, e)
        r = _tr(z3.Function('conv(%s)' % at_, X.sort(), K.sort(), *([I] * (len(idx) + w.rank) + [VAL]))(X, K, *(list(idx) + w.shape)))
        if scale is not None: r = r * scale
        if b is not None: r = r + to_real(b.at([idx[1]]))
        return from_real(r)
    sp = [z3.Function('convdim%d(%s)' % (k, at_), I, I, I)(a.shape[k], w.shape[k]) for k in range(2, a.rank)]
    return T([a.shape[0], w.shape[0]] + sp, at)
def reduce8(s, n, x):
    a = x[0]
    if a.sort != 'int':
        return O.reduce_(s, n, x)
    ax = s.attr(n, 'axes')
    if len(x) > 1 and x[1] is not None: ax = [lit(z, 'axes') for z in const_ints(x[1], 'axes')]
    if n.type not in ('ReduceProd', 'ReduceSum', 'ReduceMax', 'ReduceMin') or a.rank != 1 or ax not in (None, [0], [-1]):
        raise Unsupported('reduction of an integer tensor')
    v = const_ints(a, 'reduced')
    r = v[0] if v else z3.IntVal(1 if n.type == 'ReduceProd' else 0)
    for q in v[1:]:
        r = r * q if n.type == 'ReduceProd' else r + q if n.type == 'ReduceSum' else z3.If(r > q, r, q) if n.type == 'ReduceMax' else z3.If(r < q, r, q)
    return T([1] if int(s.attr(n, 'keepdims', 1)) else [], lambda idx: r, 'int')

# ------------------------------------------------------------------ element types
def tp():
    from onnx import TensorProto as TP
    return TP
def exact_table():
    TP = tp()
    ints = {TP.INT8: (-7, 7), TP.INT16: (-15, 15), TP.INT32: (-31, 31), TP.INT64: (-63, 63), TP.UINT8: (0, 8), TP.UINT16: (0, 16), TP.UINT32: (0, 32), TP.UINT64: (0, 64), TP.BOOL: (0, 1)}
    fl = {TP.FLOAT16: (11, 15), TP.FLOAT: (24, 127), TP.DOUBLE: (53, 1023)}
    def exact(a, b):
        """every value of type a is a value of type b"""
        if a == b: return True
        if b == TP.BOOL: return False
        if a in ints and b in ints:
            return ints[b][0] <= ints[a][0] and ints[a][1] <= ints[b][1]
        if a in ints and b in fl:
            return max(-ints[a][0], ints[a][1]) <= fl[b][0]
        if a in fl and b in fl:
            return fl[a][0] <= fl[b][0]
        return False
    return exact
def cast_el(v, src, to):
    if src == to:
        return v
    if v.sort() != VAL:
        raise Unsupported('cast of an integer term')
    if z3.is_app(v) and v.decl().name().startswith('cast:'):
        p, q = [int(w) for w in v.decl().name()[5:].split('>')]
        if exact_table()(p, q):
            return cast_el(v.arg(0), p, to)
    return z3.Function('cast:%d>%d' % (src, to), VAL, VAL)(v)
def cast(s, n, x):
    a = x[0]
    to = int(s.attr(n, 'to'))
    if a.sort == 'int':
        TP = tp()
        if to not in (TP.INT64, TP.INT32):
            raise Unsupported('cast of an integer tensor to a data type')
        r = T(a.shape, a.at, 'int')
        r.dt = to
        return r
    src = a.dt
    r = T(a.shape, lambda idx: cast_el(a.at(idx), src, to))
    if getattr(a, 'flat', None) is not None:
        f, tot = view(a)
        r = from_view(a.shape, lambda lin: cast_el(f(lin), src, to), tot)
    r.dt = to
    return r

class Sem8(Sem):
    def get(self, name):
        r = Sem.get(self, name)
        if r is not None and getattr(r, 'dt', None) is None:
            r.dt = self.type_of(name)
        return r
    def type_of(self, name):
        TP = tp()
        n = self.g.get_node_by_output(name)
        if n is None: return None
        if n.is_const(): return n.get_attr('value').t.data_type
        if n.type == 'QuantizeLinear':
            return self.get(n.input[2]).dt if len(n.input) > 2 else TP.UINT8
        if n.type == 'DequantizeLinear': return TP.FLOAT
        if n.type in ('Shape', 'ArgMax', 'ArgMin'): return TP.INT64
        if n.type in symenv.BOOLOUT: return TP.BOOL
        if n.type in ('If', 'Loop') or n.type.startswith('Random'): return TP.FLOAT
        if n.input and n.input[0]:
            t = self.get(n.input[0])
            return getattr(t, 'dt', None)
        return None

# ------------------------------------------------------------------ quantization
def quant(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    r = O.quant(s, n, x)
    kind = kind_
    per = x[1].rank == 1 and not one_el(x[1])
    if kind == 'QuantizeLinear':
        to = x[2].dt if len(x) > 2 and x[2] is not None else tp().UINT8
        at0 = r.at
        def at(idx):
            v = at0(idx)                       # QuantizeLinear/k (DequantizeLinear/k (u, p), p) = u for u of the quantized type
            w = v.arg(0)
            if z3.is_app(w) and w.decl().name() == 'DequantizeLinear:%d/%d' % (to, v.num_args()) and all(z3.eq(z3.simplify(v.arg(k)), z3.simplify(w.arg(k))) for k in range(1, v.num_args())):
                return w.arg(0)
            return z3.Function('QuantizeLinear:%d/%d' % (to, v.num_args()), *([VAL] * (v.num_args() + 1)))(*v.children())
        q = T(r.shape, at)
        q.dt = to
        return q
    src = a.dt
    at0 = r.at
    def at(idx):
        v = at0(idx)
        return z3.Function('DequantizeLinear:%d/%d' % (src, v.num_args()), *([VAL] * (v.num_args() + 1)))(*v.children())
    q = T(r.shape, at)
    q.dt = tp().FLOAT
    return q
def one_el(t): return is_one(t.shape[0])

# ------------------------------------------------------------------ operators that only rearrange elements
def rearrange(s, n, x):
    """every output element is the element of the first input at a place that depends on the other inputs only"""
    kind_, name_ = n.type, n.name
    a = x[0]
    at_ = ','.join('%s=%r' % (k, v.value()) for k, v in sorted(n.attr.items()) if hasattr(v, 'value'))
    dims, lams = list(a.shape), []
    for t in x[1:]:
        if t is None: continue
        vs = [z3.FreshInt('ra') for _ in t.shape]
        lams.append(z3.Lambda(vs, t.at(O.inside(vs, t.shape))) if vs else t.at([]))
        dims += t.shape
    rank = {'GatherND': a.rank, 'DepthToSpace': a.rank, 'SpaceToDepth': a.rank, 'Compress': a.rank if n.get_attr('axis') is not None else 1}.get(kind_, x[1].rank if kind_ == 'GatherElements' else a.rank)
    base = '%s(%s)' % (kind_, at_)
    def fn(tag, idx):
        return z3.Function('%s:%s' % (tag, base), *([l.sort() for l in lams] + [I] * (len(dims) + len(idx)) + [I]))(*(lams + dims + list(idx)))
    shape = [fn('dim%d' % k, []) for k in range(rank)]
    if kind_ in ('ReverseSequence',):
        shape = list(a.shape)
    return T(shape, lambda idx: a.at([fn('src%d' % k, idx) for k in range(a.rank)]), a.sort)
def scatter(s, n, x):
    kind_, name_ = n.type, n.name
    a, ind, upd = x
    at_ = ','.join('%s=%r' % (k, v.value()) for k, v in sorted(n.attr.items()) if hasattr(v, 'value'))
    vs = [z3.FreshInt('sc') for _ in ind.shape]
    lam = z3.Lambda(vs, ind.at(O.inside(vs, ind.shape)))
    dims = list(a.shape) + list(ind.shape)
    def fn(tag, idx):
        return z3.Function('%s:%s(%s)' % (tag, kind_, at_), *([lam.sort()] + [I] * (len(dims) + len(idx)) + [I]))(*([lam] + dims + list(idx)))
    def at(idx):
        return z3.If(fn('hit', idx) != 0, upd.at([fn('upd%d' % k, idx) for k in range(upd.rank)]), a.at(idx))
    return T(a.shape, at)
def random_(s, n, x):
    """two draws have nothing in common"""
    kind_, name_ = n.type, n.name
    sh = [int(d) for d in s.attr(n, 'shape')]
    f = z3.Function('draw:' + name_, *([I] * len(sh) + [VAL]))
    return T(sh, lambda idx: f(*idx))
def global_pool(s, n, x):
    a = x[0]
    ax = list(range(2, a.rank))
    s.need('%s: at least three dimensions' % n.type, z3.BoolVal(a.rank > 2))
    name = {'GlobalAveragePool': 'ReduceMean', 'GlobalMaxPool': 'ReduceMax'}[n.type]
    s.need('%s: no attributes' % n.type, z3.BoolVal(not [k for k in n.attr if not k.startswith('_')]))
    dims = [a.shape[k] for k in ax]
    def at(idx):
        full = list(idx)
        return O.fold(name, dims, lambda v: a.at(O.put(full, ax, v)), VAL)
    return T(a.shape[:2] + [z3.IntVal(1)] * len(ax), at)
def upsample(s, n, x):
    a = x[0]
    if s.opset < 9:
        sc = [float(v) for v in s.attr(n, 'scales')]
    else:
        t = n.inputs[1]
        sc = [float(v) for v in np.asarray(t.get_attr('value').t.arr).reshape(-1)] if t.is_const() and not isinstance(t.get_attr('value').t.arr, OpaqueArr) else None
    if sc is not None and all(v == 1.0 for v in sc):
        return a
    return O.opaque(s, n, x[:1]) if sc is None else O.opaque(s, n, x[:1] + [None])
def dropout(s, n, x):
    kind_, name_ = n.type, n.name
    a = x[0]
    f = z3.Function('dropmask:' + name_, *([I] * a.rank + [VAL]))
    return [T(a.shape, a.at), T(a.shape, lambda idx: f(*idx))][:len(n.output)]
def lstm(s, n, x):
    ts = [t for t in x if t is not None]
    r = O.opaque(s, n, ts)
    return r

# ------------------------------------------------------------------ body graphs
def if_(s, n, x):
    c = x[0].at([])
    c = c if c.sort() == z3.BoolSort() else (c != 0 if c.sort() == I else z3.Function('truth', VAL, z3.BoolSort())(c))
    b = n.get_body_graphs()
    res = []
    for k in range(len(n.output)):
        r = []
        for br in ('then_branch', 'else_branch'):
            sub = type(s)(b[br], s.env, s.opset, s.extra)
            t = sub.get(b[br].outputs[k])
            s.side += sub.side
            r.append(t)
        p, q = r
        if p.rank != q.rank:
            raise Unsupported('branches of different rank')
        t = T([z3.simplify(z3.If(c, d, e)) for d, e in zip(p.shape, q.shape)], (lambda p, q: lambda idx: z3.If(c, p.at(idx), q.at(idx)))(p, q), p.sort)
        t.dt = getattr(p, 'dt', None)
        res.append(t)
    return res
def loop(s, n, x):
    """final states: a function of the step; scan outputs: the body's output at every step, stacked"""
    kind_, name_ = n.type, n.name
    b = n.get_body_graphs()['body']
    ns = len(x) - 2
    it = z3.Int('step!%s' % name_)
    env = dict(s.env)
    ins = [i.output[0] for i in b.inputs]
    if len(ins) != ns + 2:
        raise Unsupported('loop inputs')
    env[ins[0]] = T([], lambda idx: it, 'int')
    env[ins[1]] = T([], lambda idx: z3.Const('going', VAL))
    for k in range(ns):
        t0 = x[2 + k]
        f = z3.Function('state%d' % k, *([I] * (t0.rank + 1) + [VAL]))
        env[ins[2 + k]] = T(t0.shape, (lambda f: lambda idx: f(it, *idx))(f))
    sub = type(s)(b, env, s.opset, s.extra)
    for t in env.values():
        if getattr(t, 'dt', None) is None: t.dt = tp().FLOAT
    outs = [sub.get(o) for o in b.outputs]
    s.side += sub.side
    def lam(t, extra=()):
        vs = [z3.FreshInt('lp') for _ in t.shape]
        e = t.at(O.inside(vs, t.shape))
        vs = list(extra) + vs
        return z3.Lambda(vs, e) if vs else e
    key = [lam(t, [it]) for t in outs[:1 + ns]] + [lam(t) for t in x if t is not None]
    dims = sum([t.shape for t in x if t is not None], [])
    trip = z3.Function('trip', *([k.sort() for k in key] + [I] * len(dims) + [I]))(*(key + dims))
    res = []
    for k in range(ns):
        t0 = x[2 + k]
        f = lambda idx, k=k, t0=t0: z3.Function('final%d' % k, *([q.sort() for q in key] + [I] * (len(dims) + t0.rank) + [VAL]))(*(key + dims + list(idx)))
        res.append(T(t0.shape, f))
    for t in outs[1 + ns:]:
        res.append(T([trip] + t.shape, (lambda t: lambda idx: z3.substitute(t.at(list(idx[1:])), (it, idx[0])))(t), t.sort))
    return res

EXTRA = dict(O.EXTRA, Conv=conv_real, BatchNormalization=batchnorm, Reshape=reshape, Flatten=flatten, Squeeze=keeps_view('Squeeze'), Unsqueeze=keeps_view('Unsqueeze'), Cast=cast, QuantizeLinear=quant, DequantizeLinear=quant,
             GlobalAveragePool=global_pool, GlobalMaxPool=global_pool, Upsample=upsample, RandomUniform=random_, RandomNormal=random_, If=if_, Loop=loop,
             Scatter=scatter, ScatterND=scatter, ScatterElements=scatter, Dropout=dropout, LSTM=lstm)
for _o in list(EXTRA):
    if EXTRA[_o] is O.reduce_: EXTRA[_o] = reduce8
for _o in ('GatherND', 'GatherElements', 'Compress', 'ReverseSequence', 'DepthToSpace', 'SpaceToDepth'):
    EXTRA[_o] = rearrange

# ------------------------------------------------------------------ graphs
def new_graph(opset, sub=False):
    from tf2onnx.graph import Graph
    return Graph([], output_shapes={}, dtypes={}, opset=opset, output_names=[], target=[], is_subgraph=sub)
def out_type(op, attrs, ins, known):
    TP = tp()
    if op == 'Cast': return attrs['to']
    if op in ('ArgMax', 'ArgMin', 'Shape'): return TP.INT64
    if op == 'QuantizeLinear': return known.get(ins[2], TP.UINT8) if len(ins) > 2 else TP.UINT8
    if op == 'DequantizeLinear': return TP.FLOAT
    if op in ('If', 'Loop', 'RandomUniform', 'RandomNormal', 'ConstantOfShape'): return TP.FLOAT
    return known.get(ins[0], TP.FLOAT) if ins else TP.FLOAT
def fill(g, s, a, known):
    TP = tp()
    for nm, spec in s.get('consts', ()):
        arr = spec if isinstance(spec, np.ndarray) else O.arr(nm, spec)
        if nm in s.get('cdt', {}):
            arr._dt = np.dtype(s['cdt'][nm])
        g.make_const(nm, arr)
        from onnx import helper
        known[nm] = helper.np_dtype_to_tensor_dtype(np.dtype(arr.dtype))
    for e in s['nodes']:
        op, ins, outs, attrs = e[:4]
        dom = e[4] if len(e) > 4 else None
        d = out_type(op, attrs, ins, known)
        for o in outs: known[o] = d
        bodies = {k: v for k, v in attrs.items() if isinstance(v, dict)}
        nm = next(o for o in outs if o)
        n = g.make_node(op, list(ins), outputs=list(outs), name=nm, attr={k: v for k, v in attrs.items() if k not in bodies}, shapes=[None] * len(outs), dtypes=[d] * len(outs), domain=dom)
        for k, b in bodies.items():
            bg = new_graph(a.opset, True)
            kn = dict(known)
            for (pn, pt, ps) in b.get('inputs', ()):
                bg.add_graph_input(pn, pt, VList(ps) if ps is not None else None)
                kn[pn] = pt
            n.set_body_graph_as_attr(k, bg)
            fill(bg, b, a, kn)
            bg.outputs = list(b['outputs'])
            n.set_body_graph_as_attr(k, bg)
def make(s, a):
    """direct: the graph outputs are the listed tensors themselves (otherwise there is an Identity in front of each)"""
    TP = tp()
    g = new_graph(a.opset)
    env, known = {}, {}
    for e in s['inputs']:
        nm, spec = e[0], e[1]
        env[nm] = flat_input(nm, spec) if s.get('flat') and not isinstance(spec, O.Ints) else O.in_tensor(nm, spec)
        dt = e[2] if len(e) > 2 else TP.INT64 if isinstance(spec, O.Ints) else TP.FLOAT
        env[nm].dt = dt
        known[nm] = dt
        sh = s['shown'][nm] if nm in s.get('shown', {}) else O.shown(env[nm].shape, a.get('known', 'all') if not isinstance(spec, O.Ints) else 'all')
        g.add_graph_input(nm, dt, VList(list(sh)) if sh is not None else None)
        g.set_shape(nm, VList(list(sh)) if sh is not None else None)
    fill(g, s, a, known)
    direct = s.get('direct', a.get('direct', False))
    for o in s['outputs']:
        if direct:
            g.outputs.append(o)
        else:
            g.make_node('Identity', [o], outputs=['graph_out_' + o], name='graph_out_' + o, shapes=[None], dtypes=[g.get_dtype(o)])
            g.outputs.append('graph_out_' + o)
    sem = Sem8(g, env, a.opset, s.get('extra', EXTRA))
    want = {o: sem.get(o) for o in g.outputs}
    for e in s['nodes']:
        for o in e[2]:
            if o:
                t = sem.get(o)
                g.set_shape(o, s['shown'][o] if o in s.get('shown', {}) else O.shown(t.shape, a.get('known', 'all')))
    if not direct:
        for o in g.outputs:
            g.set_shape(o, O.shown(sem.get(o).shape, a.get('known', 'all')))
    for nm, cond in sem.side:
        ctx().assume(cond)
    return g, env, want

def runner(build, cls, call=None, module=None):
    def run(f, a):
        O.setup()
        import importlib
        try:
            s = build(a)
            g, env, want = make(s, a)
        except Exception as e:
            raise Unsupported('the case cannot be built: %r' % e)
        opt = getattr(importlib.import_module(module), cls)() if module else cls()
        opt.opt_iteration = 0
        a['_g'], a['_env'], a['_want'], a['_outs'], a['_s'] = g, env, want, list(g.outputs), s
        return call(opt, f, g) if call else f(opt, g)
    return run
def post(a, r, old):
    if r.exc is not None:
        yield 'the pass is skipped', True
        return
    r.cover('finished')
    g, want, s = a['_g'], a['_want'], a['_s']
    yield 'the graph outputs keep their names and order', list(g.outputs) == a['_outs']
    sem = Sem8(g, a['_env'], a.opset, s.get('extra', EXTRA))
    for o in a['_outs']:
        n = g.get_node_by_output(o)
        yield 'output %s exists' % o, n is not None
        if n is None:
            return
        try:
            got = sem.get(o)
        except denote.Dangling:
            got = None
        yield 'every tensor output %s needs is made by a node' % o, got is not None
        if got is None: return
        for nm, c in same('output %s' % o, got, want[o]):
            yield nm, SBool(c)
        yield 'output %s: element type' % o, getattr(got, 'dt', None) == getattr(want[o], 'dt', None)
    for nm, c in list(sem.side):
        yield nm, SBool(c)
    for o, t in list(sem.env.items()):
        if o in a['_env'] or g.get_node_by_output(o) is None: continue
        d = g.get_dtype(o)
        if d is not None and getattr(t, 'dt', None) is not None:
            yield 'recorded element type of %s' % O.role(a, o), d == t.dt
        sh = g.get_shape(o)
        if sh is None:
            continue
        sh = list(sh)
        yield 'recorded rank of %s' % O.role(a, o), len(sh) == t.rank
        if len(sh) == t.rank:
            yield 'recorded shape of %s' % O.role(a, o), SBool(z3.And(*[z3.Or(zint(d) == -1, zint(d) == e) for d, e in zip(sh, t.shape)]) if sh else z3.BoolVal(True))
