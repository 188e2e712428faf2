"""Index-level meaning of ONNX operators (opset semantics as published) over symbolic shapes.

A tensor is (shape: list of integer terms, at: list of index terms -> element term).  Data elements live in an
uninterpreted sort, integer tensors (shapes, indices) in the integers, so element-wise operators on data are uninterpreted
functions and two graphs denote the same function for every input when their element terms are equal for every index.
"""
import numpy as np
from .z3load import z3
from .core import SInt, SBool, Unsupported, ctx, zi, VList, I
from .symenv import is_one, VAL, FakeTensor, OpaqueArr, SArr, zint

class T:
    def __init__(self, shape, at, sort='val'):
        self.shape = [s if z3.is_expr(s) else zint(s) for s in shape]
        self.at, self.sort = at, sort
    @property
    def rank(self): return len(self.shape)

def uf(name, *sorts):
    return z3.Function(name, *sorts)

def from_tensor(t):
    a = t.arr
    if isinstance(a, OpaqueArr):
        return T([zint(s) for s in a.shape_], lambda idx, f=a.fn: f(list(idx)))
    dims = [int(d) for d in t.dims]
    base = np.asarray(a.view(np.ndarray)) if isinstance(a, np.ndarray) else np.asarray(a)
    flat = list(base.reshape(-1))
    isint = isinstance(a, SArr) or np.asarray(a).dtype.kind in 'iub'
    if isint:
        els = [zint(x) if not isinstance(x, (np.bool_,)) else z3.IntVal(int(x)) for x in flat]
    else:
        els = [z3.Const('const:%r' % float(x), VAL) for x in flat]
    def at(idx):
        lin = z3.IntVal(0)
        for d, i in zip(dims, idx):
            lin = lin * d + i
        lin = z3.simplify(lin)
        if not els:
            return z3.IntVal(0)
        r = els[-1]
        for k in range(len(els) - 2, -1, -1):
            r = z3.If(lin == k, els[k], r)
        return z3.simplify(r)
    return T(dims, at, 'int' if isint else 'val')

def const_ints(t, what):
    """list of integer terms of a 1-D (or scalar) integer tensor whose length is a literal"""
    if t is None:
        return None
    if t.rank == 0:
        return [t.at([])]
    n = z3.simplify(t.shape[0])
    if t.rank != 1 or not z3.is_int_value(n):
        raise Unsupported('%s is not a 1-D tensor of known length' % what)
    return [z3.simplify(t.at([z3.IntVal(k)])) for k in range(n.as_long())]

def lit(z, what):
    z = z3.simplify(z)
    if not z3.is_int_value(z):
        raise Unsupported('%s is not a literal' % what)
    return z.as_long()

class Dangling(Unsupported):
    """a graph reads a tensor nobody makes"""

class Sem:
    """evaluate a tf2onnx Graph.  env: {output name: T} for graph inputs"""
    def __init__(self, g, env, opset=None, extra=None):
        self.g, self.env, self.opset = g, dict(env), opset or g.opset
        self.extra = extra or {}
        self.side = []           # (name, condition): well-formedness the emitted graph has to satisfy
    def get(self, name):
        if name == '':
            return None
        if name in self.env:
            return self.env[name]
        n = self.g.get_node_by_output(name)
        if n is None:
            raise Dangling('dangling input %s' % name)
        if n.is_const():
            r = from_tensor(n.get_attr('value').t)
            self.env[name] = r
            return r
        if n.type == 'PlaceholderWithDefault':
            raise Unsupported('placeholder with default')
        f = self.extra.get(n.type) or getattr(self, 'op_' + n.type, None)
        ins = [self.get(i) for i in n.input]
        if f is None:
            f = elementwise(n.type)
            if f is None:
                raise Unsupported('no meaning for operator %s' % n.type)
            r = f(n, ins)
        elif n.type in self.extra:
            r = f(self, n, ins)
        else:
            r = f(n, ins)
        rs = r if isinstance(r, list) else [r]
        for o, t in zip(n.output, rs):
            self.env[o] = t
        return self.env[name]
    def need(self, name, cond):
        self.side.append((name, cond))
    def attr(self, n, name, default=None):
        a = n.get_attr(name)
        return default if a is None else a.value()
    # ---- structural operators
    def op_Identity(self, n, x): return x[0]
    def op_Cast(self, n, x):
        return x[0]        # element conversion is the caller's business
    def op_Transpose(self, n, x):
        a = x[0]
        p = self.attr(n, 'perm')
        p = list(range(a.rank))[::-1] if p is None else [int(q) for q in p]
        self.need('%s: perm is a permutation of the input rank' % n.type, z3.BoolVal(sorted(p) == list(range(a.rank))))
        if sorted(p) != list(range(a.rank)):
            return T(a.shape, a.at, a.sort)
        def at(idx):
            src = [None] * len(p)
            for k, q in enumerate(p):
                src[q] = idx[k]
            return a.at(src)
        return T([a.shape[q] for q in p], at, a.sort)
    def _axes(self, n, x, k, rank, what):
        if len(x) > k and x[k] is not None:
            ax = [lit(z, what) for z in const_ints(x[k], what)]
            self.need('%s: axes given as an input need opset 13' % n.type, z3.BoolVal(self.opset >= 13))
        else:
            ax = self.attr(n, 'axes')
            if ax is None:
                return None
            self.need('%s: axes given as an attribute need opset below 13' % n.type, z3.BoolVal(self.opset < 13))
            ax = [int(a) for a in ax]
        self.need('%s: axes in range and distinct' % n.type,
                  z3.BoolVal(all(-rank <= a < rank for a in ax) and len(set(a % rank for a in ax)) == len(ax)))
        if self.opset < 11:
            self.need('%s: negative axes need opset 11' % n.type, z3.BoolVal(all(a >= 0 for a in ax)))
        return sorted(a % rank for a in ax) if rank else []
    def op_Squeeze(self, n, x):
        a = x[0]
        ax = self._axes(n, x, 1, a.rank, 'Squeeze axes')
        if ax is None:
            raise Unsupported('Squeeze without axes')
        for q in ax:
            self.need('Squeeze: the removed dimension is 1', a.shape[q] == 1)
        keep = [k for k in range(a.rank) if k not in ax]
        def at(idx):
            src = [z3.IntVal(0)] * a.rank
            for k, q in enumerate(keep):
                src[q] = idx[k]
            return a.at(src)
        return T([a.shape[k] for k in keep], at, a.sort)
    def op_Unsqueeze(self, n, x):
        a = x[0]
        cnt = None
        if len(x) > 1 and x[1] is not None:
            cnt = len(const_ints(x[1], 'axes'))
        else:
            cnt = len(self.attr(n, 'axes'))
        ax = self._axes(n, x, 1, a.rank + cnt, 'Unsqueeze axes')
        r = a.rank + cnt
        keep = [k for k in range(r) if k not in ax]
        shape = [z3.IntVal(1)] * r
        for k, q in enumerate(keep):
            shape[q] = a.shape[k]
        return T(shape, lambda idx: a.at([idx[q] for q in keep]), a.sort)
    def op_Shape(self, n, x):
        sh = x[0].shape
        def at(idx):
            r = sh[-1] if sh else z3.IntVal(0)
            for k in range(len(sh) - 2, -1, -1):
                r = z3.If(idx[0] == k, sh[k], r)
            return z3.simplify(r)
        return T([len(sh)], at, 'int')
    def op_Concat(self, n, x):
        r = x[0].rank
        ax = int(self.attr(n, 'axis', 1 if self.opset < 4 else None))
        self.need('Concat: axis in range', z3.BoolVal(-r <= ax < r))
        if self.opset < 11:
            self.need('Concat: negative axis needs opset 11', z3.BoolVal(ax >= 0))
        ax %= r
        tot = z3.simplify(sum([t.shape[ax] for t in x], z3.IntVal(0)))
        def at(idx):
            offs, o = [], z3.IntVal(0)
            for t in x:
                offs.append(o)
                o = o + t.shape[ax]
            res = None
            for t, o in list(zip(x, offs))[::-1]:
                j = list(idx)
                j[ax] = z3.simplify(idx[ax] - o)
                v = t.at(j)
                res = v if res is None else z3.If(idx[ax] >= o, res, v) if False else z3.If(idx[ax] < o + t.shape[ax], v, res)
            return res
        shape = list(x[0].shape)
        for t in x[1:]:
            for k in range(r):
                if k != ax:
                    self.need('Concat: other dimensions agree', t.shape[k] == shape[k])
        shape[ax] = tot
        return T(shape, at, x[0].sort)
    def op_Slice(self, n, x):
        a = x[0]
        if self.opset < 10:
            st, en = self.attr(n, 'starts'), self.attr(n, 'ends')
            ax = self.attr(n, 'axes')
            self.need('Slice: starts/ends are attributes below opset 10', z3.BoolVal(len(x) == 1 and st is not None and en is not None))
            if st is None:
                raise Unsupported('Slice attributes')
            st, en = [zint(v) for v in st], [zint(v) for v in en]
            ax = [int(v) for v in ax] if ax is not None else list(range(len(st)))
            sp = [z3.IntVal(1)] * len(st)
        else:
            self.need('Slice: starts/ends are inputs from opset 10', z3.BoolVal(len(x) >= 3 and n.get_attr('starts') is None))
            st, en = const_ints(x[1], 'starts'), const_ints(x[2], 'ends')
            ax = const_ints(x[3], 'axes') if len(x) > 3 else None
            ax = [lit(v, 'axes') for v in ax] if ax is not None else list(range(len(st)))
            sp = const_ints(x[4], 'steps') if len(x) > 4 else None
            sp = sp if sp is not None else [z3.IntVal(1)] * len(st)
        ok = len(st) == len(en) == len(ax) == len(sp) and all(-a.rank <= v < a.rank for v in ax) and len({v % a.rank for v in ax}) == len(ax)
        self.need('Slice: starts, ends, axes, steps have equal length, axes distinct and in range', z3.BoolVal(ok))
        if not ok:
            raise Unsupported('ill-formed Slice')
        shape = list(a.shape)
        base = [z3.IntVal(0)] * a.rank
        step = [z3.IntVal(1)] * a.rank
        for s, e, q, p in zip(st, en, ax, sp):
            q %= a.rank
            d = a.shape[q]
            self.need('Slice: step is not zero', p != 0)
            b, cnt = onnx_slice_axis(d, s, e, p)
            shape[q], base[q], step[q] = cnt, b, p
        def at(idx):
            return a.at([z3.simplify(base[k] + idx[k] * step[k]) for k in range(a.rank)])
        return T(shape, at, a.sort)
    def op_Gather(self, n, x):
        a, ix = x[0], x[1]
        ax = int(self.attr(n, 'axis', 0)) % a.rank
        d = a.shape[ax]
        def at(idx):
            j = ix.at(idx[ax:ax + ix.rank])
            j = z3.If(j < 0, j + d, j)
            return a.at(list(idx[:ax]) + [z3.simplify(j)] + list(idx[ax + ix.rank:]))
        return T(a.shape[:ax] + ix.shape + a.shape[ax + 1:], at, a.sort)
    def op_Split(self, n, x):
        a = x[0]
        ax = int(self.attr(n, 'axis', 0)) % a.rank
        sizes = None
        if len(x) > 1 and x[1] is not None:
            sizes = const_ints(x[1], 'split')
        elif n.get_attr('split') is not None:
            sizes = [zint(v) for v in self.attr(n, 'split')]
        k = len(n.output)
        if sizes is None:
            self.need('Split: equal parts', a.shape[ax] % k == 0)
            sizes = [a.shape[ax] / k] * k
        self.need('Split: one size per output', z3.BoolVal(len(sizes) == k))
        self.need('Split: sizes add up', z3.Sum(sizes) == a.shape[ax])
        outs, o = [], z3.IntVal(0)
        for s in sizes:
            def at(idx, o=o):
                j = list(idx)
                j[ax] = z3.simplify(j[ax] + o)
                return a.at(j)
            sh = list(a.shape)
            sh[ax] = s
            outs.append(T(sh, at, a.sort))
            o = o + s
        return outs
    def op_Expand(self, n, x):
        a = x[0]
        sh = const_ints(x[1], 'shape')
        r = max(len(sh), a.rank)
        A = [z3.IntVal(1)] * (r - a.rank) + a.shape
        B = [z3.IntVal(1)] * (r - len(sh)) + sh
        out = [z3.If(p == 1, q, p) for p, q in zip(A, B)]
        for p, q in zip(A, B):
            self.need('Expand: dimensions compatible', z3.Or(p == q, p == 1, q == 1))
        def at(idx):
            k0 = r - a.rank
            return a.at([z3.If(a.shape[k] == 1, 0, idx[k0 + k]) for k in range(a.rank)])
        return T(out, at, a.sort)
    def op_Pad(self, n, x):
        a = x[0]
        mode = self.attr(n, 'mode', b'constant')
        if self.opset < 11:
            pads = [zint(v) for v in self.attr(n, 'pads')]
        else:
            pads = const_ints(x[1], 'pads')
            if len(x) > 3 and x[3] is not None:
                self.need('Pad: axes need opset 18', z3.BoolVal(self.opset >= 18))
                axs = [lit(v, 'axes') for v in const_ints(x[3], 'axes')]
                ok = all(-a.rank <= v < a.rank for v in axs) and len({v % a.rank for v in axs}) == len(axs) and len(pads) == 2 * len(axs)
                self.need('Pad: axes in range and distinct, two pads each', z3.BoolVal(ok))
                if not ok:
                    raise Unsupported('ill-formed Pad')
                full = [z3.IntVal(0)] * (2 * a.rank)
                for k, v in enumerate(axs):
                    full[v % a.rank], full[v % a.rank + a.rank] = pads[k], pads[k + len(axs)]
                pads = full
        self.need('Pad: two pads per dimension', z3.BoolVal(len(pads) == 2 * a.rank))
        lo, hi = pads[:a.rank], pads[a.rank:]
        shape = [z3.simplify(l + d + h) for l, d, h in zip(lo, a.shape, hi)]
        if mode == b'constant':
            if self.opset < 11:
                v = self.attr(n, 'value', 0.0)
                pv = z3.IntVal(int(v)) if a.sort == 'int' else z3.Const('const:%r' % float(v), VAL)
            else:
                pv = x[2].at([z3.IntVal(0)] * x[2].rank) if len(x) > 2 and x[2] is not None else \
                    (z3.IntVal(0) if a.sort == 'int' else z3.Const('const:0.0', VAL))
            def at(idx):
                src = [z3.simplify(i - l) for i, l in zip(idx, lo)]
                inside = z3.And(*[z3.And(s >= 0, s < d) for s, d in zip(src, a.shape)])
                return z3.If(inside, a.at(src), pv)
        elif mode == b'reflect':
            def at(idx):
                src = []
                for i, l, d in zip(idx, lo, a.shape):
                    s = i - l
                    s = z3.If(s < 0, -s, s)
                    s = z3.If(s >= d, 2 * d - 2 - s, s)
                    src.append(z3.simplify(s))
                return a.at(src)
        else:
            raise Unsupported('Pad mode %r' % mode)
        return T(shape, at, a.sort)
    def op_Tile(self, n, x):
        a = x[0]
        rep = const_ints(x[1], 'repeats')
        self.need('Tile: one repeat per dimension', z3.BoolVal(len(rep) == a.rank))
        return T([d * r for d, r in zip(a.shape, rep)], lambda idx: a.at([i % d for i, d in zip(idx, a.shape)]), a.sort)
    def op_Reshape(self, n, x):
        a = x[0]
        if self.opset < 5:
            sh = [zint(v) for v in self.attr(n, 'shape')]
        else:
            sh = const_ints(x[1], 'shape')
        sh2 = []
        for k, s in enumerate(sh):
            s = z3.simplify(s)
            if z3.is_int_value(s) and s.as_long() == 0:
                s = a.shape[k] if k < a.rank else z3.IntVal(0)
            sh2.append(s)
        hole = [k for k, s in enumerate(sh2) if z3.is_int_value(s) and s.as_long() == -1]
        if hole:
            # the one free dimension takes what the others leave: cancel equal factors
            self.need('Reshape: at most one -1', z3.BoolVal(len(hole) == 1))
            left = [z3.simplify(d) for d in a.shape]
            for k, s in enumerate(sh2):
                if k in hole or z3.is_int_value(s) and s.as_long() == 1:
                    continue
                m = next((d for d in left if z3.eq(d, s)), None)
                if m is None:
                    raise Unsupported('Reshape with -1')
                left.remove(m)
            left = [d for d in left if not (z3.is_int_value(d) and d.as_long() == 1)]
            if len(left) > 1 or len(hole) > 1:
                raise Unsupported('Reshape with -1')
            sh2[hole[0]] = left[0] if left else z3.IntVal(1)
        if len(sh2) == a.rank and all(z3.eq(z3.simplify(p), z3.simplify(q)) for p, q in zip(sh2, a.shape)):
            return T(a.shape, a.at, a.sort)
        # row-major renumbering; equal leading dimensions and ones drop out
        eqz = lambda p, q: z3.eq(z3.simplify(p), z3.simplify(q))
        one = is_one
        lead = 0
        while lead < min(a.rank, len(sh2)) and eqz(a.shape[lead], sh2[lead]):
            lead += 1
        ra = [k for k in range(lead, a.rank) if not one(a.shape[k])]
        rb = [k for k in range(lead, len(sh2)) if not one(sh2[k])]
        def at(idx):
            src = [z3.IntVal(0)] * a.rank
            src[:lead] = idx[:lead]
            if len(ra) == len(rb) and all(eqz(a.shape[p], sh2[q]) for p, q in zip(ra, rb)):
                for p, q in zip(ra, rb):
                    src[p] = idx[q]
                return a.at(src)
            lin = None
            for k in rb:
                lin = idx[k] if lin is None else lin * sh2[k] + idx[k]
            rem = lin if lin is not None else z3.IntVal(0)
            for n_, k in enumerate(ra):
                m = None
                for j in ra[n_ + 1:]:
                    m = a.shape[j] if m is None else m * a.shape[j]
                src[k] = rem if m is None else rem / m
                rem = rem if m is None else rem % m
            return a.at(src)
        p, q = z3.IntVal(1), z3.IntVal(1)
        for d in a.shape: p = p * d
        for d in sh2: q = q * d
        self.need('Reshape: same number of elements', p == q)
        return T(sh2, at, a.sort)
    # ---- integer arithmetic
    def _bin(f, out='int'):
        def op(self, n, x):
            a, b = x
            if a.sort != 'int' or b.sort != 'int':
                return elementwise(n.type)(n, x)
            return broadcast2(a, b, f)
        return op
    op_Add = _bin(lambda p, q: p + q)
    op_Sub = _bin(lambda p, q: p - q)
    op_Mul = _bin(lambda p, q: p * q)
    op_Div = _bin(lambda p, q: z3.If(p * q >= 0, z3.If(q > 0, p / q, (-p) / (-q)), -(z3.If(p < 0, -p, p) / z3.If(q < 0, -q, q))))
    op_Less = _bin(lambda p, q: z3.If(p < q, 1, 0))
    op_Greater = _bin(lambda p, q: z3.If(p > q, 1, 0))
    op_Equal = _bin(lambda p, q: z3.If(p == q, 1, 0))
    op_And = _bin(lambda p, q: z3.If(z3.And(p != 0, q != 0), 1, 0))
    op_Or = _bin(lambda p, q: z3.If(z3.Or(p != 0, q != 0), 1, 0))
    def op_Not(self, n, x):
        a = x[0]
        return T(a.shape, lambda i: z3.If(a.at(i) != 0, 0, 1), 'int')
    def op_Neg(self, n, x):
        a = x[0]
        return T(a.shape, lambda i: -a.at(i), 'int') if a.sort == 'int' else elementwise('Neg')(n, x)
    def op_Max(self, n, x):
        if any(t.sort != 'int' for t in x):
            return elementwise('Max')(n, x)
        r = x[0]
        for t in x[1:]:
            r = broadcast2(r, t, lambda p, q: z3.If(p >= q, p, q))
        return r
    def op_Min(self, n, x):
        if any(t.sort != 'int' for t in x):
            return elementwise('Min')(n, x)
        r = x[0]
        for t in x[1:]:
            r = broadcast2(r, t, lambda p, q: z3.If(p <= q, p, q))
        return r
    def op_Where(self, n, x):
        c, a, b = x
        ab = broadcast2(a, b, None)
        r = max(c.rank, len(ab))
        shp = bshape([c.shape, a.shape, b.shape])
        def at(idx):
            return z3.If(bat(c, idx, shp) != 0, bat(a, idx, shp), bat(b, idx, shp))
        return T(shp, at, a.sort)

def is_lit1(d):
    return z3.is_int_value(d) and d.as_long() == 1
def bshape(shapes):
    r = max(len(s) for s in shapes)
    out = []
    for k in range(r):
        d = z3.IntVal(1)
        for s in shapes:
            j = k - (r - len(s))
            if j >= 0:
                sj = z3.simplify(s[j])
                if z3.eq(z3.simplify(d), sj):
                    continue
                d = d if is_lit1(sj) or is_one(sj) else sj if is_lit1(d) or is_one(d) else z3.If(d == 1, sj, d)
        out.append(d)
    return out
def bat(t, idx, shp=None):
    """element of t under broadcasting to the shape shp (idx is an index into that shape)"""
    off = len(idx) - t.rank
    src = []
    for k, d in enumerate(t.shape):
        d = z3.simplify(d)
        i = idx[off + k]
        src.append(z3.IntVal(0) if is_lit1(d) else i if z3.is_int_value(d) or shp is not None and z3.eq(d, z3.simplify(shp[off + k])) else
                   z3.IntVal(0) if is_one(d) else z3.If(d == 1, 0, i))
    return t.at(src)
def broadcast2(a, b, f):
    shp = bshape([a.shape, b.shape])
    if f is None:
        return shp
    return T(shp, lambda idx: f(bat(a, idx, shp), bat(b, idx, shp)), 'int')

def onnx_slice_axis(d, s, e, p):
    """(first index, element count) of ONNX Slice on one axis of size d"""
    s = z3.If(s < 0, s + d, s)
    e = z3.If(e < 0, e + d, e)
    clamp = lambda v, lo, hi: z3.If(v < lo, lo, z3.If(v > hi, hi, v))
    s2 = z3.If(p > 0, clamp(s, z3.IntVal(0), d), clamp(s, z3.IntVal(0), d - 1))
    e2 = z3.If(p > 0, clamp(e, z3.IntVal(0), d), clamp(e, z3.IntVal(-1), d - 1))
    cnt = ceil_div_span(e2 - s2, p)
    return z3.simplify(s2), z3.simplify(cnt)
def ceil_div_span(span, p):
    """max(0, ceil(span / p)) for p != 0"""
    p = z3.simplify(p)
    if not z3.is_int_value(p):
        # the count is left uninterpreted; what is used of its definition is stated at each use
        f = z3.Function('slice_count', I, I, I)
        span = z3.simplify(span)
        r = f(span, p)
        try:
            ctx().assume(z3.And(z3.Implies(z3.Or(z3.And(p > 0, span <= 0), z3.And(p < 0, span >= 0)), r == 0),
                                z3.Implies(z3.And(p == 1, span > 0), r == span), z3.Implies(z3.And(p == -1, span < 0), r == -span),
                                z3.Implies(z3.And(p > 0, span > 0), z3.And(r >= 1, r <= span, z3.Implies(span <= p, r == 1))),
                                z3.Implies(z3.And(p < 0, span < 0), z3.And(r >= 1, r <= -span, z3.Implies(span >= p, r == 1)))))
        except Unsupported:
            pass
        return r
    up = z3.If(span > 0, (span + p - 1) / p, 0)
    dn = z3.If(span < 0, (-span + (-p) - 1) / (-p), 0)
    return z3.simplify(z3.If(p > 0, up, dn))

ELEM = {}
def elementwise(op):
    """any operator acting element by element with numpy broadcasting: an uninterpreted function of its elements and attributes"""
    if op not in UNARY and op not in NARY:
        return None
    def f(n, x):
        x = [t for t in x if t is not None]
        attrs = ','.join('%s=%r' % (k, a.value()) for k, a in sorted(n.attr.items()) if k not in ('T',) and hasattr(a, 'value') and not k.startswith('_'))
        fn = z3.Function('elem:%s(%s)/%d' % (op, attrs, len(x)), *([VAL] * len(x) + [VAL]))
        shp = bshape([t.shape for t in x])
        return T(shp, lambda idx: fn(*[bat(t, idx, shp) for t in x]))
    return f
UNARY = {'Relu', 'Sigmoid', 'Tanh', 'Exp', 'Log', 'Sqrt', 'Neg', 'Abs', 'Floor', 'Ceil', 'LeakyRelu', 'Elu', 'Selu', 'Softplus', 'Softsign', 'Erf',
         'Clip', 'Reciprocal', 'Not', 'Sign', 'Round', 'HardSigmoid', 'ThresholdedRelu', 'IsNaN', 'Sin', 'Cos'}
NARY = {'Add', 'Sub', 'Mul', 'Div', 'Max', 'Min', 'Sum', 'Mean', 'Pow', 'PRelu', 'Mod', 'Less', 'Greater', 'Equal', 'And', 'Or'}

# ------------------------------------------------------------------ obligations
def same(name, got, want, guard=None):
    """[(obligation name, condition)]: equal rank and dims, and equal elements at every valid index"""
    out = [(name + ': rank', z3.BoolVal(got.rank == want.rank))]
    if got.rank != want.rank:
        return out
    idx = [z3.Int('ix!%d' % k) for k in range(want.rank)]
    for k in range(want.rank):
        out.append(('%s: dimension %d' % (name, k), got.shape[k] == want.shape[k]))
    rng = z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(idx, want.shape)]) if idx else z3.BoolVal(True)
    x, y = got.at(idx), want.at(idx)
    out.append((name + ': element at every index', z3.Implies(rng, x == y) if x.sort() == y.sort() else z3.Not(rng)))
    return out
