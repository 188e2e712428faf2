"""Element-wise operators with interpreted elements.  Two readings of numbers: 'fp' (IEEE floats of the width of the type, two's complement integers of the width of
the type, with infinities, NaN, rounding and overflow) and 'real' (mathematical reals and integers; conversions are exact)."""
import numpy as np
from .z3load import z3
from .core import SBool, Unsupported, I
from .symenv import VAL, zint
from . import denote, optsem as S, tfops as F
from .denote import T, Sem, bshape, bat, Dangling
from .tfops import tp

FLOATS, WIDTH, UNSIGNED = {1, 10, 11}, {2: 8, 3: 8, 4: 16, 5: 16, 6: 32, 7: 64, 12: 32, 13: 64}, {2, 4, 12, 13}
RNE, RTZ = z3.RNE(), z3.RTZ()
def fpsort(dt): return {1: z3.Float32, 10: z3.Float16, 11: z3.Float64}[dt]()
def sort(dt, th):
    dt = int(dt)
    if dt == 9: return z3.BoolSort()
    if dt in FLOATS: return fpsort(dt) if th == 'fp' else z3.RealSort()
    if dt in WIDTH: return z3.BitVecSort(WIDTH[dt]) if th == 'fp' else z3.IntSort()
    raise Unsupported('elements of type %d' % dt)
def lit(v, dt, th):
    dt = int(dt)
    if dt == 9: return z3.BoolVal(bool(v))
    if dt in FLOATS:
        if th == 'fp': return z3.FPVal(float(v), fpsort(dt))
        f = float(v)
        if f != f or f in (float('inf'), -float('inf')): raise Unsupported('non-finite constant among the reals')
        from fractions import Fraction
        q = Fraction(f)
        return z3.RealVal('%d/%d' % (q.numerator, q.denominator))
    return z3.BitVecVal(int(v), WIDTH[dt]) if th == 'fp' else z3.IntVal(int(v))
def isf(dt): return int(dt) in FLOATS

def ordered(x, y):
    """addition and multiplication commute (also in IEEE arithmetic)"""
    return (x, y) if x.get_id() <= y.get_id() else (y, x)
class Num:
    """operations on elements of one type"""
    def __init__(self, dt, th):
        self.dt, self.th = int(dt), th
        self.f, self.u, self.b = isf(dt), int(dt) in UNSIGNED, int(dt) == 9
        self.s = sort(dt, th)
    def lit(self, v): return lit(v, self.dt, self.th)
    def fp(self): return self.f and self.th == 'fp'
    def bv(self): return self.th == 'fp' and not self.f and not self.b
    def add(self, x, y):
        x, y = ordered(x, y)
        return z3.fpAdd(RNE, x, y) if self.fp() else x + y
    def sub(self, x, y): return z3.fpSub(RNE, x, y) if self.fp() else x - y
    def mul(self, x, y):
        x, y = ordered(x, y)
        return z3.fpMul(RNE, x, y) if self.fp() else x * y
    def div(self, x, y):
        """floats: division; integers: truncated towards zero (the divisor is not 0)"""
        if self.fp(): return z3.fpDiv(RNE, x, y)
        if self.f: return x / y
        if self.bv(): return z3.UDiv(x, y) if self.u else x / y
        q = z3.If(x < 0, -x, x) / z3.If(y < 0, -y, y)
        return z3.If((x < 0) != (y < 0), -q, q)
    def neg(self, x): return z3.fpNeg(x) if self.fp() else -x
    def abs(self, x): return z3.fpAbs(x) if self.fp() else x if self.u else z3.If(x < 0, -x, x)
    def lt(self, x, y):
        if self.b: return z3.And(z3.Not(x), y)
        return z3.fpLT(x, y) if self.fp() else z3.ULT(x, y) if self.bv() and self.u else x < y
    def le(self, x, y): return z3.fpLEQ(x, y) if self.fp() else z3.ULE(x, y) if self.bv() and self.u else x <= y
    def eq(self, x, y): return z3.fpEQ(x, y) if self.fp() else x == y
    def nan(self, x): return z3.fpIsNaN(x) if self.fp() else z3.BoolVal(False)
    def inf(self, x): return z3.fpIsInf(x) if self.fp() else z3.BoolVal(False)
    def max(self, x, y): return z3.If(self.lt(x, y), y, x)
    def min(self, x, y): return z3.If(self.lt(y, x), y, x)
    def floor(self, x): return z3.fpRoundToIntegral(z3.RTN(), x) if self.fp() else z3.ToReal(z3.ToInt(x)) if self.f else x
    def ceil(self, x): return z3.fpRoundToIntegral(z3.RTP(), x) if self.fp() else -z3.ToReal(z3.ToInt(-x)) if self.f else x
    def round(self, x):
        """to nearest, ties to even"""
        if self.fp(): return z3.fpRoundToIntegral(RNE, x)
        if not self.f: return x
        n = z3.ToInt(x + z3.RealVal('1/2'))
        return z3.ToReal(z3.If(z3.And(z3.ToReal(n) == x + z3.RealVal('1/2'), n % 2 != 0), n - 1, n))
    def uf(self, name, *xs): return z3.Function(name if self.th == 'real' else '%s:%d' % (name, self.dt), *([self.s] * (len(xs) + 1)))(*xs)
    def same(self, x, y):
        """same number (zeros of either sign are)"""
        return z3.Or(x == y, z3.fpEQ(x, y)) if self.fp() else x == y

def convert(v, a, b, th):
    """element v of type a as type b"""
    a, b = int(a), int(b)
    if a == b: return v
    if a == 9: return z3.If(v, lit(1, b, th), lit(0, b, th))
    if b == 9: return z3.Not(z3.fpIsZero(v)) if isf(a) and th == 'fp' else v != lit(0, a, th)
    if th == 'real':
        if isf(a) == isf(b): return v
        if isf(b): return z3.ToReal(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if isf(a) and isf(b): return z3.fpToFP(RNE, v, fpsort(b))
    if isf(b): return z3.fpToFPUnsigned(RNE, v, fpsort(b)) if a in UNSIGNED else z3.fpSignedToFP(RNE, v, fpsort(b))
    if isf(a): return (z3.fpToUBV if b in UNSIGNED else z3.fpToSBV)(RTZ, v, z3.BitVecSort(WIDTH[b]))
    d = WIDTH[b] - WIDTH[a]
    if d < 0: return z3.Extract(WIDTH[b] - 1, 0, v)
    return v if d == 0 else z3.ZeroExt(d, v) if a in UNSIGNED else z3.SignExt(d, v)

# ------------------------------------------------------------------ meanings of the ONNX operators
class SemE(F.Sem15):
    th = 'fp'
    def get(self, name):
        if name and name not in self.env:
            n = self.g.get_node_by_output(name)
            if n is not None and n.is_const():
                t = n.get_attr('value').t
                self.env[name] = r = const(t, self.th)
                r.dt = t.data_type
                return r
        return F.Sem15.get(self, name)
    def el(self, t, idx, shp=None):
        v = bat(t, idx, shp) if shp is not None else t.at(idx)
        return typed(v, t, self.th)
def typed(v, t, th):
    if t.sort == 'int':
        if int(t.dt) == 9: return v if z3.is_bool(v) else v != 0
        w = z3.simplify(v)
        if isf(t.dt): raise Unsupported('float among index integers')
        if th == 'real': return w
        return z3.BitVecVal(w.as_long(), WIDTH[int(t.dt)]) if z3.is_int_value(w) else z3.Int2BV(w, WIDTH[int(t.dt)])
    return v
def const(t, th):
    a = t.arr
    from .symenv import OpaqueArr, SArr
    if isinstance(a, (OpaqueArr, SArr)): return denote.from_tensor(t)
    b = np.asarray(a)
    if b.dtype.kind in 'iu': return denote.from_tensor(t)
    dims, flat, dt = [int(d) for d in t.dims], list(b.reshape(-1)), t.data_type
    els = [lit(x, dt, th) for x in flat]
    def at(idx):
        lin = z3.IntVal(0)
        for d, i in zip(dims, idx): lin = lin * d + i
        lin = z3.simplify(lin)
        if not els: raise Unsupported('element of an empty constant')
        r = els[-1]
        for k in range(len(els) - 2, -1, -1): r = z3.If(lin == k, els[k], r)
        return z3.simplify(r)
    return T(dims, at)

def elem(f, out=None):
    """operator that acts element by element: f(num, attrs, *elements)"""
    def op(s, n, x):
        x = [t for t in x if t is not None]
        if all(t.sort == 'int' and int(t.dt) not in (9,) for t in x) and hasattr(Sem, 'op_' + n.type): return getattr(Sem, 'op_' + n.type)(s, n, x)
        shp = bshape([t.shape for t in x])
        if n.type in ('Max', 'Min', 'Sum', 'Mean') and s.opset < 8:
            s.need('%s: operands of one shape before opset 8' % n.type, z3.And(*[z3.And(z3.BoolVal(t.rank == len(shp)), *[p == q for p, q in zip(t.shape, shp)]) for t in x]))
        num = Num(x[-1].dt, s.th)
        at = lambda name, d=None: s.attr(n, name, d)
        r = T(shp, lambda idx: f(num, at, *[s.el(t, idx, shp) for t in x]))
        r.dt = out if out else x[0].dt
        return r
    return op
def fold(m):
    def f(N, at, *xs):
        r = xs[0]
        for x in xs[1:]: r = getattr(N, m)(r, x)
        return r
    return f
def uf(name): return lambda N, at, x: N.uf(name, x)
def clip(s, n, x):
    x = list(x) + [None] * (3 - len(x))
    a, num = x[0], Num(x[0].dt, s.th)
    lo, hi = x[1], x[2]
    if s.opset < 11:
        s.need('Clip: bounds are attributes before opset 11', z3.BoolVal(lo is None and hi is None))
        L, H = s.attr(n, 'min'), s.attr(n, 'max')
        el = lambda idx: (None if L is None else lit(np.float32(L), num.dt, s.th), None if H is None else lit(np.float32(H), num.dt, s.th))
    else:
        for t in (lo, hi):
            if t is not None: s.need('Clip: bounds are scalars', z3.BoolVal(t.rank == 0))
        el = lambda idx: tuple(None if t is None else s.el(t, []) for t in (lo, hi))
    def at(idx):
        v = s.el(a, idx)
        l, h = el(idx)
        if l is not None: v = num.max(v, l)
        return v if h is None else num.min(v, h)
    r = T(a.shape, at)
    r.dt = a.dt
    return r
def cast(s, n, x):
    a, to = x[0], int(s.attr(n, 'to'))
    if a.sort == 'int' and to in WIDTH:
        r = T(a.shape, a.at, 'int')
    else:
        r = T(a.shape, lambda idx: convert(s.el(a, idx), a.dt, to, s.th))
    r.dt = to
    return r
def where(s, n, x):
    c, a, b = x
    shp = bshape([c.shape, a.shape, b.shape])
    r = T(shp, lambda idx: z3.If(s.el(c, idx, shp), s.el(a, idx, shp), s.el(b, idx, shp)))
    r.dt = a.dt
    return r
def mod(N, at, x, y):
    fmod = int(at('fmod', 0))
    if N.f:
        if N.fp(): return N.uf('fmod', x, y)
        return x - y * (lambda q: z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q))))(x / y)
    if N.bv():
        return z3.URem(x, y) if N.u else z3.SRem(x, y) if fmod else x % y
    t = x - y * N.div(x, y)
    return t if fmod else z3.If(z3.And(t != 0, (t < 0) != (y < 0)), t + y, t)
def sign(N, x): return z3.If(N.lt(x, N.lit(0)), N.lit(-1), z3.If(N.lt(N.lit(0), x), N.lit(1), N.lit(0))) if not N.u else z3.If(x == 0, N.lit(0), N.lit(1))
def shift(N, at, x, y):
    d = at('direction')
    d = d.decode() if isinstance(d, bytes) else d
    if not N.bv(): raise Unsupported('shift')
    return x << y if d == 'LEFT' else z3.LShR(x, y)
def expm1(N, x): return N.sub(N.uf('exp', x), N.lit(1))
def f32(N, v): return N.lit(float(np.float32(v)))
def elu(N, at, x): return z3.If(N.lt(x, N.lit(0)), N.mul(f32(N, at('alpha', 1.0)), expm1(N, x)), x)
def selu(N, at, x):
    a, g = at('alpha', 1.67326319217681884765625), at('gamma', 1.05070102214813232421875)
    return z3.If(N.le(x, N.lit(0)), N.mul(f32(N, g), N.sub(N.mul(f32(N, a), N.uf('exp', x)), f32(N, a))), N.mul(f32(N, g), x))
def hardswish(N, at, x): return N.mul(x, N.max(N.lit(0), N.min(N.lit(1), N.add(N.mul(f32(N, 1 / 6), x), f32(N, 0.5)))))
def constant_of_shape(s, n, x):
    v = s.attr(n, 'value')
    if v is None: r, dt = T(denote.const_ints(x[0], 'shape'), lambda idx: lit(0, 1, s.th)), 1
    else:
        c, dt = const(v, s.th), int(v.data_type)
        c.dt = dt
        r = T(denote.const_ints(x[0], 'shape'), lambda idx: typed(c.at([z3.IntVal(0)] * c.rank), c, s.th))
    r.dt = dt
    return r
def is_inf(N, at, x):
    p, m = int(at('detect_positive', 1)), int(at('detect_negative', 1))
    return z3.And(N.inf(x), z3.Or(z3.And(z3.BoolVal(bool(p)), N.lt(N.lit(0), x)), z3.And(z3.BoolVal(bool(m)), N.lt(x, N.lit(0)))))
def bn(s, n, x):
    """inference form, per channel (dimension 1)"""
    a = x[0]
    N = Num(a.dt, s.th)
    s.need('BatchNormalization: inference', z3.BoolVal(len(n.output) == 1 and not int(s.attr(n, 'training_mode', 0))))
    for t in x[1:]:
        s.need('BatchNormalization: one parameter per channel', z3.And(z3.BoolVal(t.rank == 1), t.shape[0] == a.shape[1]) if t.rank == 1 else z3.BoolVal(False))
    eps = f32(N, s.attr(n, 'epsilon', 1e-5))
    if any(t.rank != 1 for t in x[1:]): raise Unsupported('BatchNormalization parameters')
    def at(idx):
        c = [s.el(t, [idx[1]]) for t in x[1:]]
        return normal(N, s.el(a, idx), *(c + [eps]))
    r = T(a.shape, at)
    r.dt = a.dt
    return r
def normal(N, x, sc, b, m, v, eps): return N.uf('normalized', x, sc, b, m, v, eps)
def sum_(s, n, x): return elem(fold('add'))(s, n, x)
def prelu(N, at, x, y): return z3.If(N.lt(x, N.lit(0)), N.mul(y, x), x)

B = 9
ELEM = {
 'Add': elem(lambda N, at, x, y: N.add(x, y)), 'Sub': elem(lambda N, at, x, y: N.sub(x, y)), 'Mul': elem(lambda N, at, x, y: N.mul(x, y)), 'Div': elem(lambda N, at, x, y: N.div(x, y)),
 'Mod': elem(mod), 'Max': elem(fold('max')), 'Min': elem(fold('min')), 'Sum': sum_, 'Neg': elem(lambda N, at, x: N.neg(x)), 'Abs': elem(lambda N, at, x: N.abs(x)),
 'Less': elem(lambda N, at, x, y: N.lt(x, y), B), 'Greater': elem(lambda N, at, x, y: N.lt(y, x), B), 'LessOrEqual': elem(lambda N, at, x, y: N.le(x, y), B),
 'GreaterOrEqual': elem(lambda N, at, x, y: N.le(y, x), B), 'Equal': elem(lambda N, at, x, y: N.eq(x, y), B),
 'And': elem(lambda N, at, x, y: z3.And(x, y), B), 'Or': elem(lambda N, at, x, y: z3.Or(x, y), B), 'Xor': elem(lambda N, at, x, y: z3.Xor(x, y), B), 'Not': elem(lambda N, at, x: z3.Not(x), B),
 'IsNaN': elem(lambda N, at, x: N.nan(x), B), 'IsInf': elem(is_inf, B), 'Sign': elem(lambda N, at, x: sign(N, x)), 'Floor': elem(lambda N, at, x: N.floor(x)), 'Ceil': elem(lambda N, at, x: N.ceil(x)),
 'Round': elem(lambda N, at, x: N.round(x)), 'Relu': elem(lambda N, at, x: N.max(x, N.lit(0))), 'LeakyRelu': elem(lambda N, at, x: z3.If(N.lt(x, N.lit(0)), N.mul(f32(N, at('alpha', 0.01)), x), x)),
 'Elu': elem(elu), 'Selu': elem(selu), 'HardSwish': elem(hardswish), 'PRelu': elem(prelu), 'Reciprocal': elem(lambda N, at, x: N.div(N.lit(1), x)), 'Pow': elem(lambda N, at, x, y: N.uf('pow', x, y)),
 'BitShift': elem(shift), 'BitwiseAnd': elem(lambda N, at, x, y: x & y), 'BitwiseOr': elem(lambda N, at, x, y: x | y), 'BitwiseXor': elem(lambda N, at, x, y: x ^ y), 'BitwiseNot': elem(lambda N, at, x: ~x),
 'Clip': clip, 'Cast': cast, 'Where': where, 'ConstantOfShape': constant_of_shape, 'BatchNormalization': bn,
}
for _o, _n in dict(Exp='exp', Log='log', Sqrt='sqrt', Sigmoid='sigmoid', Tanh='tanh', Softplus='softplus', Softsign='softsign', Erf='erf', Sin='sin', Cos='cos', Tan='tan', Asin='asin', Acos='acos', Atan='atan',
                   Sinh='sinh', Cosh='cosh', Asinh='asinh', Acosh='acosh', Atanh='atanh').items(): ELEM[_o] = elem(uf(_n))
EXTRA = dict(F.EXTRA, **ELEM)
def id_(s, n, x):
    return x[0]
EXTRA['Identity'] = id_

# ------------------------------------------------------------------ cases
def in_tensor(th):
    def f(nm, dims, dt):
        dims = list(dims)
        s = sort(dt, th)
        g = z3.Function('in:' + nm, *([I] * len(dims) + [s])) if dims else None
        return T(dims, lambda idx: g(*idx) if dims else z3.Const('in:' + nm, s))
    return f
def array(th):
    from .symenv import OpaqueArr
    def f(nm, dims, dt):
        s = sort(dt, th)
        dims = list(dims)
        g = z3.Function('const:' + nm, *([I] * len(dims) + [s])) if dims else None
        return OpaqueArr(dims, lambda idx: g(*[i if z3.is_expr(i) else z3.IntVal(i) for i in idx]) if dims else z3.Const('const:' + nm, s))
    return f
def sem_of(th):
    def make(g, env, opset):
        s = SemE(g, env, opset, EXTRA)
        s.th = th
        return s
    return make
def same_of(th):
    def f(name, got, want):
        out = [(name + ': rank', z3.BoolVal(got.rank == want.rank))]
        if got.rank != want.rank: return out
        idx = [z3.Int('ix!%d' % k) for k in range(want.rank)]
        for k in range(want.rank): out.append(('%s: dimension %d' % (name, k), got.shape[k] == want.shape[k]))
        hyp = [z3.And(i >= 0, i < d) for i, d in zip(idx, want.shape)]
        idx = [z3.IntVal(0) if F.is_one(d) else i for i, d in zip(idx, want.shape)]          # the only index of a dimension of 1
        if getattr(want, 'hyp', None) is not None: hyp.append(want.hyp(idx))
        x, y = typed(got.at(idx), got, th), want.at(idx)
        ok = Num(want.dt, th).same(x, y) if x.sort() == y.sort() else z3.BoolVal(False)
        out.append((name + ': element at every index', z3.Implies(z3.And(*hyp), ok) if hyp else ok))
        return out
    return f

def E(op, ins, f, th, attrs=None, out=None, hyp=None, must=True, shape=None):
    """converted element-wise operator: f(nums, *elements) under broadcasting; ins as for K, all of kind 'x', 'v' or '='; out: element type of the result"""
    def want(ts):
        shp = bshape([t.shape for t in ts])
        nums = [Num(t.dt, th) for t in ts]
        els = lambda idx: [typed(bat(t, idx, shp), t, th) for t in ts]
        w = T(shp, lambda idx: f(nums, *els(idx)))
        if hyp: w.hyp = lambda idx: hyp(nums, *els(idx))
        return [w]
    k = F.K(op, ins, want, attrs, types=[out] if out else None, must=must)
    return arm(k, th)
def arm(k, th):
    k.tensor, k.array, k.sem, k.same, k.scalar, k.th = in_tensor(th), array(th), sem_of(th), same_of(th), (lambda arr, dt: lit(arr, dt, th)), th
    return k
