"""C16: element-wise operators compute TensorFlow's function of TensorFlow's operands."""
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SBool, Unsupported
from pyvc import tfops as F, tfelem as X, denote
from pyvc.tfops import K, T
from pyvc.tfelem import E, Num, lit
from props.C03 import Ints

LEVEL = 'proof'
PROOF_SHARDS = 7
BOUNDED_SHARDS = 3
TRUSTED = ['CPython executing the instrumented handlers', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2', 'element meanings of the emitted ONNX operators (pyvc/tfelem.py)', 'operator schemas shipped with onnx (types, attributes)']
ASSUMPTIONS = ['TensorFlow semantics of each operator as stated in the contract (compared with TensorFlow itself by the bounded net)',
               'reading fp: IEEE arithmetic and two\'s complement integers; reading real: exact arithmetic and exact conversions (used where the handler computes by another formula or converts integers to float)',
               'exponentials, logarithms, trigonometric functions, powers, error function and their relatives are uninterpreted functions of their operand',
               'operands of maximum, minimum, clipping, rectifiers and sign are not NaN; integer divisors are not 0; the bounds of a clipping are ordered',
               'tensors are not empty (every dimension at least 1)']
EXPLANATION = ('the real handler the real registry selects is executed for each element-wise operator on broadcast operands of symbolic dimensions and arbitrary elements (IEEE floats, two\'s complement integers, Booleans), for every element type and '
               'opset form; the emitted operators must compute TensorFlow\'s element at every index, be allowed by the operator schemas of the opset, and carry right records')
BOUNDED_NOTE = 'models_*: generated models with the operators on all their element types (infinities and NaN among the operands where the contract allows them), broadcast shapes, unknown dimensions and opsets 7-18, converted end to end, run with onnxruntime and compared with TensorFlow'

KNOWN = ['all', 'rank', 'none']
ALL = [7, 8, 9, 10, 11, 12, 13, 15, 18]
FEW = [7, 9, 11, 13, 18]
FL, IN = [1, 10, 11], [6, 7]
FORMS = ['same', 'row', 'scalar', 'scalar-first', 'outer', 'longer', 'const', 'const-first', 'twice']

CS = []
def con(name, fn, build, pre=None, cover=('converted',), limit=100, timeout=10000, **p):
    CS.append((name, fn, build, pre, cover, limit, timeout, p))
M, L, Te, G, N, Co = ['tf2onnx.onnx_opset.%s:' % m for m in ('math', 'logical', 'tensor', 'generator', 'nn', 'common')]
D4 = dict(D=Ints(4, 1))

def operands(form, D, dt, v=2.0):
    a, b, c = D[:3]
    return {'same': [('x', [a, b], dt), ('x', [a, b], dt)], 'row': [('x', [a, b], dt), ('x', [b], dt)], 'scalar': [('x', [a, b], dt), ('x', [], dt)], 'scalar-first': [('x', [], dt), ('x', [a, b], dt)],
            'outer': [('x', [a, 1], dt), ('x', [1, b], dt)], 'longer': [('x', [b], dt), ('x', [a, b], dt)], 'const': [('x', [a, b], dt), ('v', v)], 'const-first': [('v', v), ('x', [a, b], dt)], 'twice': [('x', [a, b], dt), ('=', 0)]}[form]
def binary(op, f, hyp=None, out=None, must=True, attrs=None):
    def build(a):
        k = E(op, operands(a.form, list(a.D), a.dt), f, a.th, dict(attrs or {}), out=out, hyp=hyp, must=must if not callable(must) else must(a))
        k.special = special(op, a)
        k.skip_net = op in ('Maximum', 'Minimum') and a.opset < 8 and a.known != 'all'
        j = 1 if k.ins[1][0] == 'x' else 0 if k.ins[1][0] == '=' else None
        if op in ('Div', 'TruncateDiv', 'FloorDiv', 'FloorMod') and a.dt in IN and j is not None: k.conc = {q: (lambda rng, v: np.where(v == 0, 3, v)) for q in (0, 1) if k.ins[q][0] == 'x'}  # 0 / y is left out: a model that divides by x ends the process
        if op.endswith('Shift') and j is not None: k.conc = {j: lambda rng, v: rng.randint(0, X.WIDTH[a.dt], v.shape)}
        return k
    return build
def unary(op, f, hyp=None, out=None, attrs=None, must=True):
    def build(a):
        at = dict(attrs or {})
        if 'alpha' in a: at['alpha'] = a.alpha
        k = E(op, [('x', list(a.D)[:a.get('r', 2)], a.dt)], (lambda n, x: f(n, x, a)) if 'alpha' in a else f, a.th, at, out=out(a) if callable(out) else out, hyp=hyp, must=must if not callable(must) else must(a))
        k.special = special(op, a)
        return k
    return build
SPECIAL = {'Add', 'AddV2', 'Sub', 'Mul', 'RealDiv', 'Less', 'Greater', 'IsNan', 'IsInf', 'IsFinite', 'Abs', 'Neg', 'Floor', 'Ceil', 'ZerosLike', 'OnesLike', 'BiasAdd'}
def special(op, a): return op in SPECIAL or op in ('Equal', 'NotEqual') and a.opset >= 11 or op in ('LessEqual', 'GreaterEqual') and a.opset >= 12
def thin(a):
    """every operand form, record and opset for the first type of a contract; the other types (which only choose casts) with fewer"""
    if a.get('_all') or a.dt == a['_dt0']: return a.get('form') in ('same', 'row', 'longer', 'scalar') or a.known == 'all' or a.get('form') is None
    return a.get('form') in ('same', 'const', 'longer', None) and a.known in ('all', 'rank')
def nonzero(ns, x, y): return z3.Not(ns[1].eq(y, ns[1].lit(0))) if not ns[1].f else z3.BoolVal(True)
def real_nonzero(ns, x, y): return z3.Not(ns[1].eq(y, ns[1].lit(0)))
def nonan(ns, *xs): return z3.And(*[z3.Not(n.nan(x)) for n, x in zip(ns, xs)])

def floor_div(n, x, y):
    q = n.div(x, y)
    if n.f: return n.floor(q)
    if n.bv():
        r = z3.SRem(x, y)
        return z3.If(z3.And(r != 0, (r < 0) != (y < 0)), q - 1, q)
    t = x / y                                      # z3: the remainder is not negative
    return z3.If(z3.And(y < 0, x - y * t != 0), t - 1, t)
def floor_mod(n, x, y):
    if n.f: return n.sub(x, n.mul(y, n.floor(n.div(x, y))))
    if n.bv(): return x % y
    return x - y * floor_div(n, x, y)

def build_all():
    if CS: return CS
    br = dict(form=OneOf(FORMS), **D4)
    # arithmetic
    for op in ('Add', 'AddV2', 'Sub', 'Mul'):
        f = dict(Add='add', AddV2='add', Sub='sub', Mul='mul')[op]
        con(op.lower(), M + 'BroadcastOp.version_6', binary(op, lambda ns, x, y, f=f: getattr(ns[0], f)(x, y)), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL + IN), th=Const('fp'), **br)
    con('realdiv', M + 'RealDiv.version_6', binary('RealDiv', lambda ns, x, y: ns[0].div(x, y)), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
    con('div', M + 'BroadcastOp.version_6', binary('Div', lambda ns, x, y: ns[0].div(x, y), nonzero), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL + IN), th=Const('fp'), **br)
    con('truncatediv', M + 'RealDiv.version_6', binary('TruncateDiv', lambda ns, x, y: ns[0].div(x, y), nonzero), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(IN), th=Const('fp'), **br)
    con('floordiv', M + 'FloorDiv.version_6', binary('FloorDiv', lambda ns, x, y: floor_div(ns[0], x, y), nonzero), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
    con('floordiv-int', M + 'FloorDiv.version_6', binary('FloorDiv', lambda ns, x, y: floor_div(ns[0], x, y), nonzero), opset=OneOf([7, 9, 11, 13, 18]), known=OneOf(['all', 'rank']), dt=OneOf(IN), th=Const('real'), **br)
    con('floormod', M + 'FloorMod.version_7', binary('FloorMod', lambda ns, x, y: floor_mod(ns[0], x, y), real_nonzero), opset=OneOf(FEW), known=OneOf(['all', 'rank']), dt=OneOf(FL + IN), th=Const('real'), **br)
    for op, f in (('Maximum', 'max'), ('Minimum', 'min')):
        g = lambda ns, x, y, f=f: getattr(ns[0], f)(x, y)
        con(op.lower(), M + 'MinMaxOp.version_1', binary(op, g, nonan), opset=OneOf([8, 9, 11, 12, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
        con(op.lower() + '-7', M + 'MinMaxOp.version_1', binary(op, g, must=lambda a: a.known == 'all' and a.form != 'outer'), opset=Const(7), known=Const('all'), dt=OneOf(FL), th=Const('real'), **br)
        con(op.lower() + '-int', M + 'MinMaxOp.version_12', binary(op, g), opset=OneOf([12, 13, 18]), known=OneOf(KNOWN), dt=OneOf(IN), th=Const('fp'), **br)
        con(op.lower() + '-int-cast', M + 'MinMaxOp.version_1', binary(op, g), opset=OneOf([8, 9, 11]), known=OneOf(KNOWN), dt=OneOf(IN), th=Const('real'), **br)
    con('squareddifference', M + 'SquaredDifference.version_1', binary('SquaredDifference', lambda ns, x, y: ns[0].mul(ns[0].sub(x, y), ns[0].sub(x, y))), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL + IN), th=Const('fp'), **br)
    con('pow', M + 'Pow.version_7', binary('Pow', lambda ns, x, y: ns[0].uf('pow', x, y)), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
    con('divnonan', M + 'DivNoNan.version_9', binary('DivNoNan', lambda ns, x, y: z3.If(ns[0].eq(y, ns[0].lit(0)), ns[0].lit(0), ns[0].div(x, y))), opset=OneOf([9, 10, 11, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
    pi2 = lambda n: n.lit(np.array(np.pi / 2, {1: np.float32, 10: np.float16, 11: np.float64}[n.dt]))
    def atan2(ns, y, x):
        n = ns[0]
        at, p = n.uf('atan', n.div(y, x)), pi2(n)
        return z3.If(x > 0, at, z3.If(x < 0, z3.If(y < 0, at - 2 * p, at + 2 * p), z3.If(y > 0, p, z3.If(y < 0, -p, n.lit(0)))))
    con('atan2', M + 'Atan2Op.version_9', binary('Atan2', atan2), opset=OneOf([9, 11, 13, 18]), known=OneOf(['all', 'rank']), dt=OneOf(FL), th=Const('real'), **br)
    # comparisons and logic
    def cmp(op, f, name):
        g = lambda ns, x, y: f(ns[0], x, y)
        old = op in ('LessEqual', 'GreaterEqual')
        eqs = op in ('Equal', 'NotEqual')
        vf = dict(Less='GreaterLess.version_7', Greater='GreaterLess.version_7', LessEqual='GreaterLessEqual.version_7', GreaterEqual='GreaterLessEqual.version_7', Equal='Equal.version_7', NotEqual='Equal.version_7')[op]
        if eqs:
            con(name, L + 'Equal.version_11', binary(op, g, out=9), opset=OneOf([11, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL + IN + [9]), th=Const('fp'), **br)
            con(name + '-7', L + vf, binary(op, g, out=9), opset=OneOf([7, 9, 10]), known=OneOf(KNOWN), dt=OneOf(IN + [9]), th=Const('fp'), **br)
            con(name + '-7-float', L + vf, binary(op, g, nonan, out=9, must=lambda a: True), None, opset=OneOf([7, 9, 10]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
        else:
            con(name, L + vf, binary(op, g, nonan if old else None, out=9), opset=OneOf([7, 9, 11]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
            if old: con(name + '-12', L + 'GreaterLessEqual.version_12', binary(op, g, out=9), opset=OneOf([12, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL + IN), th=Const('fp'), **br)
            else: con(name + '-late', L + vf, binary(op, g, out=9), opset=OneOf([13, 18]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), **br)
            con(name + '-int', L + vf, binary(op, g, out=9), opset=OneOf([9, 11, 13, 18] if not old else [9, 11]), known=OneOf(KNOWN), dt=OneOf(IN + [3, 5, 2, 4]), th=Const('fp'), **br)
            con(name + '-int-7', L + vf, binary(op, g, out=9), opset=OneOf([7, 8]), known=OneOf(['all', 'rank']), dt=OneOf(IN), th=Const('real'), **br)
    cmp('Less', lambda n, x, y: n.lt(x, y), 'less'); cmp('Greater', lambda n, x, y: n.lt(y, x), 'greater')
    cmp('LessEqual', lambda n, x, y: n.le(x, y), 'lessequal'); cmp('GreaterEqual', lambda n, x, y: n.le(y, x), 'greaterequal')
    cmp('Equal', lambda n, x, y: n.eq(x, y), 'equal'); cmp('NotEqual', lambda n, x, y: z3.Not(n.eq(x, y)), 'notequal')
    for op, f in (('LogicalAnd', z3.And), ('LogicalOr', z3.Or)):
        con(op.lower(), L + 'BroadcastOp.version_6', binary(op, lambda ns, x, y, f=f: f(x, y)), opset=OneOf(FEW), known=OneOf(KNOWN), dt=Const(9), th=Const('fp'), **br)
    con('logicalnot', L + 'DirectOp.version_1', unary('LogicalNot', lambda ns, x: z3.Not(x)), opset=OneOf(FEW), known=OneOf(KNOWN), dt=Const(9), th=Const('fp'), **D4)
    for op, f in (('BitwiseAnd', lambda x, y: x & y), ('BitwiseOr', lambda x, y: x | y), ('BitwiseXor', lambda x, y: x ^ y)):
        con(op.lower(), M + 'BitwiseOps.version_18', binary(op, lambda ns, x, y, f=f: f(x, y)), opset=Const(18), known=OneOf(KNOWN), dt=OneOf([2, 3, 4, 5, 6, 7]), th=Const('fp'), **br)
    con('invert', M + 'BitwiseOps.version_18', unary('Invert', lambda ns, x: ~x), opset=Const(18), known=OneOf(KNOWN), dt=OneOf([2, 3, 4, 5, 6, 7]), th=Const('fp'), **D4)
    inrange = lambda ns, x, y: z3.And(z3.UGE(y, 0), z3.ULT(y, ns[1].lit(X.WIDTH[ns[1].dt])))
    con('leftshift', M + 'BitShift.version_11', binary('LeftShift', lambda ns, x, y: x << y, inrange, must=lambda a: a.dt != 7), opset=OneOf([11, 13, 18]), known=OneOf(KNOWN), dt=OneOf([2, 3, 4, 5, 6, 7, 12, 13]), th=Const('fp'), **br)
    con('rightshift', M + 'BitShift.version_11', binary('RightShift', lambda ns, x, y: z3.LShR(x, y) if ns[0].u else x >> y, inrange, must=lambda a: a.dt != 7), opset=OneOf([11, 13, 18]), known=OneOf(KNOWN), dt=OneOf([2, 3, 4, 5, 6, 7, 12, 13]), th=Const('fp'), **br)
    for op, o, f in (('IsNan', 9, lambda n, x: n.nan(x)), ('IsInf', 10, lambda n, x: n.inf(x)), ('IsFinite', 10, lambda n, x: z3.Not(z3.Or(n.nan(x), n.inf(x))))):
        con(op.lower(), dict(IsNan=Te + 'IsNan.version_9', IsInf=Te + 'IsInf.version_10', IsFinite=M + 'IsFinite.version_10')[op], unary(op, lambda ns, x, f=f: f(ns[0], x), out=9), opset=OneOf([z for z in ALL if z >= o]), known=OneOf(KNOWN),
            dt=OneOf([1, 11]), th=Const('fp'), **D4)
    # one operand
    def one(op, f, hyp=None, ops=FEW, dts=FL, fn='DirectOp.version_6', th='fp', name=None, **kw):
        con(name or op.lower(), M + fn, unary(op, f, hyp, **kw), opset=OneOf(ops), known=OneOf(KNOWN), dt=OneOf(dts), th=Const(th), r=OneOf([0, 2]), **D4)
    m1 = lambda m: (lambda ns, x: getattr(ns[0], m)(x))
    one('Abs', m1('abs'), dts=FL + IN); one('Neg', m1('neg'), dts=FL + IN); one('Floor', m1('floor')); one('Ceil', m1('ceil'))
    one('Round', m1('round'), ops=[11, 13, 18], fn='Round.version_11'); one('Rint', m1('round'), ops=[11, 13, 18], fn='Rint.version_11')
    one('Square', lambda ns, x: ns[0].mul(x, x), fn='Square.version_1', dts=FL + IN)
    one('Sqrt', lambda ns, x: ns[0].uf('sqrt', x)); one('Rsqrt', lambda ns, x: ns[0].div(ns[0].lit(1), ns[0].uf('sqrt', x)), fn='Rsqrt.version_1')
    one('Reciprocal', lambda ns, x: ns[0].div(ns[0].lit(1), x))
    for op in ('Exp', 'Sigmoid', 'Tanh'): one(op, lambda ns, x, u=op.lower(): ns[0].uf(u, x))
    one('Log', lambda ns, x: ns[0].uf('log', x), dts=[1]); one('Log', lambda ns, x: ns[0].uf('log', x), dts=[11], th='real', name='log-double')
    for op in ('Softplus', 'Softsign'): one(op, lambda ns, x, u=op.lower(): ns[0].uf(u, x), fn='DirectOpSinceOpset1.version_1')
    for op in ('Acos', 'Asin', 'Atan', 'Cos', 'Sin', 'Tan'): one(op, lambda ns, x, u=op.lower(): ns[0].uf(u, x), fn='TrigOpSinceOpset7.version_7')
    for op in ('Acosh', 'Asinh', 'Atanh', 'Cosh', 'Sinh'): one(op, lambda ns, x, u=op.lower(): ns[0].uf(u, x), ops=[9, 11, 13, 18], fn='TrigOpSinceOpset9.version_9')
    one('Erf', lambda ns, x: ns[0].uf('erf', x), ops=[9, 11, 13, 18], dts=[1], fn='Erf.version_9')
    one('Sign', lambda ns, x: X.sign(ns[0], x), nonan, ops=[9, 11, 13, 18], dts=FL + IN, fn='Sign.version_9')
    one('Sign', lambda ns, x: X.sign(ns[0], x), nonan, ops=[7, 8], dts=[1], fn='Sign.version_1', name='sign-7')
    one('Sign', lambda ns, x: X.sign(ns[0], x), ops=[7, 8], dts=IN, fn='Sign.version_1', name='sign-7-int', th='real')
    one('Relu', lambda ns, x: ns[0].max(x, ns[0].lit(0)), nonan)
    one('Relu', lambda ns, x: ns[0].max(x, ns[0].lit(0)), ops=[14, 15, 18], dts=[6], name='relu-int')
    one('Relu6', lambda ns, x: ns[0].min(ns[0].max(x, ns[0].lit(0)), ns[0].lit(6)), nonan, fn='Relu6.version_1')
    one('Relu6', lambda ns, x: ns[0].min(ns[0].max(x, ns[0].lit(0)), ns[0].lit(6)), nonan, ops=[12, 13, 18], dts=[6, 7], fn='Relu6.version_11', name='relu6-int')
    al = OneOf([0.2, 0.0, 1.5, -0.5])
    con('leakyrelu', M + 'DirectOpSinceOpset1.version_1', unary('LeakyRelu', lambda ns, x, a: z3.If(ns[0].lt(x, ns[0].lit(0)), ns[0].mul(X.f32(ns[0], a.alpha), x), x), nonan), opset=OneOf(FEW), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), alpha=al, **D4)
    one('Elu', lambda ns, x: z3.If(ns[0].lt(x, ns[0].lit(0)), ns[0].mul(ns[0].lit(1), X.expm1(ns[0], x)), x), nonan)
    one('Selu', lambda ns, x: (lambda n, a, g: z3.If(n.le(x, n.lit(0)), n.mul(X.f32(n, g), n.sub(n.mul(X.f32(n, a), n.uf('exp', x)), X.f32(n, a))), n.mul(X.f32(n, g), x)))(ns[0], 1.6732632423543772, 1.0507009873554805), nonan, fn='Selu.version_1')
    # clipping
    def b_clip(a):
        d = list(a.D)[:2]
        ins = [('x', d, a.dt)] + ([('v', -1.0), ('v', 6.0)] if a.form == 'const' else [('x', [], a.dt), ('x', [], a.dt)])
        return E('ClipByValue', ins, lambda ns, x, lo, hi: ns[0].max(ns[0].min(x, hi), lo), a.th, hyp=lambda ns, x, lo, hi: z3.And(nonan(ns, x, lo, hi), ns[0].le(lo, hi)))
    fm = OneOf(['const', 'data'])
    con('clip', M + 'ClipByValueOp.version_12', b_clip, opset=OneOf([12, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL + IN), th=Const('fp'), form=fm, **D4)
    con('clip-8', M + 'ClipByValueOp.version_8', b_clip, opset=OneOf([8, 9, 11]), known=OneOf(KNOWN), dt=OneOf(FL), th=Const('fp'), form=fm, **D4)
    con('clip-8-int', M + 'ClipByValueOp.version_8', b_clip, opset=OneOf([8, 9, 11]), known=OneOf(KNOWN), dt=OneOf(IN), th=Const('real'), form=fm, **D4)
    # conversions, constants of a shape
    def b_cast(a):
        return E('Cast', [('x', list(a.D)[:2], a.dt)], lambda ns, x: X.convert(x, a.dt, a.to, a.th), a.th, dict(to=int(a.to), DstT=int(a.to)), out=a.to, hyp=(lambda ns, x: z3.And(z3.Not(ns[0].nan(x)), z3.Not(ns[0].inf(x)))) if a.to != 9 else None)
    con('cast', Te + 'Cast.version_6', b_cast, opset=OneOf([7, 9, 13, 18]), known=OneOf(['all', 'rank']), dt=OneOf([1, 10, 11, 6, 7, 9, 3, 2]), to=OneOf([1, 10, 11, 6, 7, 9, 3, 2, 5]), th=Const('fp'), **D4)
    for op, v in (('ZerosLike', 0), ('OnesLike', 1)):
        con(op.lower(), G + op + '.version_9', unary(op, lambda ns, x, v=v: ns[0].lit(v)), opset=OneOf([9, 11, 13, 18]), known=OneOf(KNOWN), dt=OneOf(FL + IN + [9]), th=Const('fp'), r=OneOf([0, 1, 2, 3]), **D4)
    # a bias per channel
    def b_bias(a):
        d = list(a.D)[:a.r]
        ch = a.r - 1 if a.fmt == 'NHWC' else 1
        ins = [('x', d, a.dt), ('k' if a.form == 'const' else 'x', [d[ch]], a.dt)]
        def want(ts):
            x, b = ts
            n = Num(a.dt, 'fp')
            return [T(x.shape, lambda idx: n.add(x.at(idx), X.typed(b.at([idx[ch]]), b, 'fp')))]
        k = X.arm(K('BiasAdd', ins, want, dict(data_format=a.fmt), must=a.known != 'none'), 'fp')
        return k
    for r in (2, 3, 4, 5):
        con('biasadd-rank%d' % r, N + 'BiasAdd.version_7', b_bias, lambda a: a.fmt == 'NHWC' or a.r > 2, opset=OneOf(FEW), known=OneOf(['all', 'rank']), dt=OneOf([1]), r=Const(r), fmt=OneOf(['NHWC', 'NCHW']), form=OneOf(['data', 'const']), D=Ints(5, 1))
    # batch normalization, inference
    def b_bn(a):
        d = list(a.D)[:a.r]
        ch = a.r - 1 if a.fmt[-1] == 'C' else 1
        kd = 'k' if a.form == 'const' else 'x'
        ins = [('x', d, a.dt)] + [(kd, [d[ch]], 1)] * 4
        eps = 0.001
        def want(ts):
            n = Num(1, 'fp')
            def at(idx):
                c = [X.typed(t.at([idx[ch]]), t, 'fp') for t in ts[1:]]
                return X.convert(X.normal(n, X.convert(ts[0].at(idx), a.dt, 1, 'fp'), *(c + [X.f32(n, eps)])), 1, a.dt, 'fp')
            return [T(ts[0].shape, at)]
        k = X.arm(K(a.op, ins, want, dict(data_format=a.fmt, epsilon=eps, is_training=False), must=lambda a: a.known in ('all', 'rank')), 'fp')
        k.more = [([d[ch]], 1)] * (5 if a.op.endswith('V3') else 4)
        k.conc = {4: lambda rng, v: np.abs(v) + 0.5}
        return k
    for r in (4, 5):
        f = ['NHWC', 'NCHW'] if r == 4 else ['NDHWC', 'NCDHW']
        con('batchnorm-rank%d' % r, N + 'BatchNorm.version_6', b_bn, lambda a: a.dt == 1 or a.op != 'FusedBatchNorm' and a.form == 'data', opset=OneOf(FEW), known=OneOf(['all', 'rank']), dt=OneOf([1, 10] if r == 4 else [1]), r=Const(r), fmt=OneOf(f), form=OneOf(['data', 'const']),
            op=OneOf(['FusedBatchNorm', 'FusedBatchNormV2', 'FusedBatchNormV3'] if r == 4 else ['FusedBatchNormV3']), D=Ints(5, 1))
    return CS

def both(pre, dt0):
    def f(a):
        a['_dt0'] = dt0
        return thin(a) and (pre is None or pre(a))
    return f
def contracts(tier='quick'):
    out = []
    for name, fn, build, pre, cover, limit, timeout, p in build_all():
        c = Contract(name, fn, p, F.post, both(pre, p['dt'].vals[0] if isinstance(p['dt'], OneOf) else p['dt'].v), modes=('sized',), covers=cover, call=F.runner(build), timeout=timeout)
        c.no_concrete, c.limit, c.build = True, limit, build
        out.append(c)
    return out

def replay(cn, args):
    from pyvc.net import run_case
    from props import C15net
    c = next(q for q in contracts() if q.name == cn)
    rng = np.random.RandomState(1)
    for n in range(24):
        for known in (args.get('known'), 'some', 'all'):
            a = A(args)
            a['known'] = known
            q = C15net.case(c.build(a), a, cn, rng, a.opset, always=n % 4 != 3)
            if q is None: return None
            st, txt = run_case(q)
            if st == 'bad': return '%s  [%s]' % (txt, q.desc)
    return None

def bounded(tier, seed, shard, nshards, R):
    from pyvc.net import run_net
    from props import C15net
    rng = np.random.RandomState(seed * 1000 + shard + 77)
    if shard == 0: directed(R)
    run_net(R, C15net.cases(rng, tier, contracts(), ()), limit=2500 if tier == 'quick' else 20000)

def directed(R):
    """inputs outside the contracts: recorded findings"""
    from pyvc.net import Case, run_net
    import tensorflow as tf
    r = tf.raw_ops
    big = np.array([16777217, 16777216, -16777217], np.int32), np.array([16777216, 16777217, -16777216], np.int32)
    nan = np.array([np.nan, 1, np.nan], np.float32), np.array([1, np.nan, np.nan], np.float32)
    def c(key, fn, feeds, opset): return Case('directed:' + key, fn, [(list(v.shape), tf.as_dtype(v.dtype)) for v in feeds], list(feeds), opset, desc=key, unimplemented=True)
    run_net(R, [c('int-less', lambda x, y: r.Less(x=x, y=y), big, 13), c('int-greater', lambda x, y: r.Greater(x=x, y=y), big, 13), c('int-lessequal', lambda x, y: r.LessEqual(x=x, y=y), big, 11),
                c('int-greaterequal', lambda x, y: r.GreaterEqual(x=x, y=y), big, 11), c('int-maximum', lambda x, y: r.Maximum(x=x, y=y), big, 11), c('int-minimum', lambda x, y: r.Minimum(x=x, y=y), big, 11),
                c('int-clip', lambda x, y: r.ClipByValue(t=x, clip_value_min=tf.constant(-20000000), clip_value_max=tf.constant(20000000)), big, 11),
                c('nan-lessequal', lambda x, y: r.LessEqual(x=x, y=y), nan, 11), c('nan-greaterequal', lambda x, y: r.GreaterEqual(x=x, y=y), nan, 11), c('nan-equal', lambda x, y: r.Equal(x=x, y=y), nan, 8),
                c('int-less-12', lambda x, y: r.LessEqual(x=x, y=y), big, 13), c('int-max-12', lambda x, y: r.Maximum(x=x, y=y), big, 13), c('nan-lessequal-12', lambda x, y: r.LessEqual(x=x, y=y), nan, 13),
                c('nan-equal-9', lambda x, y: r.Equal(x=x, y=y), nan, 9), c('nan-notequal-9', lambda x, y: r.NotEqual(x=x, y=y), nan, 9), c('int-equal', lambda x, y: r.Equal(x=x, y=y), big, 9),
                c('round-ties', lambda x: r.Round(x=x), [np.array([0.5, 1.5, 2.5, -0.5, -2.5], np.float32)], 10), c('round-ties-11', lambda x: r.Round(x=x), [np.array([0.5, 1.5, 2.5, -0.5, -2.5], np.float32)], 11),
                c('nan-sign', lambda x: r.Sign(x=x), [np.array([np.nan, 1], np.float32)], 13)], name='directed')
