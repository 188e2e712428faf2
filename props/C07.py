"""C07: moving, merging and removing transposes never changes what a model computes."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, VList, Unsupported, ctx, zi as _zi
from pyvc import optspec as O

LEVEL = 'proof'
PROOF_SHARDS = 8
BOUNDED_SHARDS = 2
TRUSTED = ['CPython executing the instrumented pass', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2',
           'operator denotations (pyvc/denote.py, pyvc/optspec.py): element-wise operators, reductions, soft-max, arg-max, quantization and convolution as uninterpreted functions of the elements they read']
ASSUMPTIONS = ['onnx shape inference only records shapes that hold', 'reductions and soft-max depend on the family of reduced elements, not on its order (exact arithmetic)',
               'a convolution without bias is linear in its kernel (exact arithmetic)',
               'an exception inside the pass is caught by the optimizer driver, which keeps the graph as it was before the pass']
EXPLANATION = ('every handler of the transpose optimizer, its dispatch, the removal and merging of transposes and the actions before and after are executed on graphs with symbolic dimensions and constants, '
               'for every permutation of ranks up to four (and the channel permutations of rank five), every axis argument, operand arrangement and opset form; on every path the graph must denote, element for '
               'element, what it denoted before, and every shape it has recorded must be the shape of that tensor')
BOUNDED_NOTE = ('models_*: random graphs of 2-12 operators around transposes (ranks 1-6, shared constants, several consumers, graph outputs, body graphs, unknown dimensions, opsets 7-18), the whole pass applied and '
                'both models run with onnxruntime')

T = 'tf2onnx.optimizer.transpose_optimizer:TransposeOptimizer.'
P = lambda r: [list(p) for p in itertools.permutations(range(r)) if list(p) != list(range(r))]
STD4 = [[0, 2, 3, 1], [0, 3, 1, 2]]
STD5 = [[0, 2, 3, 4, 1], [0, 4, 1, 2, 3]]
SOME4 = STD4 + [[2, 0, 3, 1], [1, 0, 3, 2], [3, 1, 0, 2], [0, 1, 3, 2]]
def perms(tier):
    return [[1, 0]] + P(3) + (P(4) if tier == 'all' else SOME4) + STD5

class Dims(Dom):
    """as many dimensions as the permutation has entries"""
    def __init__(self, r): self.r = r
    def sym(self, c, name, size): return VList([Int(lo=1).sym(c, '%s%d' % (name, k), size) for k in range(self.r)])
    def enum(self): return [[]]
    def decode(self, v):
        ds = [Int().decode(e) for e in list.__iter__(v)]
        return lambda m: [d(m) for d in ds]

UNARY = ['Abs', 'Cast', 'Clip', 'Elu', 'Erf', 'Exp', 'LeakyRelu', 'Log', 'Neg', 'Reciprocal', 'Relu', 'Selu', 'Sigmoid', 'Softplus', 'Sqrt', 'Tanh']
REDUCE = ['ReduceLogSum', 'ReduceLogSumExp', 'ReduceMax', 'ReduceMean', 'ReduceMin', 'ReduceProd', 'ReduceSumSquare']
OTHER = ['Flatten', 'MatMul', 'DepthToSpace', 'GlobalAveragePool', 'CumSum', 'Reshape', 'Resize', 'InstanceNormalization', 'Gather', 'Expand', 'LRN', 'TopK', 'Hardmax', 'Gemm', 'BatchNormalization']

def subsets(r, nonempty=True):
    return [list(s) for k in range(1 if nonempty else 0, r + 1) for s in itertools.combinations(range(r), k)]

# ------------------------------------------------------------------ graphs.  a.D: dimensions of x; everything else is concrete
def tr(a): return ('Transpose', ['x'], ['t'], dict(perm=a.perm))
def tail(a, y='y', rank=None):
    """readers of the operator's output"""
    if a.cons == 'inv':
        p = a.perm if rank in (None, len(a.perm)) else list(range(rank))[::-1]
        inv = [p.index(k) for k in range(len(p))]
        return [('Transpose', [y], ['z'], dict(perm=inv)), ('Relu', ['z'], ['o1'], {})], ['o1']
    if a.cons == 'two':
        return [('Relu', [y], ['o1'], {}), ('Neg', [y], ['o2'], {})], ['o1', 'o2']
    return [('Relu', [y], ['o1'], {})], ['o1']
def pdims(a): return [a.D[k] for k in a.perm]
def with_tail(a, s, rank=None):
    n, o = tail(a, rank=rank)
    s['nodes'] += n
    s['outputs'] = o
    return s
def base(a, inputs=(), consts=()): return dict(inputs=[('x', list(a.D))] + list(inputs), consts=list(consts), nodes=[tr(a)])

def g_unary(a):
    s = base(a)
    ins, attr = ['t'], {}
    if a.op == 'Cast': attr = dict(to=1)
    if a.op in ('LeakyRelu', 'Elu', 'Selu'): attr = dict(alpha=0.5)
    if a.op == 'Clip':
        if a.opset >= 11:
            s['consts'] += [('lo', []), ('hi', [])]; ins += ['lo', 'hi']
        else:
            attr = dict(min=-1.0, max=1.0)
    s['nodes'].append((a.op, ins, ['y'], attr))
    return with_tail(a, s)
def g_identity(a):
    s = base(a)
    s['nodes'].append(('Identity', ['t'], ['y'], {}))
    return with_tail(a, s)
def g_softmax(a):
    s = base(a)
    s['nodes'].append((a.op, ['t'], ['y'], {} if a.axis is None else dict(axis=a.axis)))
    return with_tail(a, s)
def axes_form(a, s, ins, attr, axes, from_opset, extra='axes'):
    if a.opset >= from_opset:
        s['consts'].append((extra, O.Ints(axes)))
        ins.append(extra)
        if a.get('shared'):
            s['nodes'].append(('Squeeze' if False else 'Identity', [extra], ['keep'], {}))
    else:
        attr['axes'] = list(axes)
def g_reduce(a):
    s = base(a)
    ins, attr = ['t'], {}
    if a.keep is not None: attr['keepdims'] = a.keep
    r = len(a.perm)
    axes = [k - r if a.neg else k for k in a.axes]
    axes_form(a, s, ins, attr, axes, 13 if a.op == 'ReduceSum' else 18)
    s['nodes'].append((a.op, ins, ['y'], attr))
    return extra_out(a, with_tail(a, s, r if a.keep != 0 else r - len(axes)))
def extra_out(a, s):
    if a.get('shared') and any(n[2] == ['keep'] for n in s['nodes']):
        s['outputs'] = s['outputs'] + ['keep']
    return s
def g_arg(a):
    s = base(a)
    attr = {}
    if a.keep is not None: attr['keepdims'] = a.keep
    if a.axis is not None: attr['axis'] = a.axis
    s['nodes'] += [(a.op, ['t'], ['y'], attr)]
    n, o = ([('Identity', ['y'], ['o1'], {})], ['o1'])
    s['nodes'] += n; s['outputs'] = o
    return s
def g_squeeze(a):
    r = len(a.perm)
    D = list(a.D)
    for k in a.axes: D[a.perm[k]] = 1
    s = dict(inputs=[('x', D)], consts=[], nodes=[tr(a)])
    ins, attr = ['t'], {}
    axes_form(a, s, ins, attr, [k - r if a.neg else k for k in (a.axes[::-1] if a.neg and a.opset >= 13 else a.axes)], 13)
    s['nodes'].append(('Squeeze', ins, ['y'], attr))
    return extra_out(a, with_tail(a, s, r - len(a.axes)))
def g_unsqueeze(a):
    r = len(a.perm) + len(a.axes)
    s = base(a)
    ins, attr = ['t'], {}
    axes_form(a, s, ins, attr, [k - r if a.neg else k for k in (a.axes[::-1] if a.neg and a.opset >= 13 else a.axes)], 13)
    s['nodes'].append(('Unsqueeze', ins, ['y'], attr))
    return extra_out(a, with_tail(a, s, r))
def other(a, s, kind, j, dims):
    """an operand of shape dims next to the transposed one"""
    nm = 'w%d' % j
    if kind == 'same':                                    # transposed alike
        src = [None] * len(dims)
        for k, p in enumerate(a.perm): src[p] = dims[k]
        s['inputs'].append((nm, src))
        s['nodes'].append(('Transpose', [nm], ['t' + nm], dict(perm=a.perm)))
        return 't' + nm
    if kind == 'const':
        s['consts'].append((nm, dims))
        return nm
    s['inputs'].append((nm, dims))
    return nm
def bdims(a, mask, rank):
    d = pdims(a)
    d = d[len(d) - rank:] if rank <= len(d) else [1] * (rank - len(d)) + d
    return [1 if mask >> k & 1 else v for k, v in enumerate(d)]
def g_binary(a):
    s = base(a)
    r = len(a.perm)
    if a.kind == 'self':
        ins = ['t', 't']
    elif a.kind == 'twice':
        w = other(a, s, 'const', 1, bdims(a, a.rm[1], a.rm[0])); ins = ['t', w, w]
    else:
        ins = ['t', other(a, s, a.kind, 1, bdims(a, a.rm[1], a.rm[0]))]
    if a.get('third'):
        ins.append(other(a, s, a.third, 2, pdims(a)))
    if a.swap: ins = ins[::-1]
    s['nodes'].append((a.op, ins, ['y'], {}))
    if a.get('shared'):
        s['nodes'].append(('Neg', ['w1'], ['keep'], {}))
    return extra_out(a, with_tail(a, s, max(r, a.rm[0] if a.kind in ('const', 'plain', 'twice') else r)))
def g_concat(a):
    s = base(a)
    r = len(a.perm)
    d = pdims(a)
    d[a.axis % r] = a.N
    ins = ['t', other(a, s, a.kind, 1, d)] if a.kind != 'self' else ['t', 't']
    if a.swap: ins = ins[::-1]
    s['nodes'].append(('Concat', ins, ['y'], dict(axis=a.axis)))
    return with_tail(a, s)
def g_conv(a):
    """convolution, transposed to channels last (or by another permutation), then a constant added / multiplied"""
    H = [a.D[0], a.D[1], a.D[2], a.D[3]]
    s = dict(inputs=[('x', H)], consts=[('W', [a.M, a.D[1], a.K, a.K])], nodes=[])
    ins = ['x', 'W']
    if a.bias:
        s['consts'].append(('B', [a.M])); ins.append('B')
    s['nodes'] += [('Conv', ins, ['v'], {}), ('Transpose', ['v'], ['t'], dict(perm=a.perm))]
    out = [a.D[0], a.M, a.D[2] - a.K + 1, a.D[3] - a.K + 1]
    out = [out[p] for p in a.perm]
    cd = [1 if a.rm[1] >> k & 1 else v for k, v in enumerate(out[4 - a.rm[0]:] if a.rm[0] <= 4 else [1] * (a.rm[0] - 4) + out)]
    s['consts'].append(('c', cd))
    s['nodes'].append((a.op, ['t', 'c'], ['y'], {}))
    if a.shared == 'W':
        s['nodes'] += [('Conv', ['x', 'W'], ['v2'], {})]
    if a.shared == 'c':
        s['nodes'] += [('Neg', ['c'], ['v2'], {})]
    if a.shared == 'v':
        s['nodes'] += [('Neg', ['v'], ['v2'], {})]
    s = with_tail(a, s, max(4, a.rm[0]))
    if a.shared: s['outputs'] = s['outputs'] + ['v2']
    return s
def g_pad(a):
    s = base(a)
    r = len(a.perm)
    attr, ins = (dict(mode='constant') if a.opset < 11 else {}), ['t']
    if a.opset < 11:
        attr['pads'] = list(a.pads)
    elif a.form == 'run':
        s['inputs'].append(('pads', O.Ints(a.pads))); ins.append('pads')
    elif a.form == 'axes':
        s['consts'] += [('pads', O.Ints([a.pads[0], a.pads[1], a.pads[r], a.pads[r + 1]])), ('pax', O.Ints(a.axes))]
        ins += ['pads', '', 'pax']
    else:
        s['consts'].append(('pads', O.Ints(a.pads))); ins.append('pads')
        if a.form == 'value':
            s['consts'].append(('pv', [])); ins.append('pv')
        if a.form == 'shared':
            s['nodes'].append(('Identity', ['pads'], ['keep'], {}))
    s['nodes'].append(('Pad', ins, ['y'], attr))
    s = with_tail(a, s)
    if a.form == 'shared' and a.opset >= 11: s['outputs'] = s['outputs'] + ['keep']
    return s
def g_slice(a):
    s = base(a)
    r, k = len(a.perm), len(a.axes)
    axes = [q - r if a.neg else q for q in a.axes]
    st, en = list(a.st)[:k], list(a.en)[:k]
    if a.form == 'axes=starts':
        st = [zero_like(v) for v in axes]
        st = axes
    if a.opset < 10:
        s['nodes'].append(('Slice', ['t'], ['y'], dict(starts=st, ends=en, axes=axes)))
    else:
        s['consts'] += [('st', O.Ints(st)), ('en', O.Ints(en))]
        ins = ['t', 'st', 'en']
        if a.form == 'axes=starts':
            ins.append('st')
        elif a.form != 'noaxes':
            s['consts'].append(('ax', O.Ints(axes))); ins.append('ax')
        if a.form == 'steps':
            s['consts'].append(('sp', O.Ints([2] * k))); ins.append('sp')
        if a.form == 'shared':
            s['nodes'].append(('Identity', ['ax'], ['keep'], {}))
        s['nodes'].append(('Slice', ins, ['y'], {}))
    s = with_tail(a, s)
    if a.form == 'shared' and a.opset >= 10: s['outputs'] = s['outputs'] + ['keep']
    return s
def zero_like(v): return 0
def g_split(a):
    s = base(a)
    r = len(a.perm)
    d = pdims(a)[a.axis % r]
    ins, attr = ['t'], ({} if a.axis == 0 and a.deflt else dict(axis=a.axis))
    parts = [d] if a.outs == 1 else [a.N, d - a.N]
    if a.opset >= 13:
        s['consts'].append(('parts', O.Ints(parts))); ins.append('parts')
    else:
        attr['split'] = parts
    outs = ['y'] if a.outs == 1 else ['y', 'y2']
    s['nodes'].append(('Split', ins, outs, attr))
    s = with_tail(a, s)
    if a.outs == 2:
        s['nodes'].append(('Relu', ['y2'], ['p2'], {})); s['outputs'] = s['outputs'] + ['p2']
    return s
def g_tile(a):
    s = base(a)
    rep = O.Ints(list(a.rep))
    if a.form == 'run': s['inputs'].append(('rep', rep))
    else: s['consts'].append(('rep', rep))
    s['nodes'].append(('Tile', ['t', 'rep'], ['y'], {}))
    if a.form == 'shared': s['nodes'].append(('Identity', ['rep'], ['keep'], {}))
    s = with_tail(a, s)
    if a.form == 'shared': s['outputs'] = s['outputs'] + ['keep']
    return s
def g_shape(a):
    s = base(a)
    s['nodes'] += [('Shape', ['t'], ['y'], {}), ('Identity', ['y'], ['o1'], {})]
    s['outputs'] = ['o1']
    return s
def g_quant(a):
    s = base(a)
    ax = a.axis
    per = ax != 'tensor'
    k = 1 if ax is None else ax
    n = [pdims(a)[k]] if per else a.scalar
    s['consts'] += [('sc', n), ('zp', n)]
    attr = {} if not per or ax is None else dict(axis=ax)
    if a.op == 'DequantizeLinear':
        s['inputs'] = [('x', list(a.D), 'u8')]
    s['nodes'].append((a.op, ['t', 'sc', 'zp'], ['y'], attr))
    if a.op == 'QuantizeLinear':
        s['nodes'].append(('Identity', ['y'], ['o1'], {}))
        s['outputs'] = ['o1']
        return s
    return with_tail(a, s)
def g_transpose(a):
    s = base(a)
    s['nodes'].append(('Transpose', ['t'], ['y'], dict(perm=a.perm2)))
    return with_tail(a, s)
def g_opaque(a):
    s = base(a)
    ins = ['t']
    if a.op in ('MatMul', 'Reshape', 'Gather', 'Expand', 'CumSum', 'Gemm'):
        s['inputs'].append(('w', list(a.D))); ins.append('w')
    s['nodes'].append((a.op, ins, ['y'], {}))
    return with_tail(a, s)
def g_fan(a):
    """the transposed tensor has two readers"""
    s = base(a)
    s['nodes'] += [('Relu', ['t'], ['y'], {}), ('Neg', ['t'], ['y2'], {}), ('Exp', ['y2'], ['p2'], {})]
    s = with_tail(a, s)
    s['outputs'] = s['outputs'] + ['p2'] + (['t'] if a.out else [])
    return s
def g_dups(a):
    s = base(a)
    s['nodes'] += [('Transpose', ['x'], ['u'], dict(perm=a.perm2)), ('Relu', ['t'], ['o1'], {}), ('Sub', ['u', 'u'], ['o2'], {})]
    s['outputs'] = ['o1', 'o2']
    return s
def g_useless(a):
    s = dict(inputs=[('x', list(a.D))], consts=[], nodes=[('Relu', ['x'], ['v'], {}), ('Transpose', ['v'], ['t'], dict(perm=list(range(len(a.perm))))), ('Neg', ['v'], ['k2'], {})])
    s['nodes'].append(('Exp', ['t'], ['y'], {}))
    s = with_tail(a, s)
    s['outputs'] = s['outputs'] + ['k2']
    return s
def g_ones(a):
    D = [1 if a.ones >> k & 1 else d for k, d in enumerate(list(a.D))]
    s = dict(inputs=[('x', D)], consts=[], nodes=[tr(a)])
    s['nodes'].append(('Relu', ['t'], ['o1'], {}))
    s['outputs'] = ['o1']
    return s

# ------------------------------------------------------------------ contracts
def contracts(tier='quick'):
    out = []
    SH = ['all', 'unknown', 'none']
    CONS = ['one', 'inv', 'two']
    def con(name, handler, build, call=None, limit=240, pre=None, **p):
        """p: argument domains; perm fixed per contract because the number of dimensions depends on it"""
        pm = p.pop('perms')
        byrank = {}
        for q in pm: byrank.setdefault(len(q), []).append(q)
        for r, qs in byrank.items():
            pp = dict(perm=OneOf(qs), D=Dims(r), known=OneOf(p.get('known', SH)), cons=OneOf(p.get('cons', ['one'])))
            for k, v in p.items():
                if k in ('known', 'cons'): continue
                v = v(r) if callable(v) and not isinstance(v, Dom) else v
                pp[k] = v if isinstance(v, Dom) else OneOf(v)
            c = Contract('%s-rank%d' % (name, r), T + handler, pp, O.post(build), pre, modes=('sized',), covers=('returned',), timeout=8000,
                         call=O.runner(build, call or (lambda f, opt, n: f(opt, n['t'], n['y']))))
            c.no_concrete, c.limit, c.build = True, limit, build
            out.append(c)
    disp = lambda f, opt, n: f(opt, n['t'])
    allp = perms('all' if tier != 'quick' else 'some')
    neg = lambda r: list(range(-r, r))
    # dispatch: every operator of the handler map, and operators that are not in it
    con('dispatch-unary', '_handle_nhwc_tranpose', g_unary, disp, perms=STD4 + STD5[:1], op=UNARY, opset=[9, 13], known=['all', 'unknown'])
    con('dispatch-other', '_handle_nhwc_tranpose', g_opaque, disp, perms=STD4 + [[1, 0]], op=OTHER, opset=[9, 13], known=['unknown'], cons=['one', 'inv'])
    con('dispatch-fan', '_handle_nhwc_tranpose', g_fan, disp, perms=STD4 + STD5 + P(3), opset=[9, 13], out=[False, True], known=['all', 'none'])
    con('unary', '_simple_through_handler', g_unary, perms=allp, op=['Relu', 'Clip'], opset=[9, 13], cons=CONS)
    con('identity', '_identity_handler', g_identity, perms=allp, opset=[13], cons=CONS)
    con('softmax', '_softmax_handler', g_softmax, perms=P(3) + SOME4, op=['Softmax', 'LogSoftmax'], axis=lambda r: neg(r) + [None], opset=[9, 12, 13], known=['all', 'none'],
        pre=lambda a: a.opset >= 11 or (a.axis or 0) >= 0)
    for op, h in [('ReduceSum', '_reducesum_handler')] + [(o, '_reduce_handler') for o in (REDUCE if tier != 'quick' else ['ReduceMax'])]:
        con('reduce-' + op, h, g_reduce, perms=P(3) + (SOME4 if op in ('ReduceSum', 'ReduceMax') else STD4), op=[op], axes=lambda r: subsets(r), keep=[None, 0, 1], neg=[False, True], shared=[False, True],
            opset=[9, 13, 18] if tier == 'quick' else [9, 12, 13, 18], known=['all', 'none'], limit=240,
            pre=lambda a, op=op: (a.opset >= 11 or not a.neg) and (not a.shared or a.opset >= (13 if op == 'ReduceSum' else 18)) and not (a.neg and a.shared) and not (len(a.perm) > 3 and tier == 'quick' and (a.known == 'none' and (a.neg or a.shared) or a.opset == 9 and a.keep is None or a.keep == 1 and (a.neg or a.shared))))
    con('dispatch-reduce', '_handle_nhwc_tranpose', g_reduce, disp, perms=STD4, op=REDUCE + ['ReduceSum'], axes=[[1, 2], [3], [0, 1, 2, 3]], keep=[None, 0], neg=[False], shared=[False], opset=[9, 13, 18], known=['all'])
    con('arg', '_arg_min_max_handler', g_arg, perms=P(3) + SOME4, op=['ArgMax', 'ArgMin'], axis=lambda r: neg(r) + [None], keep=[None, 0, 1], opset=[9, 13], known=['all', 'none'],
        pre=lambda a: a.opset >= 11 or (a.axis or 0) >= 0)
    con('squeeze', '_squeeze_handler', g_squeeze, perms=P(3) + SOME4 + STD5, axes=lambda r: subsets(r)[:-1] if r < 5 else [[1], [2], [1, 2], [2, 3]], neg=[False, True], shared=[False], opset=[9, 11, 13], known=['all', 'none'],
        pre=lambda a: a.opset >= 11 or not a.neg)
    con('unsqueeze', '_unsqueeze_handler', g_unsqueeze, perms=P(3) + SOME4, axes=lambda r: [[k] for k in range(r + 1)] + [list(s) for s in itertools.combinations(range(r + 2), 2)], neg=[False, True], shared=[False], opset=[9, 11, 13], known=['all', 'none'],
        pre=lambda a: (a.opset >= 11 or not a.neg))
    kinds = ['same', 'plain', 'const']
    full = lambda r: [0]
    con('concat', '_concat_handler', g_concat, perms=P(3) + SOME4, axis=neg, N=Int(lo=1), kind=kinds + ['self'], swap=[False, True], opset=[9, 13], known=['all', 'none'], limit=240,
        pre=lambda a: And(a.opset >= 11 or a.axis >= 0))
    # element-wise operators with a second operand of any rank that broadcasts
    def binpre(a):
        r, m = a.rm
        if a.kind == 'self' and (m or r != len(a.perm)): return False
        if a.kind == 'same' and r != len(a.perm): return False
        return r <= len(a.perm) or m & 1 == 1
    for op, h in (('Add', '_add_handler'), ('Sub', '_sub_handler'), ('Max', '_maxmin_handler'), ('PRelu', '_prelu_handler'), ('Mul', '_mul_handler')):
        rich = op in ('Add', 'Mul')
        ks = [[k] for k in kinds + ['self']] if rich else [kinds + ['self']] if op != 'PRelu' else [['const', 'plain']]
        for kk in ks:
            con('binary-' + op + ('-' + kk[0] if rich else ''), h, g_binary, perms=(P(3)[:3] if not rich or tier == 'quick' else P(3)) + STD4 + ([SOME4[2]] if rich else []), op=[op], kind=kk,
                rm=lambda r, kk=kk: [(q, m) for q in range(r + 2) for m in range(1 << q) if (q <= r or m & 1) and (r < 4 or q < 4 or m in (0, 1, 7, 8, 14, 15, 5, 31)) and (kk[0] != 'self' or m == 0 and q == r) and (kk[0] != 'same' or q == r)],
                swap=[False, True] if op != 'PRelu' else [False], opset=[9, 13] if op == 'Add' else [13], known=['all', 'none'], cons=['one', 'inv'] if op == 'Add' else ['one'], limit=240,
                shared=[False, True] if op == 'Mul' and kk[0] == 'const' else [False], pre=binpre)
    con('sum', '_sum_handler', g_binary, perms=P(3)[:3] + STD4, op=['Sum'], kind=['same', 'const', 'twice', 'self', 'plain'], third=[None, 'same', 'const'], rm=lambda r: [(q, m) for q in (r, r - 1) for m in sorted({0, 1, 2, (1 << q) - 1, 1 << (q - 1)})], swap=[False, True], opset=[13], known=['all', 'none'], shared=[False, True], limit=240, pre=lambda a: binpre(a) and (not a.shared or a.kind in ('const', 'plain')))
    for op, h in (('Add', '_add_handler'), ('Mul', '_mul_handler')):
        con('conv-' + op, h, g_conv, perms=STD4[:1] + [[0, 3, 2, 1]] + ([[0, 1, 3, 2]] if tier != 'quick' else []), op=[op], bias=[False, True], M=Int(lo=1), K=OneOf([1, 2]), rm=[(r, m) for r in range(6) for m in range(1 << r) if (r < 5 or m & 1) and bin(m).count('1') >= r - 2], shared=[None, 'W', 'c', 'v'],
            opset=[13], known=['all', 'none'] , limit=240,
            pre=lambda a: And(not (a.bias and (a.shared or a.known == 'none')), a.shared is None or a.known == 'all' and (tier != 'quick' or a.rm[0] in (0, 1, 4)), a.D[2] >= a.K, a.D[3] >= a.K))
    pads = lambda r: Pads(2 * r)
    con('pad', '_pad_handler', g_pad, perms=P(3) + SOME4, pads=pads, form=['const', 'value', 'shared', 'run', 'axes'], axes=lambda r: [[0, 1], [2, 0], [-1, 1]], opset=[10, 13, 18], known=['all', 'none'], limit=240,
        pre=lambda a: And(a.form == 'axes' or a.axes == [0, 1], a.form == 'const' or a.opset >= 11, a.form != 'axes' or a.opset >= 18, a.form != 'run' or a.opset in (13, 18)))
    con('slice', '_slice_handler', g_slice, perms=P(3) + SOME4, axes=lambda r: [[k] for k in range(r)] + [[0, 1], [2, 0], [1, 2], list(range(r))], st=lambda r: Pads(r), en=lambda r: Pads(r), neg=[False, True],
        form=['plain', 'steps', 'shared', 'axes=starts', 'noaxes'], opset=[9, 10, 13], known=['all', 'none'], limit=240,
        pre=lambda a: And(a.opset >= 11 or not a.neg, a.opset >= 10 or a.form == 'plain', a.form != 'noaxes' or a.axes == list(range(len(a.axes))) and not a.neg, a.form != 'axes=starts' or not a.neg))
    con('split', '_split_handler', g_split, perms=P(3) + STD4, axis=neg, N=Int(lo=1), outs=[1, 2], deflt=[False, True], opset=[9, 13, 18], known=['all', 'none'],
        pre=lambda a: And(a.opset >= 11 or a.axis >= 0, a.N < pdims(a)[a.axis]))
    con('tile', '_tile_handler', g_tile, perms=P(3) + SOME4, rep=lambda r: Pads(r, 1), form=['const', 'shared', 'run'], opset=[13], known=['all', 'none'])
    con('shape', '_shape_handler', g_shape, perms=allp, opset=[9, 13], known=['all', 'none'])
    con('quantize', '_quantize_handler', g_quant, perms=P(3) + STD4, op=['QuantizeLinear', 'DequantizeLinear'], axis=lambda r: neg(r) + [None, 'tensor'], scalar=[[], [1]], opset=[10, 13], known=['all', 'none'], cons=['one', 'inv'],
        pre=lambda a: (a.axis == 'tensor' or a.opset >= 13) and (a.axis == 'tensor' or a.scalar == []))
    con('transpose', '_transpose_handler', g_transpose, perms=P(3) + STD4, perm2=lambda r: [list(p) for p in itertools.permutations(range(r))], opset=[13], known=['all', 'none'], cons=['one', 'two'])
    con('useless', '_remove_useless_tranpose', g_useless, disp, perms=[[1, 0], [0, 2, 1], STD4[0]], opset=[9, 13], cons=CONS)
    con('merge', 'merge_duplicated_transposes', g_dups, lambda f, opt, n: f(opt), perms=P(3) + STD4, perm2=lambda r: [list(p) for p in itertools.permutations(range(r))] if r < 4 else STD4, opset=[13], known=['all', 'none'])
    con('post', 'post_optimize_action', g_ones, lambda f, opt, n: f(opt), perms=[[1, 0]] + P(3) + P(4) + STD5, ones=lambda r: list(range(1 << r)) if r < 5 else [0, 1, 2, 14, 28, 30], opset=[9, 13] if tier != 'quick' else [13], known=['all', 'unknown', 'first', 'none'] if tier != 'quick' else ['all', 'first'], limit=240)
    # the whole pass over one operator between two transposes
    con('pass-unary', '_optimize_at_current_graph_level', g_unary, lambda f, opt, n: f(opt, opt._g), perms=STD4 + P(3)[:2], op=['Relu'], opset=[13], cons=CONS, known=['all', 'none'])
    con('pass-binary', '_optimize_at_current_graph_level', g_binary, lambda f, opt, n: f(opt, opt._g), perms=STD4, op=['Add', 'Mul', 'Max', 'Sum'], kind=kinds + ['self'], rm=[(4, m) for m in ((0, 7) if tier == 'quick' else (0, 1, 8, 15, 14, 7))], swap=[False] if tier == 'quick' else [False, True],
        opset=[13], cons=['inv'] if tier == 'quick' else ['one', 'inv'], known=['all'], limit=240, pre=binpre)
    con('pass-reduce', '_optimize_at_current_graph_level', g_reduce, lambda f, opt, n: f(opt, opt._g), perms=STD4, op=['ReduceMax'], axes=subsets(4), keep=[0, 1], neg=[False], shared=[False], opset=[13], known=['all'], cons=['one'])
    return out
class Pads(Dom):
    def __init__(self, n, lo=None): self.n, self.lo = n, lo
    def sym(self, c, name, size): return VList([Int(lo=self.lo).sym(c, '%s%d' % (name, k), size) for k in range(self.n)])
    def enum(self): return [[]]
    def decode(self, v):
        ds = [Int().decode(e) for e in list.__iter__(v)]
        return lambda m: [d(m) for d in ds]

def replay(cn, args):
    c = next((c for c in contracts('all') + contracts() if c.name == cn), None)
    return O.replay(c.build, A(args), ['optimize_transpose']) if c else None

def bounded(tier, seed, shard, nshards, R):
    from props import C07net
    C07net.run(R, seed, shard, nshards, 22000 if tier == 'quick' else 200000)
