"""C08: every other optimizer pass leaves what a model computes unchanged."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, VList, Unsupported, ctx
from pyvc import optspec as O, optsem as S
from props.C07 import Dims, Pads, P, subsets

LEVEL = 'proof'
PROOF_SHARDS = 8
BOUNDED_SHARDS = 2
TRUSTED = ['CPython executing the instrumented pass', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2',
           'operator denotations (pyvc/denote.py, optspec.py, optsem.py); reductions, quantization, casts and rearranging operators as uninterpreted functions of the elements they read']
ASSUMPTIONS = ['onnx shape inference only records shapes that hold', 'a convolution is linear in its kernel and float arithmetic is exact (fusing a batch normalization rounds differently)',
               'casting through a type that holds every value of the source type loses nothing', 'QuantizeLinear undoes DequantizeLinear with the same scale, zero point and type',
               'an exception inside a pass is caught by the optimizer driver, which keeps the graph as it was before the pass (proved in C09)']
EXPLANATION = ('each pass is executed on graphs made for the patterns it looks for, with symbolic dimensions and constants and every arrangement of consumers, graph outputs, attributes and opset forms; on every path '
               'every graph output must denote, element for element, what it denoted before, keep its element type, and every recorded shape and element type must hold')
BOUNDED_NOTE = ('models_*: random graphs of 2-12 operators with the patterns of all passes, optimized with all passes and run before and after with onnxruntime (einsum decompositions included)')
M = 'tf2onnx.optimizer.'
class Sh(str):
    """a shape in terms of the case (picklable)"""
    def __call__(self, a): return eval(str(self), {'a': a})
def tp():
    from onnx import TensorProto
    return TensorProto

# ------------------------------------------------------------------ tails
def finish(a, s, ys, extra=()):
    """readers of the tensors ys.  fan: one / two readers / the tensor itself is a graph output (alone or next to a reader)"""
    fan = a.get('fan', 'one')
    outs = []
    for k, y in enumerate(ys):
        if fan in ('one', 'two', 'both'):
            s['nodes'].append(('Relu', [y], ['o%d' % k], {})); outs.append('o%d' % k)
        if fan == 'two':
            s['nodes'].append(('Neg', [y], ['p%d' % k], {})); outs.append('p%d' % k)
        if fan in ('direct', 'both'):
            outs.append(y)
    s['outputs'] = outs + list(extra)
    s['direct'] = True
    return s
FANS = ['one', 'two', 'direct', 'both']
def ints_in(a, s, ins, attr, nm, vals, from_opset, attrname=None):
    if a.opset >= from_opset:
        s['consts'].append((nm, O.Ints(vals))); ins.append(nm)
    else:
        attr[attrname or nm] = list(vals)

# ------------------------------------------------------------------ constant folding
def g_fold(a):
    s = dict(inputs=[], consts=[('c', list(a.D))], nodes=[], outputs=[])
    r = len(a.D)
    op, ins, attr, outs = a.op, ['c'], {}, ['y']
    if op == 'Transpose':
        if a.x is not None: attr['perm'] = list(a.x)
    elif op == 'Cast':
        attr['to'] = a.x
    elif op == 'Unsqueeze':
        ints_in(a, s, ins, attr, 'axes', a.x, 13)
    elif op == 'Concat':
        ax, n = a.x
        d = list(a.D); d[ax] = a.N
        s['consts'].append(('c2', d)); ins = ['c', 'c2', 'c'][:n]
        attr['axis'] = ax
    elif op in ('Mul', 'Add', 'Sub'):
        q, m = a.x
        d = ([2] * (q - r) + list(a.D))[-q:] if q else []
        d = [1 if m >> k & 1 else e for k, e in enumerate(d)]
        s['consts'].append(('c2', d)); ins = ['c2', 'c'] if a.swap else ['c', 'c2']
    elif op == 'Split':
        ax, n, form = a.x
        outs = ['y%d' % k for k in range(n)]
        if ax: attr['axis'] = ax
        if form == 'sizes' and n > 1:
            rest = a.D[ax] - a.N * (n - 1)
            ints_in(a, s, ins, attr, 'split', [a.N] * (n - 1) + [rest] if not a.swap else [rest] + [a.N] * (n - 1), 13)
        elif a.opset >= 18:
            attr['num_outputs'] = n
    elif op == 'Reshape':
        ins.append('sh')
        s['consts'].append(('sh', O.Ints(a.x(a))))
        if a.swap: attr['allowzero'] = 1
    elif op == 'Identity':
        pass
    s['nodes'].append((op, ins, outs, attr))
    if a.shared:
        s['nodes'].append(('Relu', ['c'], ['k'], {}))
        return finish(a, s, outs, ['k'])
    return finish(a, s, outs)
SHAPES = {1: [Sh('[-1]'), Sh('[1, -1]'), Sh('[0]'), Sh('[0, 1]'), Sh('[a.D[0], 1]')],
          2: [Sh('[-1]'), Sh('[0, -1]'), Sh('[-1, 0]'), Sh('[a.D[1], a.D[0]]'), Sh('[a.D[1], -1]'), Sh('[0, 1, 0][:2] + [-1]'), Sh('[a.D[0] * a.D[1]]'), Sh('[1, 0, -1]')],
          3: [Sh('[-1]'), Sh('[0, -1]'), Sh('[0, 0, -1]'), Sh('[a.D[2], 0, -1]'), Sh('[-1, a.D[2]]'), Sh('[a.D[0] * a.D[1], 1, a.D[2]]'), Sh('[a.D[1] * a.D[2], -1]'), Sh('[0, -1, 0]')]}

# ------------------------------------------------------------------ chains of two operators
def chain(a, first, second, consts=(), third=None):
    """x -> first -> second (several readers), the middle tensor also read elsewhere or a graph output"""
    s = dict(inputs=[('x', list(a.D))] if 'D' in a else [], consts=list(consts), nodes=[], outputs=[])
    extra = []
    s['nodes'].append((first[0], ['x'] + first[1], ['m'], first[2]))
    s['nodes'].append((second[0], ['m'] + second[1], ['y'], second[2]))
    ys = ['y']
    if third is not None:
        s['nodes'].append((third[0], ['m' if a.mid == 'branch' else 'y'] + third[1], ['w'], third[2])); ys.append('w')
    if a.mid == 'read': s['nodes'].append(('Neg', ['m'], ['e'], {})); extra.append('e')
    if a.mid == 'output': extra.append('m')
    return finish(a, s, ys, extra)
def g_tt(a):
    return chain(a, ('Transpose', [], dict(perm=a.p)), ('Transpose', [], dict(perm=a.q)), third=('Transpose', [], dict(perm=a.q2)) if a.mid in ('branch', 'chain') else None)
def g_cc(a):
    s = dict(inputs=[('x', list(a.D), a.t0)], consts=[], nodes=[('Cast', ['x'], ['m'], dict(to=a.t1)), ('Cast', ['m'], ['y'], dict(to=a.t2))], outputs=[])
    ys, extra = ['y'], []
    if a.mid in ('branch', 'chain'):
        s['nodes'].append(('Cast', ['m' if a.mid == 'branch' else 'y'], ['w'], dict(to=a.t3))); ys.append('w')
    if a.mid == 'output': extra = ['m']
    if a.mid == 'read': s['nodes'].append(('Identity', ['m'], ['e'], {})); extra = ['e']
    for k, y in enumerate(ys):
        s['nodes'].append(('Identity', [y], ['o%d' % k], {}))
    s['outputs'] = ([y for y in ys] if a.fan == 'direct' else ['o%d' % k for k in range(len(ys))]) + extra
    s['direct'] = True
    return s
def g_squ(a):
    s = dict(inputs=[('x', [1 if k in a.ax else d for k, d in enumerate(a.D)])], consts=[], nodes=[], outputs=[])
    r = len(a.D)
    i1, a1, i2, a2 = [], {}, [], {}
    ax1 = [k - r if a.neg else k for k in a.ax]
    if a.same == 'shared' and a.opset >= 13:
        ints_in(a, s, i1, a1, 'axes', ax1, 13); i2 = list(i1)
    else:
        ints_in(a, s, i1, a1, 'axes', ax1, 13)
        i2, a2 = [], {}
        if a.opset >= 13: s['consts'].append(('axes2', O.Ints(a.ax2))); i2.append('axes2')
        else: a2['axes'] = list(a.ax2)
    extra = []
    s['nodes'] = [('Squeeze', ['x'] + i1, ['m'], a1), ('Unsqueeze', ['m'] + i2, ['y'], a2)]
    if a.mid == 'read': s['nodes'].append(('Neg', ['m'], ['e'], {})); extra = ['e']
    if a.mid == 'output': extra = ['m']
    return finish(a, s, ['y'], extra)
def g_rr(a):
    sh1, sh2 = a.sh[0](a), a.sh[1](a)
    s = dict(inputs=[('x', list(a.D))], consts=[('s1', O.Ints(sh1)), ('s2', O.Ints(sh2))], nodes=[], outputs=[], flat=True)
    extra = []
    second = 's2'
    if a.run == 'second':
        s['inputs'].append(('r2', O.Ints(sh2))); s['consts'].pop(); second = 'r2'
    s['nodes'] = [('Reshape', ['x', 's1'], ['m'], {}), ('Reshape', ['m', second], ['y'], dict(allowzero=1) if a.zero else {})]
    if a.mid == 'read': s['nodes'].append(('Neg', ['m'], ['e'], {})); extra = ['e']
    if a.mid == 'output': extra = ['m']
    if a.mid == 'branch': s['nodes'].append(('Reshape', ['m', 's1'], ['w'], {})); extra = ['w']
    return finish(a, s, ['y'], extra)
RR = {2: [(Sh('[-1]'), Sh('[a.D[1], a.D[0]]')), (Sh('[a.D[1], a.D[0]]'), Sh('[0, -1]')), (Sh('[-1]'), Sh('[-1, a.D[1]]')), (Sh('[1, 0, -1]'), Sh('[0, -1]')), (Sh('[a.D[1], -1]'), Sh('[-1]'))],
      3: [(Sh('[-1]'), Sh('[a.D[1], a.D[0], -1]')), (Sh('[0, -1]'), Sh('[0, a.D[1], -1]')), (Sh('[a.D[0] * a.D[1], a.D[2]]'), Sh('[0, 1, 0]')), (Sh('[a.D[0] * a.D[1], -1]'), Sh('[a.D[0], a.D[1] * a.D[2]]'))]}
def g_bn(a):
    D = a.D
    s = dict(inputs=[('x', [D[0], D[1], D[2], D[3]][:a.rank])], consts=[], nodes=[], outputs=[])
    kern = [a.M, D[1], D[4], D[5]][:a.rank]
    ins = ['x', 'W']
    (s['inputs'] if a.run == 'W' else s['consts']).append(('W', kern))
    if a.bias:
        ins.append('b'); (s['inputs'] if a.run == 'b' else s['consts']).append(('b', [a.M]))
    for k in ('sc', 'of', 'me', 'va'):
        (s['inputs'] if a.run == k else s['consts']).append((k, [a.M]))
    attr = {}
    if a.at: attr = dict(strides=[2, 1][:a.rank - 2], pads=[1, 0, 1, 1][:2 * (a.rank - 2)], group=1)
    bat = dict(epsilon=0.001)
    outs = ['y']
    if a.more: outs += ['rm', 'rv']
    if a.more == 'train': bat['training_mode'] = 1
    s['nodes'] = [('Conv', ins, ['m'], attr), ('BatchNormalization', ['m', 'sc', 'of', 'me', 'va'], outs, bat)]
    extra = []
    if a.shared:
        s['nodes'].append(('Neg', [a.shared], ['e'], {})); extra.append('e')
    if a.mid == 'output': extra.append('m')
    if a.mid == 'read': s['nodes'].append(('Neg', ['m'], ['e2'], {})); extra.append('e2')
    return finish(a, s, ['y'], extra)

# ------------------------------------------------------------------ identities, duplicates
def g_ident(a):
    s = dict(inputs=[('x', list(a.D))], consts=[('c', list(a.D))], nodes=[], outputs=[])
    src = dict(input='x', const='c', node='n', split='n')[a.src]
    if a.src == 'node': s['nodes'].append(('Relu', ['x'], ['n'], {}))
    if a.src == 'split':
        s['nodes'].append(('Split', ['x'], ['n', 'n2'], dict(num_outputs=2) if a.opset >= 18 else {})); src = 'n'
    s['nodes'].append(('Identity', [src], ['i'], {}))
    s['nodes'].append(('Identity', ['i' if a.two == 'chain' else src], ['j'], {}))
    outs = []
    if a.read & 1: s['nodes'].append(('Neg', ['i'], ['r1'], {})); outs.append('r1')
    if a.read & 2: s['nodes'].append(('Add', ['j', src], ['r2'], {})); outs.append('r2')
    outs += [o for k, o in enumerate(('i', 'j', src if a.src != 'input' else None)) if a.out >> k & 1 and o]
    if not outs: outs = ['j']
    s['outputs'] = outs
    s['direct'] = True
    return s
def g_ident_src(a):
    b = A(a); b['src'] = a.src
    return g_ident(b)
def g_body(a):
    """the pattern inside the branch of an If, reading outer tensors"""
    TP = tp()
    s = dict(inputs=[('x', list(a.D)), ('p', [], TP.BOOL)], consts=[('c', list(a.D))], nodes=[('Relu', ['x'], ['n'], {}), ('Identity', ['n'], ['i0'], {})], outputs=[])
    src = dict(outer='n', input='x', const='c', ident='i0', inner='u')[a.src]
    th = dict(nodes=[], outputs=[])
    if a.src == 'inner': th['nodes'].append(('Tanh', ['x'], ['u'], {}))
    th['nodes'] += [('Identity', [src], ['b1'], {}), ('Identity', ['b1'], ['b2'], {}), ('Neg', ['b1'], ['b3'], {})]
    th['outputs'] = [a.out]
    el = dict(nodes=[('Abs', ['i0'], ['e1'], {})], outputs=['e1'])
    s['nodes'].append(('If', ['p'], ['y'], dict(then_branch=th, else_branch=el)))
    s['nodes'].append(('Neg', ['i0'], ['z'], {}))
    s['outputs'] = ['y', 'z']
    s['direct'] = True
    return s
def g_dup(a):
    s = dict(inputs=[('x', list(a.D)), ('w', list(a.D))], consts=[], nodes=[], outputs=[])
    k = a.kind
    n1, n2 = None, None
    y1, y2 = ['y'], ['z']
    if k == 'same': n1, n2 = ('Relu', ['x'], y1, {}), ('Relu', ['x'], y2, {})
    if k == 'order': n1, n2 = ('Sub', ['x', 'w'], y1, {}), ('Sub', ['w', 'x'], y2, {})
    if k == 'attr': n1, n2 = ('LeakyRelu', ['x'], y1, dict(alpha=0.5)), ('LeakyRelu', ['x'], y2, dict(alpha=0.25))
    if k == 'attr-missing': n1, n2 = ('LeakyRelu', ['x'], y1, dict(alpha=0.5)), ('LeakyRelu', ['x'], y2, {})
    if k == 'perm': n1, n2 = ('Transpose', ['x'], y1, dict(perm=[1, 0])), ('Transpose', ['x'], y2, dict(perm=[0, 1]))
    if k == 'cast': n1, n2 = ('Cast', ['x'], y1, dict(to=tp().DOUBLE)), ('Cast', ['x'], y2, dict(to=tp().FLOAT16))
    if k == 'type': n1, n2 = ('Relu', ['x'], y1, {}), ('Abs', ['x'], y2, {})
    if k == 'domain': n1, n2 = ('Relu', ['x'], y1, {}), ('Relu', ['x'], y2, {}, 'com.other')
    if k == 'random': n1, n2 = ('RandomUniform', [], y1, dict(shape=[2, 3])), ('RandomUniform', [], y2, dict(shape=[2, 3]))
    if k == 'random2': n1, n2 = ('RandomNormal', [], y1, dict(shape=[2, 3])), ('RandomNormal', [], y2, dict(shape=[2, 3]))
    if k == 'const':
        s['consts'] = [('c1', list(a.D)), ('c2', [a.N, a.D[1]])]
        n1, n2 = ('Add', ['x', 'c1'], y1, {}), ('Neg', ['c2'], y2, {})
    if k == 'ints':
        s['consts'] = [('c1', O.Ints([a.N, -1])), ('c2', O.Ints([a.K, -1]))]
        s['flat'] = True
        n1, n2 = ('Reshape', ['x', 'c1'], y1, {}), ('Reshape', ['x', 'c2'], y2, {})
    if k == 'ints-dtype':
        s['consts'] = [('c1', np.array([3, 4], np.int64)), ('c2', np.array([3, 4], np.int32))]
        n1, n2 = ('Expand', ['x', 'c1'], y1, {}), ('Identity', ['c2'], y2, {})
        return dict(s, nodes=[n1, ('Cast', ['c2'], ['z'], dict(to=tp().INT64)), ('Identity', ['z'], ['z2'], {})], outputs=['y', 'z2', 'c2'], direct=True)
    if k == 'same-bytes':
        s['consts'] = [('c1', np.zeros(3, np.float32)), ('c2', np.zeros(3, np.int32)), ('c3', np.zeros(3, np.uint32))]
        s['nodes'] = [('Neg', ['c1'], ['y'], {}), ('Identity', ['c2'], ['z'], {}), ('Identity', ['c3'], ['v'], {})]
        return dict(s, outputs=['y', 'z', 'v'], direct=True)
    if k in ('optional', 'optional2'):
        o1, o2 = (['y'], ['z', 'zm']) if k == 'optional' else (['y', 'ym'], ['z'])
        n1, n2 = ('Dropout', ['x'], o1, {}), ('Dropout', ['x'], o2, {})
        if k == 'optional': y2 = ['z']
        s['nodes'] = [n1, n2]
        return finish(a, s, ['y', 'z'], ['zm' if k == 'optional' else 'ym'] if a.fan != 'two' else [])
    if k == 'split':
        at = dict(num_outputs=2) if a.opset >= 18 else {}
        s['nodes'] = [('Split', ['x'], ['y', 'y2'], at), ('Split', ['x'], ['z', 'z2'], at), ('Sub', ['y2', 'z2'], ['q'], {}), ('Relu', ['q'], ['q2'], {})]
        return finish(a, s, ['y', 'z'], ['q2'])
    if k == 'split-axis':
        at = dict(num_outputs=2) if a.opset >= 18 else {}
        s['nodes'] = [('Split', ['x'], ['y', 'y2'], dict(at, axis=0)), ('Split', ['x'], ['z', 'z2'], dict(at, axis=1))]
        return finish(a, s, ['y', 'z'])
    if k == 'gather':
        s['consts'] = [('i1', O.Ints([0]))]
        n1, n2 = ('Gather', ['x', 'i1'], y1, dict(axis=0)), ('Gather', ['x', 'i1'], y2, dict(axis=1))
    if k == 'chain':
        s['nodes'] = [('Relu', ['x'], ['y'], {}), ('Relu', ['x'], ['z'], {}), ('Neg', ['y'], ['y2'], {}), ('Neg', ['z'], ['z2'], {}), ('Sub', ['y2', 'z2'], ['q'], {}), ('Sub', ['z2', 'w'], ['q2'], {})]
        return finish(a, s, ['q', 'q2'], [] if a.fan != 'both' else ['y2', 'z2', 'y', 'z'])
    if k == 'three':
        s['nodes'] = [('Relu', ['x'], ['y'], {}), ('LeakyRelu', ['x'], ['l1'], dict(alpha=.5)), ('Relu', ['x'], ['z'], {}), ('LeakyRelu', ['x'], ['l2'], dict(alpha=.25)), ('LeakyRelu', ['x'], ['l3'], dict(alpha=.5))]
        return finish(a, s, ['y', 'z', 'l1', 'l2', 'l3'])
    s['nodes'] = [n1, n2]
    return finish(a, s, ['y', 'z'])
KINDS = ['same', 'order', 'attr', 'attr-missing', 'perm', 'cast', 'type', 'random', 'random2', 'const', 'optional', 'optional2', 'split', 'split-axis', 'gather', 'chain', 'three', 'ints', 'ints-dtype', 'same-bytes']
def g_dupbody(a):
    TP = tp()
    s = dict(inputs=[('x', list(a.D)), ('p', [], TP.BOOL)], consts=[('c', list(a.D))], nodes=[('Relu', ['x'], ['n'], {})], outputs=[])
    th = dict(consts=[('d', list(a.D))], nodes=[('Relu', ['x'], ['b1'], {}), ('Relu', ['x'], ['b2'], {}), ('Sub', ['b1', 'b2'], ['b3'], {}), ('Add', ['b3', 'd'], ['b4'], {}), ('Add', ['b4', 'c'], ['b5'], {})], outputs=[a.out])
    el = dict(nodes=[('Relu', ['x'], ['e1'], {}), ('Relu', ['x'], ['e2'], {})], outputs=['e2'])
    s['nodes'].append(('If', ['p'], ['y'], dict(then_branch=th, else_branch=el)))
    s['nodes'].append(('Relu', ['x'], ['n2'], {}))
    s['nodes'].append(('Sub', ['n', 'n2'], ['z'], {}))
    s['outputs'] = ['y', 'z']; s['direct'] = True
    return s

# ------------------------------------------------------------------ computed reshapes
def g_reshape(a):
    D = list(a.D)
    s = dict(inputs=[('x', D)], consts=[], nodes=[('Shape', ['x'], ['sh'], {})], outputs=[], flat=True, shown={'x': [SInt_or(d) if a.un >> k & 1 == 0 else -1 for k, d in enumerate(D)]})
    r = len(D)
    cn = [0]
    def const(v):
        cn[0] += 1
        s['consts'].append(('k%d' % cn[0], np.array(v, np.int64) if all(isinstance(q, int) for q in (v if isinstance(v, list) else [v])) else O.Ints(v if isinstance(v, list) else [v])))
        return 'k%d' % cn[0]
    def add(op, ins, out, **at):
        s['nodes'].append((op, ins, [out], at)); return out
    def unsq(i, o):
        if a.opset >= 13: return add('Unsqueeze', [i, const([0])], o)
        return add('Unsqueeze', [i], o, axes=[0])
    def sq(i, o):
        if a.opset >= 13: return add('Squeeze', [i, const([0])], o)
        return add('Squeeze', [i], o, axes=[0])
    def sl(b, e, o):
        if a.opset >= 10: return add('Slice', ['sh', const([b]), const([e]), const([0])], o)
        return add('Slice', ['sh'], o, starts=[b], ends=[e], axes=[0])
    def dim(k, o): 
        return add('Gather', ['sh', const([k])], o, axis=0)
    f = a.form
    if f == 'slice-tail': parts = [sl(0, r - 1, 'a'), const([-1])]
    elif f == 'slice-head': parts = [const([-1]), sl(1, r, 'a')]
    elif f == 'swap': parts = [dim(k, 'd%d' % k) for k in ([1, 0] + list(range(2, r)))]
    elif f == 'gather-scalar':
        g = add('Gather', ['sh', const(0)], 'g', axis=0); parts = [unsq(g, 'u'), const([-1])]
    elif f == 'merge2':
        m = add('Mul', [dim(0, 'd0'), dim(1, 'd1')], 'm'); parts = [m] + [dim(k, 'd%d' % k) for k in range(2, r)]
    elif f == 'merge-last':
        m = add('Mul', [dim(r - 2, 'd0'), dim(r - 1, 'd1')], 'm'); parts = [dim(k, 'e%d' % k) for k in range(r - 2)] + [m]
    elif f == 'cast':
        c = add('Cast', ['sh'], 'c32', to=tp().INT32); g = add('Gather', [c, const([1])], 'g', axis=0); g = add('Cast', [g], 'g64', to=tp().INT64); parts = [const([-1]), g]
    elif f == 'prod':
        p = add('ReduceProd', [sl(0, 2, 'a')], 'p', axes=[0], keepdims=1); parts = [p] + [dim(k, 'e%d' % k) for k in range(2, r)]
    elif f == 'insert1':
        parts = [dim(0, 'd0'), const([1])] + [dim(k, 'e%d' % k) for k in range(1, r)]
    elif f == 'split':
        parts = [const([a.N]), add('Div', [dim(0, 'd0'), const([a.N])], 'dv')] + [dim(k, 'e%d' % k) for k in range(1, r)]
    elif f == 'drop-first':
        parts = [dim(k, 'e%d' % k) for k in range(1, r)] + [dim(0, 'd0')]
    elif f == 'twice':
        parts = [add('Mul', [dim(0, 'd0'), const([2])], 'm2'), const([-1])]
    elif f == 'add':
        parts = [add('Add', [dim(0, 'd0'), const([1])], 'm2'), const([-1])]
    elif f == 'same': parts = [dim(k, 'e%d' % k) for k in range(r)]
    elif f == 'ones': parts = [const([1]), const([1]), dim(0, 'd0'), const([-1])]
    elif f == 'squeezed':
        q = sq(sl(0, 1, 'a'), 'q'); parts = [unsq(q, 'u'), const([-1])]
    if a.order and len(parts) > 1: parts = parts[1:] + parts[:1]
    add('Concat', parts, 'shape', axis=0)
    s['nodes'].append(('Reshape', ['x', 'shape'], ['y'], {}))
    s['cdt'] = {}
    return finish(a, s, ['y'])
FORMS = ['slice-tail', 'slice-head', 'swap', 'gather-scalar', 'merge2', 'merge-last', 'cast', 'prod', 'insert1', 'drop-first', 'twice', 'same', 'ones', 'squeezed', 'split']
def SInt_or(d): return d

# ------------------------------------------------------------------ global pooling
def g_pool(a):
    r = len(a.D)
    s = dict(inputs=[('x', list(a.D))], consts=[], nodes=[], outputs=[])
    ins, attr = ['x'], {}
    if a.keep is not None: attr['keepdims'] = a.keep
    if a.axes is not None: ints_in(a, s, ins, attr, 'axes', a.axes, 18)
    s['nodes'].append((a.op, ins, ['y'], attr))
    return finish(a, s, ['y'])

# ------------------------------------------------------------------ quantization
def moved(a, k, src, dst, dims, s):
    """an operator that only moves elements, applied to src"""
    r = len(dims)
    if k == 'Transpose': return ('Transpose', [src], [dst], dict(perm=list(range(r))[::-1]))
    if k == 'Identity': return ('Identity', [src], [dst], {})
    if k == 'Flatten': return ('Flatten', [src], [dst], {})
    if k == 'Slice':
        s['consts'] += [('ss', O.Ints([0])), ('se', O.Ints([1]))]
        return ('Slice', [src, 'ss', 'se'], [dst], {})
    if k == 'Reshape':
        s['consts'].append(('rs', O.Ints([-1]))); return ('Reshape', [src, 'rs'], [dst], {})
    if k == 'Unsqueeze':
        if a.opset >= 13: s['consts'].append(('ax', O.Ints([0]))); return ('Unsqueeze', [src, 'ax'], [dst], {})
        return ('Unsqueeze', [src], [dst], dict(axes=[0]))
    if k == 'Squeeze':
        if a.opset >= 13: s['consts'].append(('ax', O.Ints([r - 1]))); return ('Squeeze', [src, 'ax'], [dst], {})
        return ('Squeeze', [src], [dst], dict(axes=[r - 1]))
    if k == 'Expand':
        s['consts'].append(('ex', O.Ints([1] + list(dims)))); return ('Expand', [src, 'ex'], [dst], {})
    if k == 'Gather':
        s['consts'].append(('gi', O.Ints([0, 1]))); return ('Gather', [src, 'gi'], [dst], dict(axis=0))
    if k == 'GatherND': s['inputs'].append(('gi', O.Ints([0]))); return ('GatherND', [src, 'gi'], [dst], {})
    if k == 'Tile': s['consts'].append(('ti', O.Ints([2] + [1] * (r - 1)))); return ('Tile', [src, 'ti'], [dst], {})
    if k == 'Compress': s['inputs'].append(('gi', O.Ints([0]))); return ('Compress', [src, 'gi'], [dst], dict(axis=0))
    if k == 'ReverseSequence': s['inputs'].append(('gi', O.Ints([0]))); return ('ReverseSequence', [src, 'gi'], [dst], {})
    if k == 'DepthToSpace': return ('DepthToSpace', [src], [dst], dict(blocksize=2))
    if k == 'Relu': return ('Relu', [src], [dst], {})
    if k == 'Add': return ('Add', [src, src], [dst], {})
MOVES = ['Transpose', 'Identity', 'Flatten', 'Slice', 'Reshape', 'Unsqueeze', 'Squeeze', 'Expand', 'Gather', 'GatherND', 'Tile', 'Compress', 'ReverseSequence', 'DepthToSpace']
def qparams(a, s, n=2):
    zt = np.int8 if a.get('zt') == 'i8' else np.uint8
    for k in range(n):
        sh = [a.D[a.axis if a.axis is not None else 1]] if a.per else a.get('sshape', [])
        s['consts'] += [('qs%d' % k, sh), ('qz%d' % k, sh)]
        s.setdefault('cdt', {})['qz%d' % k] = zt
    return dict(axis=a.axis) if a.axis is not None else {}
def g_push_up(a):
    """x -> op -> Q (two readers with the same or other parameters)"""
    D = list(a.D)
    if a.op == 'Squeeze': D[-1] = 1
    s = dict(inputs=[('x', D)], consts=[], nodes=[], outputs=[], flat=a.op == 'Reshape')
    at = qparams(a, s)
    outs = ['v']
    if a.op == 'Concat':
        s['inputs'].append(('x2', D)); s['nodes'].append(('Concat', ['x', 'x2'], ['v'], dict(axis=1)))
    elif a.op == 'Split':
        s['nodes'].append(('Split', ['x'], ['v', 'v2'], dict(axis=1, **(dict(num_outputs=2) if a.opset >= 18 else {})))); outs = ['v', 'v2']
    elif a.op == 'ScatterElements':
        s['inputs'] += [('si', O.Ints([0])), ('su', list(a.D))]; s['nodes'].append(('ScatterElements', ['x', 'si', 'su'], ['v'], {}))
    else:
        s['nodes'].append(moved(a, a.op, 'x', 'v', D, s))
    extra = []
    ys = []
    for k, v in enumerate(outs):
        s['nodes'].append(('QuantizeLinear', [v, 'qs0', 'qz0'], ['q%d' % k], at))
        ys.append('q%d' % k)
    if a.other in ('sameQ', 'otherQ'):
        j = 0 if a.other == 'sameQ' else 1
        s['nodes'].append(('QuantizeLinear', ['v', 'qs%d' % j, 'qz%d' % j], ['qq'], at)); ys.append('qq')
    if a.other == 'read': s['nodes'].append(('Relu', ['v'], ['e'], {})); extra.append('e')
    if a.other == 'output': extra.append('v')
    for k, y in enumerate(ys):
        if a.fan != 'direct':
            s['nodes'].append(('DequantizeLinear', [y, 'qs0', 'qz0'], ['o%d' % k], at))
    s['outputs'] = (ys if a.fan == 'direct' else ['o%d' % k for k in range(len(ys))]) + extra
    s['direct'] = True
    return s
def g_push_down(a):
    """DQ -> op -> reader"""
    D = list(a.D)
    if a.op == 'Squeeze': D[-1] = 1
    TP = tp()
    u8 = TP.INT8 if a.get('zt') == 'i8' else TP.UINT8
    s = dict(inputs=[('x', D, u8)], consts=[], nodes=[], outputs=[], flat=a.op == 'Reshape')
    at = qparams(a, s)
    s['nodes'].append(('DequantizeLinear', ['x', 'qs0', 'qz0'], ['d'], at))
    outs, extra = ['v'], []
    if a.op == 'Concat':
        s['inputs'].append(('x2', D, u8))
        j = 1 if a.other == 'otherQ' else 0
        s['nodes'] += [('DequantizeLinear', ['x2', 'qs%d' % j, 'qz%d' % j], ['d2'], at), ('Concat', ['d', 'd2'], ['v'], dict(axis=1))]
    elif a.op == 'Split':
        s['nodes'].append(('Split', ['d'], ['v', 'v2'], dict(axis=1, **(dict(num_outputs=2) if a.opset >= 18 else {})))); outs = ['v', 'v2']
    elif a.op == 'ScatterElements':
        s['inputs'] += [('si', O.Ints([0])), ('su', D, u8)]
        s['nodes'] += [('DequantizeLinear', ['su', 'qs0', 'qz0'], ['d2'], at), ('ScatterElements', ['d', 'si', 'd2'], ['v'], {})]
    else:
        s['nodes'].append(moved(a, a.op, 'd', 'v', D, s))
    if a.other == 'read': s['nodes'].append(('Relu', ['d'], ['e'], {})); extra.append('e')
    if a.other == 'output': extra.append('d')
    return finish(a, s, outs, extra)
def g_dqq(a):
    """DQ -> Q"""
    TP = tp()
    s = dict(inputs=[('x', list(a.D), TP.UINT8)], consts=[], nodes=[], outputs=[])
    at = qparams(a, s)
    s['consts'].append(('i8', [])); s['cdt']['i8'] = np.int8
    z2 = dict(same='qz0', other='qz1', type='i8', none=None, scale='qz0')[a.params]
    s2 = 'qs1' if a.params in ('other', 'scale') else 'qs0'
    at2 = dict(at)
    if a.ax2 is not None: at2['axis'] = a.ax2
    s['nodes'] = [('DequantizeLinear', ['x', 'qs0'] + (['qz0'] if a.params != 'none' else []), ['d'], at), ('QuantizeLinear', ['d', s2] + ([z2] if z2 else []), ['q'], at2)]
    extra = []
    if a.other == 'read': s['nodes'].append(('Relu', ['d'], ['e'], {})); extra.append('e')
    if a.other == 'output': extra.append('d')
    if a.fan == 'direct':
        s['outputs'] = ['q'] + extra
    else:
        s['nodes'] += [('DequantizeLinear', ['q', 'qs0', z2 or 'qz0'], ['o'], at)]
        if a.fan == 'two': s['nodes'].append(('Transpose', ['q'], ['o2'], dict(perm=list(range(len(a.D)))[::-1]))); extra.append('o2')
        s['outputs'] = ['o'] + extra + (['q'] if a.fan == 'both' else [])
    s['direct'] = True
    return s
def g_cdq(a):
    """a quantized constant dequantized, then moved"""
    D = list(a.D)
    s = dict(inputs=[], consts=[('c', D)], nodes=[], outputs=[], cdt=dict(c=np.uint8))
    r = len(D)
    per = a.per
    at = {}
    sh = []
    if per:
        ax = a.axis
        if ax is not None: at['axis'] = ax
        sh = [D[(1 if ax is None else ax) % r]]
    elif a.sone: sh = [1]
    s['consts'].append(('qs', sh)); s['consts'].append(('qz', sh)); s['cdt']['qz'] = np.uint8
    if a.run == 'c': s['consts'].pop(0); s['inputs'].append(('c', D, tp().UINT8))
    if a.run == 'qs': s['consts'] = [c for c in s['consts'] if c[0] != 'qs']; s['inputs'].append(('qs', sh))
    s['nodes'].append(('DequantizeLinear', ['c', 'qs', 'qz'], ['d'], at))
    if a.op == 'Transpose': s['nodes'].append(('Transpose', ['d'], ['v'], dict(perm=a.x) if a.x is not None else {}))
    if a.op == 'Unsqueeze':
        ins, at2 = ['d'], {}
        ints_in(a, s, ins, at2, 'axes', a.x, 13)
        s['nodes'].append(('Unsqueeze', ins, ['v'], at2))
    if a.op == 'Reshape':
        s['consts'].append(('rs', O.Ints(a.x(a)))); s['nodes'].append(('Reshape', ['d', 'rs'], ['v'], {}))
    extra = []
    if a.shared == 'c': s['nodes'].append(('DequantizeLinear', ['c', 'qs', 'qz'], ['e'], dict(at))); s['nodes'].append(('Relu', ['e'], ['e2'], {})); extra.append('e2')
    if a.shared == 'qz': s['nodes'].append(('Identity', ['qz'], ['e2'], {})); extra.append('e2')
    if a.shared == 'd': s['nodes'].append(('Relu', ['d'], ['e2'], {})); extra.append('e2')
    if a.shared == 'dout': extra.append('d')
    if a.shared == 'cout': extra.append('c')
    return finish(a, s, ['v'], extra)

# ------------------------------------------------------------------ upsample, loops
def g_up(a):
    s = dict(inputs=[('x', list(a.D))], consts=[], nodes=[], outputs=[])
    ins, attr = ['x'], {}
    if a.mode: attr['mode'] = a.mode
    if a.opset < 9: attr['scales'] = list(a.sc)
    else:
        ins.append('scales')
        if a.run: s['inputs'].append(('scales', [len(a.sc)]))
        else: s['consts'].append(('scales', np.array(a.sc, np.float32)))
    s['nodes'].append(('Upsample', ins, ['y'], attr))
    return finish(a, s, ['y'])
def g_loop(a):
    TP = tp()
    r = len(a.D)
    s = dict(inputs=[('x', list(a.D)), ('n', [], TP.INT64), ('c', [], TP.BOOL)], consts=[], nodes=[], outputs=[])
    body = dict(inputs=[('it', TP.INT64, []), ('going', TP.BOOL, []), ('st', TP.FLOAT, None)], nodes=[], outputs=[], consts=[])
    body['nodes'].append(('Identity', ['going'], ['go'], {}))
    body['nodes'].append(('Add', ['st', 'x'], ['st2'], {}))
    tin = dict(inner='rel', outer='x', state='st')[a.src]
    body['nodes'].append(('Relu', ['st2'], ['rel'], {}))
    body['nodes'].append(('Transpose', [tin], ['tr'], dict(perm=a.perm)))
    sc = 'tr'
    if a.ident: body['nodes'].append(('Identity', ['tr'], ['id'], {})); sc = 'id'
    stout = 'st2'
    outs = [sc]
    if a.more == 'read':
        body['nodes'].append(('ReduceSum' if False else 'Neg', ['tr'], ['neg'], {})); outs.append('neg')
    if a.more == 'again': outs.append(sc)
    if a.more == 'two': body['nodes'].append(('Transpose', ['rel'], ['tr2'], dict(perm=a.perm[::-1]))); outs.append('tr2')
    if a.more == 'plain': outs = ['rel'] + outs
    if a.more == 'state':
        body['inputs'].append(('s2', TP.FLOAT, None)); 
        body['outputs'] = ['go', stout, 'tr'] + outs
    else:
        body['outputs'] = ['go', stout] + outs
    lo = ['f0'] + (['f1'] if a.more == 'state' else []) + ['sc%d' % k for k in range(len(outs))]
    ins = ['n', 'c', 'x'] + (['x2'] if a.more == 'state' else [])
    if a.more == 'state': s['inputs'].append(('x2', [a.D[p] for p in a.perm]))
    s['nodes'].append(('Loop', ins, lo, dict(body=body)))
    fin = [o for o in lo if o.startswith('sc')]
    return finish(a, s, fin, ['f0'])

# ------------------------------------------------------------------ contracts
def exact_between(t0, t1): return S.exact_table()(t0, t1)
def contracts(tier='quick'):
    out = []
    SH = ['all', 'none']
    def con(name, mod, cls, build, ranks=(2,), limit=240, pre=None, covers=('finished',), **p):
        for r in ranks:
            pp = dict(D=Dims(r), known=OneOf(p.get('known', SH)), fan=OneOf(p.get('fan', ['one'])))
            for k, v in p.items():
                if k in ('known', 'fan'): continue
                v = v(r) if callable(v) and not isinstance(v, Dom) else v
                pp[k] = v if isinstance(v, Dom) else OneOf(v)
            m = M + mod
            c = Contract('%s-rank%d' % (name, r), m + ':' + cls + '._optimize', pp, S.post, pre, modes=('sized',), covers=covers, timeout=8000, call=S.runner(build, cls, None, m))
            c.no_concrete, c.limit, c.build = True, limit, build
            out.append(c)
    CF, B2B, ID, MD, RS, GP, QD, CD, UP, LP = (('const_fold_optimizer', 'ConstFoldOptimizer'), ('back_to_back_optimizer', 'BackToBackOptimizer'), ('identity_optimizer', 'IdentityOptimizer'),
        ('merge_duplicated_nodes_optimizer', 'MergeDuplicatedNodesOptimizer'), ('reshape_optimizer', 'ReshapeOptimizer'), ('global_pool_optimizer', 'GlobalPoolOptimizer'), ('q_dq_optimizer', 'QDQOptimizer'),
        ('const_dequantize_optimizer', 'ConstDequantizeOptimizer'), ('upsample_optimizer', 'UpsampleOptimizer'), ('loop_optimizer', 'LoopOptimizer'))
    TP = tp()
    quick = tier == 'quick'
    allp = lambda r: [None] + [list(p) for p in itertools.permutations(range(r))]
    con('fold-transpose', *CF, g_fold, ranks=(1, 2, 3, 4), op=['Transpose'], x=allp, opset=[13], shared=[False, True], fan=FANS)
    con('fold-cast', *CF, g_fold, ranks=(0, 2), op=['Cast'], x=[TP.FLOAT, TP.DOUBLE, TP.FLOAT16, TP.INT32, TP.INT64, TP.BOOL, TP.UINT8], opset=[13], shared=[False], fan=FANS)
    con('fold-unsqueeze', *CF, g_fold, ranks=(0, 1, 2, 3), op=['Unsqueeze'], x=lambda r: [[k] for k in range(-r - 1, r + 1)] + [list(p) for p in itertools.permutations(range(-1, r + 2), 2) if (p[0] - p[1]) % (r + 2)], opset=[9, 11, 13], shared=[False], fan=['one', 'both'],
        pre=lambda a: a.opset >= 11 or min(a.x) >= 0)
    con('fold-concat', *CF, g_fold, ranks=(1, 2, 3), op=['Concat'], x=lambda r: [(ax, n) for ax in range(-r, r) for n in (1, 2, 3)], N=Int(lo=1), opset=[9, 13], shared=[False], fan=['one', 'both'], pre=lambda a: a.opset >= 11 or a.x[0] >= 0)
    con('fold-binary', *CF, g_fold, ranks=(0, 1, 2, 3), op=['Mul', 'Add', 'Sub'], x=lambda r: [(q, m) for q in range(r + 2) for m in range(1 << q)], swap=[False, True], opset=[13], shared=[False], fan=['one'])
    con('fold-split', *CF, g_fold, ranks=(1, 2, 3), op=['Split'], x=lambda r: [(ax, n, f) for ax in range(-r, r) for n in (1, 2, 3) for f in ('sizes', 'equal')], N=Int(lo=1), swap=[False, True], opset=[9, 13, 18], shared=[False], fan=['one', 'both'],
        pre=lambda a: And(a.opset >= 11 or a.x[0] >= 0, a.x[1] == 1 or a.N * (a.x[1] - 1) < a.D[a.x[0]]))
    con('fold-reshape', *CF, g_fold, ranks=(1, 2, 3), op=['Reshape'], x=lambda r: SHAPES[r], swap=[False, True], opset=[13, 14], shared=[False], fan=['one', 'direct'], pre=lambda a: not a.swap or a.opset >= 14 and 0 not in [v for v in a.x(a) if isinstance(v, int)])
    mids = [None, 'read', 'output', 'branch', 'chain']
    con('transpose-transpose', *B2B, g_tt, ranks=(2, 3), p=lambda r: allp(r)[1:], q=lambda r: allp(r)[1:], q2=lambda r: allp(r)[1:], mid=mids, opset=[13], fan=FANS, pre=lambda a: (a.mid in ('branch', 'chain') or a.q2 == list(range(len(a.q2)))) and (not quick or a.fan in ('one', 'direct') and (a.mid not in ('branch', 'chain') or a.fan == 'one' and a.known == 'all')))
    con('transpose4', *B2B, g_tt, ranks=(4,), p=lambda r: allp(r)[1:], q=lambda r: allp(r)[1:], q2=[None], mid=[None], opset=[13], fan=['one', 'direct'], known=['all'])
    types = [TP.FLOAT, TP.FLOAT16, TP.INT32, TP.INT64, TP.BOOL, TP.UINT8] if quick else [TP.FLOAT, TP.DOUBLE, TP.FLOAT16, TP.INT32, TP.INT64, TP.INT8, TP.BOOL, TP.UINT8, TP.UINT32]
    isf = lambda t: t in (TP.FLOAT, TP.DOUBLE, TP.FLOAT16)
    # removing a cast through a floating type that does not hold every value is a known finding
    lossless = lambda a: (not isf(a.t1) or exact_between(a.t0, a.t1)) and (a.mid != 'chain' or not isf(a.t2) or exact_between(a.t1, a.t2)) 
    con('cast-cast', *B2B, g_cc, ranks=(1,), t0=types, t1=types, t2=types, t3=[TP.FLOAT, TP.INT32, TP.BOOL], mid=mids, opset=[13], fan=['one', 'direct'], known=['all'],
        pre=lambda a: lossless(a) and (a.mid in ('branch', 'chain') or a.t3 == TP.FLOAT) and (a.mid in (None, 'branch') or a.fan == 'one'))
    for ops in ([9], [11], [13]):
        con('squeeze-unsqueeze-%d' % ops[0], *B2B, g_squ, ranks=(2, 3), ax=lambda r: subsets(r), ax2=lambda r: subsets(r) + [[-1], [-2], [1, 0]][:r + 1], neg=[False, True] if ops > [9] else [False], same=['shared', 'own'] if ops == [13] else ['own'], mid=[None, 'read', 'output'], opset=ops, fan=FANS,
        pre=lambda a: (not quick or a.mid is None or a.fan == 'one') and (not quick or a.fan in ('one', 'direct') or a.known == 'all') and len(a.ax) == len(a.ax2) and (a.same == 'own' or a.ax == a.ax2 and a.opset >= 13) and (a.opset >= 11 or not a.neg and min(a.ax2) >= 0))
    con('reshape-reshape', *B2B, g_rr, ranks=(2, 3), sh=lambda r: RR[r], run=[None, 'second'], zero=[False, True], mid=[None, 'read', 'output', 'branch'], opset=[13, 14], fan=['one', 'direct'],
        pre=lambda a: And(not a.zero or a.opset >= 14 and 0 not in [v for v in a.sh[1](a) if isinstance(v, int)]))
    con('conv-batchnorm', *B2B, g_bn, ranks=(6,), rank=[3, 4], M=Int(lo=1), bias=[False, True], run=[None, 'W', 'b', 'sc', 'va'], at=[False, True], more=[False, True, 'train'], shared=[None, 'W', 'sc', 'rm'], mid=[None, 'read', 'output'], opset=[9, 15], fan=['one', 'direct'], known=['all'],
        pre=lambda a: And(a.run != 'b' or a.bias, a.shared != 'rm' or bool(a.more), a.more != 'train' or a.opset >= 14, a.mid is None or a.run is None and not a.more and a.shared is None, a.rank == 4 or not a.more and not a.shared))
    con('identity', *ID, g_ident, ranks=(2,), src=['input', 'const', 'node', 'split'], two=['chain', 'both'], read=[0, 1, 2, 3], out=list(range(8)), opset=[13, 18], known=['all', 'none'],
        pre=lambda a: (a.opset == 18) == (a.src == 'split'))
    con('identity-body', *ID, g_body, ranks=(2,), src=['outer', 'input', 'const', 'ident', 'inner'], out=['b1', 'b2', 'b3'], opset=[13])
    con('duplicates', *MD, g_dup, ranks=(2,), kind=KINDS, N=Int(lo=1), K=Int(lo=1), opset=[13, 18], fan=FANS, pre=lambda a: And(a.opset == 13 or a.kind.startswith('split')))
    con('duplicates-body', *MD, g_dupbody, ranks=(2,), out=['b1', 'b2', 'b3', 'b4', 'b5'], opset=[13])
    con('computed-reshape', *RS, g_reshape, ranks=(2, 3, 4), un=lambda r: list(range(1 << r)), form=FORMS, N=Int(lo=1), order=[False, True], opset=[9, 13], fan=['one', 'direct', 'both'], known=['all', 'none'],
        pre=lambda a: And(not quick or a.fan == 'one' or len(a.D) == 2, not quick or len(a.D) < 4 or a.known == 'all' and not a.order, a.form != 'split' or a.D[0] % a.N == 0, a.opset == 13 or a.form in ('slice-tail', 'gather-scalar', 'squeezed', 'drop-first')))
    con('global-pool', *GP, g_pool, ranks=(2, 3, 4, 5), op=['ReduceMean', 'ReduceMax'], keep=[None, 0, 1], axes=lambda r: [None] + subsets(r) + [list(range(2 - r, 0)), list(range(2, r))[::-1]], opset=[9, 11, 13, 18], fan=['one', 'direct', 'both'], known=['all', 'none'],
        pre=lambda a: (not quick or len(a.D) < 4 or a.fan == 'one' or a.fan == 'direct' and a.known == 'all') and bool(a.axes is None or a.axes) and (a.opset >= 11 or a.axes is None or min(a.axes) >= 0))
    con('push-quantize', *QD, g_push_up, ranks=(4,), op=MOVES + ['Concat', 'Split', 'ScatterElements', 'Relu', 'Add'], other=[None, 'sameQ', 'otherQ', 'read', 'output'], fan=['one', 'direct'], per=[False], axis=[None], opset=[10, 13, 18], known=['all', 'none'], zt=['u8', 'i8'],
        pre=lambda a: (a.opset == 13 or a.zt == 'u8' and a.other is None and a.op in ('Split', 'Transpose', 'Slice', 'Unsqueeze', 'Relu')) and (a.zt == 'u8' or a.other is None))
    con('push-dequantize', *QD, g_push_down, ranks=(4,), op=MOVES + ['Concat', 'Split', 'ScatterElements', 'Relu', 'Add'], other=[None, 'otherQ', 'read', 'output'], fan=['one', 'direct', 'both'], per=[False], axis=[None], opset=[10, 13, 18], known=['all', 'none'], zt=['u8', 'i8'],
        pre=lambda a: (a.opset == 13 or a.zt == 'u8' and a.other is None and a.op in ('Split', 'Transpose', 'Slice', 'Unsqueeze', 'Relu')) and (a.zt == 'u8' or a.other is None))
    con('push-per-axis', *QD, g_push_up, ranks=(3,), op=['Transpose', 'Identity'], other=[None], fan=['one'], per=[True], axis=[None, 0, 1, 2], opset=[13], known=['all', 'none'])
    con('push-per-axis-down', *QD, g_push_down, ranks=(3,), op=['Transpose', 'Identity'], other=[None], fan=['one'], per=[True], axis=[None, 0, 1, 2], opset=[13], known=['all', 'none'])
    con('dequantize-quantize', *QD, g_dqq, ranks=(3,), params=['same', 'other', 'type', 'none', 'scale'], per=[False, True], axis=[None, 0, 2], ax2=[None, 1], other=[None, 'read', 'output'], fan=['one', 'two', 'direct', 'both'], opset=[10, 13], known=['all', 'none'],
        pre=lambda a: (a.opset >= 13 or not a.per and a.axis is None and a.ax2 is None) and (a.params != 'type' or not a.per) and (a.axis is None or a.per) and (a.ax2 is None or not a.per))
    cshapes = {2: [Sh('[-1]'), Sh('[a.D[0], a.D[1], 1]'), Sh('[a.D[0], 1, a.D[1]]'), Sh('[1, a.D[0], a.D[1]]'), Sh('[a.D[1], a.D[0]]')],
               3: [Sh('[-1]'), Sh('[a.D[0] * a.D[1], a.D[2]]'), Sh('[a.D[0], a.D[1] * a.D[2]]'), Sh('[a.D[0], a.D[1], a.D[2], 1]'), Sh('[1, a.D[0], a.D[1], a.D[2]]')]}
    def common(per, sh): return dict(per=[per], sone=[False] if per else [False, True], axis=(lambda r: [None] + list(range(-r, r))) if per else [None], run=[None, 'c', 'qs'], shared=sh, fan=['one', 'two', 'direct'], known=['all', 'none'])
    cpre = lambda a: (not quick or len(a.D) == 2 or a.fan == 'one' and (a.known == 'all' or not a.shared)) and (a.run is None or a.shared is None) and (a.fan == 'one' or a.shared is None and not a.run) and not (a.sone and (a.shared or a.run))
    for per in (False, True):
        for sn, sh in (('', [None]), ('-shared', ['c', 'qz', 'd', 'dout', 'cout'])):
            tag = ('-per-axis' if per else '') + sn
            cm = common(per, sh)
            if sn: cm.update(run=[None], fan=['one'], sone=[False])
            con('const-dequantize-transpose' + tag, *CD, g_cdq, ranks=(2, 3), op=['Transpose'], x=allp, opset=[13], pre=cpre, **cm)
            con('const-dequantize-unsqueeze' + tag, *CD, g_cdq, ranks=(2, 3), op=['Unsqueeze'], x=lambda r: [[k] for k in range(-r - 1, r + 1)] + [[0, 1], [0, 2], [2, 1], [0, -1]], opset=[13] if per else [10, 13], pre=lambda a: cpre(a) and (a.opset >= 13 or min(a.x) >= 0), **cm)
            con('const-dequantize-reshape' + tag, *CD, g_cdq, ranks=(2, 3), op=['Reshape'], x=lambda r: cshapes[r], opset=[13], pre=cpre, **cm)
    con('upsample', *UP, g_up, ranks=(4,), sc=[[1., 1., 1., 1.], [1., 1., 2., 2.], [1., 1., 2., 1.]], mode=[None, 'linear', 'nearest'], run=[False, True], opset=[7, 8, 9], fan=FANS, pre=lambda a: not a.run or a.opset >= 9)
    con('loop', *LP, g_loop, ranks=(2, 3), perm=lambda r: allp(r)[1:], src=['inner', 'state'], ident=[False, True], more=[None, 'read', 'again', 'two', 'plain', 'state'], opset=[13], fan=FANS, known=['all', 'none'],
        pre=lambda a: not quick or len(a.D) == 2 or a.known == 'all' and (a.fan in ('one', 'direct') or a.more is None))
    return out

PASS = dict(const_fold_optimizer='fold_constants', back_to_back_optimizer='remove_back_to_back', identity_optimizer='remove_identity', merge_duplicated_nodes_optimizer='merge_duplication', reshape_optimizer='reshape_optimizer',
            global_pool_optimizer='global_pool_optimizer', q_dq_optimizer='q_dq_optimizer', const_dequantize_optimizer='const_dequantize_optimizer', upsample_optimizer='remove_redundant_upsample', loop_optimizer='loop_optimizer')
def replay(cn, args):
    from pyvc import optreplay
    c = next((c for c in contracts('thorough') + contracts() if c.name == cn), None)
    return optreplay.replay(c.build, A(args), [PASS[c.fn.split(':')[0].split('.')[-1]]], c.pre) if c else None
def bounded(tier, seed, shard, nshards, R):
    from props import C08net as N
    q = 1 if tier == 'quick' else 12
    N.lossy_casts(R, shard)
    N.directed(R, contracts('thorough'), PASS, seed, shard, nshards, 80 * q)
    N.einsums(R, seed, shard, nshards, 240 * q)
    N.random_nets(R, seed, shard, nshards, 3000 * q)
