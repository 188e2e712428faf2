"""C02: convolutions and poolings read the same windows of the same tensors as TensorFlow's."""
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, VList, Unsupported, ctx, zi as _zi

def zi(x): return x if z3.is_expr(x) else _zi(x)

LEVEL = 'proof'
PROOF_SHARDS = 6
BOUNDED_SHARDS = 4
TRUSTED = ['CPython executing the instrumented handlers', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2',
           'denotations of Transpose, Reshape, Identity, Squeeze, Unsqueeze (pyvc/denote.py)']
ASSUMPTIONS = ['ONNX Conv, ConvTranspose, MaxPool and AveragePool sum / reduce over exactly the window their strides, dilations, pads and group attributes describe',
               'TensorFlow static output sizes are ceil(in/stride) for SAME padding',
               'with an unknown spatial size SAME padding is delegated to ONNX auto_pad=SAME_UPPER',
               'python ints are mathematical integers (exact); attribute protobufs hold 64-bit values']
EXPLANATION = ('the real conversion handlers are executed on graphs whose batch, channel, spatial and kernel sizes, strides and dilations are all symbolic; '
               'the emitted operator must receive, at every index, the data and kernel element TensorFlow uses, with the strides, dilations, groups and '
               'padding of the TensorFlow rule, and its result must come back at the TensorFlow index')
BOUNDED_NOTE = ('models_*: generated convolution / pooling models converted end to end, run with onnxruntime and compared with a direct numpy definition '
                '(sizes up to 10, kernels up to 6, strides and dilations up to 5, opsets 7-18)')

def dims(n, lo=1): return ListOf(Int(lo=lo), minlen=n, maxlen=n, unbounded=False)

def full(first, v, c=1):
    return [1, c] + list(v) + [] if first else [1] + list(v) + [c]

def chan(a): return a.G * a.CI if 'G' in a else a.C

def build(kind, sp, a):
    """graph holding one TensorFlow operator, as it reaches the handler"""
    from pyvc import symenv
    from pyvc.symenv import OpaqueArr, VAL, mkgraph
    if not getattr(symenv, '_done', False):
        symenv.install()
        symenv._done = True
    from onnx import TensorProto as TP
    first = a.fmt.startswith('NC')
    S, K, st = list(a.S), list(a.K), list(a.st)
    dil = list(a.dil) if 'dil' in a else [1] * sp
    N, C, M = a.N, chan(a), a.M
    unk = a.unk if 'unk' in a else False
    xs = [N, C] + S if first else [N] + S + [C]
    op = {'conv': 'Conv%dD' % sp, 'dw': 'DepthwiseConv2dNative', 'maxpool': 'MaxPool' if sp == 2 else 'MaxPool3D', 'avgpool': 'AvgPool' if sp == 2 else 'AvgPool3D',
          'convt': 'Conv2DBackpropInput' if sp == 2 else 'Conv3DBackpropInputV2'}[kind]
    pooling = 'pool' in kind
    Mout = C if pooling else (C * M if kind == 'dw' else M)
    O = list(a.O)
    os_ = [N, Mout] + O if first else [N] + O + [Mout]
    hide = lambda sh: [(-1 if unk and (k >= 2 if first else 0 < k <= sp) else d) for k, d in enumerate(sh)]
    attr = dict(strides=[1, 1] + st if first else [1] + st + [1], padding=a.pad, data_format=a.fmt)
    if pooling:
        attr['ksize'] = [1, 1] + K if first else [1] + K + [1]
    else:
        attr['dilations'] = [1, 1] + dil if first else [1] + dil + [1]
    if a.pad == 'EXPLICIT':
        e = list(a.E)
        attr['explicit_paddings'] = [0, 0, 0, 0] + e if first else [0, 0] + e + [0, 0]
    idx = [z3.IntSort()] * (sp + 2)
    Xf, Wf = z3.Function('X', *idx, VAL), z3.Function('W', *idx, VAL)
    ins, consts, ph = [], [], [('x:0', TP.FLOAT, hide(xs))]
    ws = K + ([C, M] if kind == 'dw' else [M, C] if kind == 'convt' else [a.CI if 'CI' in a else C, M])
    if not pooling:
        arr = OpaqueArr(ws, lambda ix: Wf(*ix))
        if a.constw:
            consts.append(('w:0', arr))
            wn = 'w:0'
        else:
            ph.append(('w:0', TP.FLOAT, ws))
            wn = 'w:0'
    if a.get('constx'):
        ph = ph[1:]
        consts.append(('x:0', OpaqueArr(xs, lambda ix: Xf(*ix))))
    if kind == 'convt':
        from pyvc.symenv import SArr
        consts.append(('osize:0', SArr(os_, np.int32)))
        ins = ['osize:0', wn, 'x:0']
    elif pooling:
        ins = ['x:0']
    else:
        ins = ['x:0', wn]
    g, made = mkgraph(a.opset, ph, consts, [(op, 'node', ins, ['node:0'], attr, [hide(os_) if not unk or kind != 'convt' else os_], [TP.FLOAT])], ['node:0'])
    return dict(g=g, node=made['node'], op=op, X=Xf, W=Wf, xs=xs, ws=ws, os=os_, first=first, S=S, K=K, st=st, dil=dil, O=O, Mout=Mout, unk=unk, sp=sp, kind=kind,
                wvar=None if pooling or a.constw else wn, xconst=bool(a.get('constx')))

def run(kind, sp):
    def call(f, a):
        st = build(kind, sp, a)
        st['node'].type = {'maxpool': 'MaxPool', 'avgpool': 'AveragePool'}.get(kind, st['op'])      # what tf2onnx does before it calls the handler
        f(st['g'], st['node'], tf_op=st['op'])
        return st
    return call

def tf_pads(pad, S, K, st, dil, O, E):
    """(begin, end) per axis by TensorFlow's rule"""
    out = []
    for i in range(len(S)):
        s, k, q, d, o = zi(S[i]), zi(K[i]), zi(st[i]), zi(dil[i]), zi(O[i])
        if pad == 'VALID':
            out.append((z3.IntVal(0), z3.IntVal(0)))
        elif pad == 'EXPLICIT':
            out.append((zi(E[2 * i]), zi(E[2 * i + 1])))
        else:
            t = (o - 1) * q + d * (k - 1) + 1 - s
            t = z3.If(t > 0, t, 0)
            out.append((t / 2, t - t / 2))
    return out

def post(kind, sp):
    def post(a, r, old):
        yield 'does not raise', r.exc is None
        if r.exc is not None:
            return
        from pyvc.denote import Sem, T, same
        from pyvc.symenv import VAL
        st = r.value
        g = st['g']
        seen = []
        OUT = z3.Function('OUT', *([z3.IntSort()] * (sp + 2)), VAL)
        nchw_out = [zi(a.N), zi(st['Mout'])] + [zi(o) for o in st['O']]
        def op(sem, n, ins):
            seen.append((n, ins))
            return T(nchw_out, lambda ix: OUT(*ix))
        env = {'x:0': T(st['xs'], lambda ix: st['X'](*ix))}
        if st['wvar']:
            env[st['wvar']] = T(st['ws'], lambda ix: st['W'](*ix))
        if st['xconst']:
            del env['x:0']
        kinds = {'conv': 'Conv', 'dw': 'Conv', 'maxpool': 'MaxPool', 'avgpool': 'AveragePool', 'convt': 'ConvTranspose'}
        sem = Sem(g, env, a.opset, {kinds[kind]: op})
        res = sem.get('graph_out_node:0')
        yield 'exactly one %s is emitted' % kinds[kind], len(seen) == 1
        n, ins = seen[0]
        N, C, M, S, K, O = zi(a.N), zi(chan(a)), zi(st['Mout']), [zi(v) for v in st['S']], [zi(v) for v in st['K']], [zi(v) for v in st['O']]
        # data operand
        want = T([N, C] + S, lambda ix: st['X'](*(list(ix) if st['first'] else [ix[0]] + list(ix[2:]) + [ix[1]])))
        for nm, c in same('data operand', ins[0], want):
            yield nm, SBool(c)
        if 'pool' not in kind:
            if kind == 'conv':
                ci = zi(a.CI) if 'CI' in a else C
                ww = T([M, ci] + K, lambda ix: st['W'](*(list(ix[2:]) + [ix[1], ix[0]])))
            elif kind == 'convt':
                ww = T([C, zi(a.M)] + K, lambda ix: st['W'](*(list(ix[2:]) + [ix[1], ix[0]])))
            if kind != 'dw':
                for nm, c in same('kernel operand', ins[1], ww):
                    yield nm, SBool(c)
            else:
                # kernel (k.., c, q) must arrive at output channel c*Q+q, input channel 0 of its group
                Q = zi(a.M)
                c, q = z3.Int('c!'), z3.Int('q!')
                ks = [z3.Int('k!%d' % i) for i in range(sp)]
                rng = z3.And(c >= 0, c < C, q >= 0, q < Q, *[z3.And(v >= 0, v < k) for v, k in zip(ks, K)])
                yield 'kernel operand: rank', ins[1].rank == sp + 2
                euclid(c, q, Q)
                if ins[1].rank == sp + 2:
                    yield 'kernel operand: shape', SBool(z3.And(ins[1].shape[0] == C * Q, ins[1].shape[1] == 1, *[x == k for x, k in zip(ins[1].shape[2:], K)]))
                    yield 'kernel operand: element at every index', SBool(z3.Implies(rng, ins[1].at([c * Q + q, z3.IntVal(0)] + ks) == st['W'](*(ks + [c, q]))))
        for nm, c in sem.side:
            yield nm, SBool(c)
        for nm, c in recorded_shapes(g, sem.env):
            yield nm, c
        # attributes
        def ints(name, default):
            at = n.get_attr(name)
            v = list(at.ints) if at is not None else list(default)
            return [zi(x) for x in v]
        def eqs(x, y):
            return SBool(z3.And([z3.BoolVal(len(x) == len(y))] + [p == q for p, q in zip(x, y)]))
        yield 'strides', eqs(ints('strides', [1] * sp), [zi(v) for v in st['st']])
        yield 'dilations', eqs(ints('dilations', [1] * sp), [zi(v) for v in st['dil']])
        yield 'kernel_shape', eqs(ints('kernel_shape', [] if 'pool' in kind else K), K)
        grp = n.get_attr('group')
        grp = zi(grp.i) if grp is not None else z3.IntVal(1)
        if kind == 'conv' and 'CI' in a:
            euclid(zi(a.G), z3.IntVal(0), zi(a.CI))
            yield 'group', SBool(grp * zi(a.CI) == C)
        elif kind != 'maxpool':
            yield 'group', SBool(grp == (C if kind == 'dw' else z3.IntVal(1)))
        ap = n.get_attr('auto_pad')
        ap = ap.s if ap is not None else b'NOTSET'
        if kind == 'avgpool':
            cip = n.get_attr('count_include_pad')
            yield 'padding is not averaged', cip is None or cip.i == 0
        if kind != 'maxpool' or True:
            cm = n.get_attr('ceil_mode')
            yield 'sizes round down', cm is None or cm.i == 0
        pads = ints('pads', [0] * (2 * sp))
        if kind == 'convt':
            if st['unk']:
                yield 'unknown size: the output size is stated', eqs(ints('output_shape', []), O)
                yield 'unknown size: the smaller half of the padding comes first', ap == b'SAME_UPPER'
            else:
                yield 'explicit padding', ap == b'NOTSET' and n.get_attr('output_shape') is None
                yield 'two pads per axis', len(pads) == 2 * sp
                tp = tf_pads(a.pad, O, K, st['st'], st['dil'], S, None)
                for i in range(min(sp, len(pads) // 2)):
                    yield 'padding in front, axis %d' % i, SBool(pads[i] == tp[i][0])
                    full_ = zi(st['st'][i]) * (S[i] - 1) + (K[i] - 1) * zi(st['dil'][i]) + 1
                    yield 'output size, axis %d' % i, SBool(full_ - pads[i] - pads[i + sp] == O[i])
        elif a.pad == 'SAME' and st['unk']:
            yield 'unknown size: SAME_UPPER and no explicit pads', ap == b'SAME_UPPER' and n.get_attr('pads') is None
        else:
            yield 'no auto_pad', ap == b'NOTSET' or ap == b'VALID' and a.pad == 'VALID'
            yield 'two pads per axis', len(pads) == 2 * sp
            tp = tf_pads(a.pad, S, K, st['st'], st['dil'], O, list(a.E) if a.pad == 'EXPLICIT' else None)
            for i in range(min(sp, len(pads) // 2)):
                yield 'padding in front, axis %d' % i, SBool(pads[i] == tp[i][0])
                yield 'padding behind, axis %d' % i, SBool(pads[i + sp] == tp[i][1])
        # result
        back = T(st['os'], lambda ix: OUT(*(list(ix) if st['first'] else [ix[0], ix[-1]] + list(ix[1:-1]))))
        for nm, c in same('result', res, back):
            yield nm, SBool(c)
    return post

def recorded_shapes(g, env):
    for name, t in sorted(env.items()):
        sh = g.get_shape(name)
        if sh is None or name == '':
            continue
        yield 'recorded shape: rank', len(sh) == t.rank
        if len(sh) == t.rank:
            yield 'recorded shape: dimensions', SBool(z3.And([z3.BoolVal(True)] + [z3.Or(zi(d) == -1, zi(d) == e) for d, e in zip(sh, t.shape)]))

def pre(kind):
    def pre(a):
        cs = []
        S, K, st, O = list(a.S), list(a.K), list(a.st), list(a.O)
        dil = list(a.dil) if 'dil' in a else [1] * len(S)
        for i in range(len(S)):
            if kind == 'convt':
                # O is the forward input, S the forward output
                if a.pad == 'SAME':
                    cs.append(And((S[i] - 1) * st[i] < O[i], O[i] <= S[i] * st[i]))
                else:
                    full_ = (S[i] - 1) * st[i] + (K[i] - 1) * dil[i] + 1
                    cs.append(And(full_ <= O[i], O[i] < full_ + st[i]))
                cs.append(O[i] >= S[i])
            elif a.pad == 'SAME':
                cs.append(And((O[i] - 1) * st[i] < S[i], S[i] <= O[i] * st[i]))
        return And(*cs)
    return pre

def contracts():
    M = 'tf2onnx.onnx_opset.nn:'
    out = []
    FM = {2: ('NHWC', 'NCHW'), 3: ('NDHWC', 'NCDHW')}
    def add(name, fn, kind, sp, **extra):
        p = dict(opset=OneOf([7, 11, 13, 18]), fmt=OneOf(FM[sp]), pad=OneOf(['SAME', 'VALID']), N=Int(lo=1), C=Int(lo=1), M=Int(lo=1),
                 S=dims(sp), K=dims(sp), st=dims(sp), O=dims(sp))
        if 'pool' not in kind:
            p['dil'] = dims(sp)
            p['constw'] = OneOf([True, False])
        p.update(extra)
        c = Contract(name, M + fn, p, post(kind, sp), pre(kind), modes=('sized',), covers=('returned',), call=run(kind, sp), timeout=15000)
        c.no_concrete, c.kind, c.sp = True, kind, sp
        c.limit = 400
        out.append(c)
    E2 = ListOf(Int(lo=0), minlen=4, maxlen=4, unbounded=False)
    for sp in (2, 3):
        add('conv%dd' % sp, 'ConvOp.version_1', 'conv', sp)
        add('conv%dd-unknown-size' % sp, 'ConvOp.version_1', 'conv', sp, unk=Const(True))
        add('conv%dd-transposed' % sp, 'ConvTranspose.version_1', 'convt', sp)
        add('conv%dd-transposed-unknown-size' % sp, 'ConvTranspose.version_1', 'convt', sp, unk=Const(True), opset=OneOf([11, 18]))
        for k in ('maxpool', 'avgpool'):
            add('%s%dd' % (k, sp), 'PoolOp._convert', k, sp)
            add('%s%dd-unknown-size' % (k, sp), 'PoolOp._convert', k, sp, unk=Const(True))
    add('conv2d-explicit', 'ConvOp.version_1', 'conv', 2, pad=Const('EXPLICIT'), E=E2)
    add('conv2d-groups', 'ConvOp.version_1', 'conv', 2, CI=Int(lo=1), G=Int(lo=1), C=Const(0))
    add('conv2d-const-data', 'ConvOp.version_1', 'conv', 2, constx=Const(True), constw=Const(False), opset=OneOf([11, 18]))
    add('depthwise', 'DepthwiseConv2d.version_1', 'dw', 2)
    add('depthwise-unknown-size', 'DepthwiseConv2d.version_1', 'dw', 2, unk=Const(True))
    return out

def replay(cn, args):
    """run the counter-model end to end against the numpy definition"""
    from pyvc.net import run_case
    from props import C02net
    con = next(c for c in contracts() if c.name == cn)
    c = C02net.from_model(con.kind, con.sp, args)
    if c is None:
        return None
    st, txt = run_case(c)
    return '%s  [%s]' % (txt, c.desc) if st == 'bad' else None

def bounded(tier, seed, shard, nshards, R):
    from pyvc.net import run_net
    from props import C02net
    rng = np.random.RandomState(seed * 1000 + shard)
    run_net(R, C02net.cases(rng, tier), limit=1500 if tier == 'quick' else 12000)
