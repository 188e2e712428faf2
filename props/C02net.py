"""generated convolution and pooling models for C02"""
import numpy as np, tensorflow as tf
from pyvc import tfrun as T, nnref
from pyvc.net import Case
nn, raw = tf.nn, tf.raw_ops

def last(p, a): return np.ascontiguousarray(np.moveaxis(a, 1, -1)) if p else a
def cases(rng, tier):
    pick = lambda *a: a[rng.randint(len(a))]
    while True:
        kind = pick('conv', 'conv', 'conv', 'dw', 'dw', 'maxpool', 'avgpool', 'convt', 'conv3', 'convt3', 'maxpool3', 'avgpool3', 'groups', 'conv1', 'pad+conv', 'atrous', 'maxpoolv2', 'convt-dyn')
        opset = pick(7, 8, 9, 10, 11, 12, 13, 15, 17, 18)
        opt = bool(pick(0, 0, 1))
        sp = 3 if kind.endswith('3') else 2
        B, S, C = pick(1, 2, 3), [rng.randint(1, 10) for _ in range(sp)], pick(1, 2, 3, 4)
        K, st = [rng.randint(1, 6) for _ in range(sp)], [rng.randint(1, 5) for _ in range(sp)]
        dil = [rng.randint(1, 4) for _ in range(sp)] if pick(0, 1) else [1] * sp
        if kind == 'conv3':
            dil = [dil[0]] * 3       # TensorFlow's own shape inference mixes up unequal 3-D dilations
        pool = 'pool' in kind
        if pool or 'convt' in kind or kind in ('conv1',):
            dil = [1] * sp
        if kind == 'dw':
            st = [st[0]] * 2
        pad = pick('SAME', 'SAME', 'VALID')
        if kind in ('conv', 'groups') and pick(0, 0, 1):
            pad = [[rng.randint(0, 4), rng.randint(0, 4)] for _ in range(sp)]
        first = bool(pick(0, 0, 1)) and kind in ('conv', 'conv3', 'dw', 'maxpool', 'avgpool', 'convt', 'maxpool3', 'avgpool3', 'convt3', 'groups')
        unk, constk, constx = pick(0, 0, 1), pick(0, 1), pick(0, 0, 0, 1)
        M = pick(1, 2, 3)
        if kind == 'groups':
            grp = pick(2, 3)
            ci = pick(1, 2)
            C, M = ci * grp, M * grp
        desc = dict(kind=kind, B=B, S=S, C=C, M=M, K=K, st=st, dil=dil, pad=pad, channels_first=first, unknown_dims=unk, const_kernel=constk, const_input=constx)
        eff = [(k - 1) * d + 1 for k, d in zip(K, dil)]
        fmt = {2: ('NHWC', 'NCHW'), 3: ('NDHWC', 'NCDHW')}[sp][first]
        full = lambda v: [1, 1] + v if first else [1] + v + [1]
        if 'convt' in kind:
            O = [rng.randint((i - 1) * s + 1, i * s + 1) if pad == 'SAME' else rng.randint((i - 1) * s + e, i * s + e) for i, s, e in zip(S, st, eff)]
            if kind == 'convt-dyn':
                # the workaround for a run-time output size needs opset 12 and a non-negative crop of both borders
                if opset < 12 or pad == 'VALID':
                    continue
                unk = 0
            if any(o < i for o, i in zip(O, S)):
                continue     # outside what the converter supports (it refuses)
            w = T.data(rng, K + [M, C], 'float32')
            x = T.data(rng, [B] + S + [C], 'float32')
            want = nnref.conv_transpose(x, w, O, st, dil, pad)
            oshape = [B, M] + O if first else [B] + O + [M]
            op = raw.Conv2DBackpropInput if sp == 2 else raw.Conv3DBackpropInputV2
            k = 'input_sizes'
            desc['out'] = O
            if kind == 'convt-dyn':
                fn = lambda x, w, o: op(input_sizes=o, filter=w, out_backprop=x, strides=full(st), padding=pad, data_format=fmt, dilations=full(dil))
            else:
                fn = lambda x, w: op(input_sizes=oshape, filter=w, out_backprop=x, strides=full(st), padding=pad, data_format=fmt, dilations=full(dil))
        else:
            if pad != 'SAME':
                q = [(0, 0)] * sp if pad == 'VALID' else pad
                if any(n + l + h < e for n, (l, h), e in zip(S, q, eff)):
                    continue         # empty result
            if unk and pad == 'SAME' and (any(d > 1 for d in dil) or any(s > e for s, e in zip(st, eff))):
                continue             # deferred to ONNX auto_pad, which onnxruntime refuses / rounds differently here
            x = T.data(rng, [B] + S + [C], 'float32')
            if pool:
                want = (nnref.maxpool if 'max' in kind else nnref.avgpool)(x, K, st, pad)
                if kind == 'maxpoolv2':
                    fn = lambda x: raw.MaxPoolV2(input=x, ksize=[1] + K + [1], strides=[1] + st + [1], padding=pad)
                else:
                    op = {'maxpool': raw.MaxPool, 'avgpool': raw.AvgPool, 'maxpool3': raw.MaxPool3D, 'avgpool3': raw.AvgPool3D}[kind]
                    fn = lambda x: op(**{'value' if kind == 'avgpool' else 'input': x}, ksize=full(K), strides=full(st), padding=pad, data_format=fmt)
            elif kind == 'dw':
                w = T.data(rng, K + [C, M], 'float32')
                want = nnref.depthwise(x, w, st, dil, pad)
                fn = lambda x, w: raw.DepthwiseConv2dNative(input=x, filter=w, strides=full(st), padding=pad, dilations=full(dil), data_format=fmt)
            else:
                ci = C // grp if kind == 'groups' else C
                w = T.data(rng, K + [ci, M], 'float32')
                want = nnref.conv(x, w, st, dil, pad)
                if kind == 'conv1':
                    unk = 0
                    x, w, want = None, None, None
                    x = T.data(rng, [B, S[0], C], 'float32')
                    w = T.data(rng, [K[0], C, M], 'float32')
                    p2 = pad
                    want = nnref.conv(x[:, :, None], w[:, None], [st[0], 1], [1, 1], pad)[:, :, 0]
                    fn = lambda x, w: nn.conv1d(x, w, st[0], pad)
                elif kind == 'atrous':
                    # space_to_batch / batch_to_space around an undilated convolution
                    st = [1, 1]
                    constk = unk = 0
                    d0 = rng.randint(2, 4)
                    eff = [(k - 1) * d0 + 1 for k in K]
                    if pad != 'SAME' and any(n < e for n, e in zip(S, eff)):
                        continue
                    desc.update(dil=[d0, d0], st=st)
                    want = nnref.conv(x, w, st, [d0, d0], pad)
                    fn = lambda x, w: nn.atrous_conv2d(x, w, d0, pad)
                    if opset < 11:
                        continue
                elif kind == 'pad+conv':
                    pp = [[rng.randint(0, 3), rng.randint(0, 3)] for _ in range(sp)]
                    desc['pads'] = pp
                    xp = np.pad(x, [(0, 0)] + pp + [(0, 0)])
                    if pad == 'VALID' and any(n < e for n, e in zip(xp.shape[1:3], eff)):
                        continue
                    if unk and pad == 'SAME':
                        continue
                    want = nnref.conv(xp, w, st, dil, pad)
                    fn = lambda x, w: nn.conv2d(tf.pad(x, [[0, 0]] + pp + [[0, 0]]), w, st, pad, dilations=dil)
                else:
                    padarg = dict(padding=pad) if isinstance(pad, str) else dict(
                        padding='EXPLICIT', explicit_paddings=([0, 0, 0, 0] if first else [0, 0]) + [v for p in pad for v in p] + ([] if first else [0, 0]))
                    op = raw.Conv2D if sp == 2 else raw.Conv3D
                    fn = lambda x, w: op(input=x, filter=w, strides=full(st), dilations=full(dil), data_format=fmt, **padarg)
        if first:
            x, want = np.moveaxis(x, -1, 1), np.moveaxis(want, -1, 1)
            x, want = np.ascontiguousarray(x), np.ascontiguousarray(want)
        xs = list(x.shape)
        if unk:
            xs = [None] + [None if s == C and False else s for s in xs[1:]]
            ax = range(2, 2 + sp) if first else range(1, 1 + sp)
            for a in ax:
                xs[a] = None
        elif pick(0, 1) and 'dyn' not in kind:
            xs[0] = None
        specs, feeds, args = [], [], []
        def arg(a, shape, const):
            args.append(None if not const else a)
            if not const:
                specs.append((shape, str(a.dtype)))
                feeds.append(a)
        two = not pool
        arg(x, xs, bool(constx) and two and not constk and kind != 'convt-dyn')
        if two:
            arg(w, list(w.shape), constk)
        if kind == 'convt-dyn':
            arg(np.array(oshape, np.int32), [4], False)
        def wrap(*ph, args=args, fn=fn):
            it = iter(ph)
            return fn(*[next(it) if a is None else tf.constant(a) for a in args])
        if not feeds:
            continue
        yield Case('net:' + kind, wrap, specs, feeds, opset, want=[want], optimize=opt, desc=repr(desc))

def from_model(kind, sp, a):
    """the model a counter-model of the contracts describes (None when it cannot be built)"""
    rng = np.random.RandomState(0)
    first = a['fmt'].startswith('NC')
    S, K, st, O, pad = list(a['S']), list(a['K']), list(a['st']), list(a['O']), a['pad']
    dil = list(a.get('dil') or [1] * sp)
    N, M = a['N'], a['M']
    C = a['G'] * a['CI'] if 'G' in a else a['C']
    ci = a.get('CI') or C
    unk, constw, constx = bool(a.get('unk')), a.get('constw', False), a.get('constx', False)
    if max([N, C, M] + S + K + O + dil + st) > 4000 or N * C * M * int(np.prod(S)) * int(np.prod(K)) > 3e6 or int(np.prod(O)) * M > 1e6:
        return None
    q = pad if isinstance(pad, str) and pad != 'EXPLICIT' else [(a['E'][2 * i], a['E'][2 * i + 1]) for i in range(sp)]
    if unk and q == 'SAME' and kind != 'convt' and (any(d > 1 for d in dil) or any(s > (k - 1) * d + 1 for s, k, d in zip(st, K, dil))):
        return None
    if kind != 'convt' and q != 'SAME' and any(g[0] < 1 for g in nnref.geom(S, K, st, dil, q)):
        return None
    full = lambda v: [1, 1] + v if first else [1] + v + [1]
    x = T.data(rng, [N] + S + [C], 'float32')
    w = None
    kw = dict(strides=full(st), data_format=a['fmt'], padding=pad)
    if 'pool' in kind:
        want = (nnref.maxpool if kind == 'maxpool' else nnref.avgpool)(x, K, st, q)
        op = {('maxpool', 2): raw.MaxPool, ('avgpool', 2): raw.AvgPool, ('maxpool', 3): raw.MaxPool3D, ('avgpool', 3): raw.AvgPool3D}[kind, sp]
        fn = lambda x: op(**{'value' if (kind, sp) == ('avgpool', 2) else 'input': x}, ksize=full(K), **kw)
    elif kind == 'convt':
        w = T.data(rng, K + [M, C], 'float32')
        want = nnref.conv_transpose(x, w, O, st, dil, q)
        osz = [N, M] + O if first else [N] + O + [M]
        op = raw.Conv2DBackpropInput if sp == 2 else raw.Conv3DBackpropInputV2
        fn = lambda x, w: op(input_sizes=osz, filter=w, out_backprop=x, dilations=full(dil), **kw)
    elif kind == 'dw':
        w = T.data(rng, K + [C, M], 'float32')
        want = nnref.depthwise(x, w, st, dil, q)
        fn = lambda x, w: raw.DepthwiseConv2dNative(input=x, filter=w, dilations=full(dil), **kw)
    else:
        w = T.data(rng, K + [ci, M], 'float32')
        want = nnref.conv(x, w, st, dil, q)
        if pad == 'EXPLICIT':
            e = list(a['E'])
            kw['explicit_paddings'] = [0] * 4 + e if first else [0, 0] + e + [0, 0]
        op = raw.Conv2D if sp == 2 else raw.Conv3D
        fn = lambda x, w: op(input=x, filter=w, dilations=full(dil), **kw)
    if first:
        x, want = np.ascontiguousarray(np.moveaxis(x, -1, 1)), np.ascontiguousarray(np.moveaxis(want, -1, 1))
    xs = list(x.shape)
    if unk:
        for k in (range(2, 2 + sp) if first else range(1, 1 + sp)):
            xs[k] = None
    ops = [x] + ([] if w is None else [w])
    consts = [constx] + ([] if w is None else [constw])
    specs = [(xs if k == 0 else list(v.shape), 'float32') for k, v in enumerate(ops) if not consts[k]]
    feeds = [v for k, v in enumerate(ops) if not consts[k]]
    def wrap(*ph):
        it = iter(ph)
        return fn(*[tf.constant(v) if c else next(it) for v, c in zip(ops, consts)])
    return Case('model:' + kind, wrap, specs, feeds, a['opset'], want=[want], desc=repr(a))
