"""Random ONNX models with known concrete input shapes, and the comparison of a model before and after a pass."""
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP

F, I64, U8 = TP.FLOAT, TP.INT64, TP.UINT8
UN = ['Abs', 'Neg', 'Relu', 'Sigmoid', 'Tanh', 'Exp', 'LeakyRelu', 'Elu', 'Selu', 'Softplus', 'Erf', 'Reciprocal', 'Identity', 'Clip']
RED = ['ReduceMax', 'ReduceMin', 'ReduceMean', 'ReduceSum', 'ReduceProd', 'ReduceSumSquare', 'ReduceLogSumExp']

class Gen:
    def __init__(self, rng, opset):
        self.rng, self.opset = rng, opset
        self.nodes, self.inits, self.inputs, self.feeds = [], [], [], {}
        self.v = {}               # name -> (shape, dtype) of data tensors
        self.n = 0
        self.scope = None
        self.consts = []          # names of shareable float constants (name, array)
    def nm(self, p='t'):
        self.n += 1
        return '%s%d' % (p, self.n)
    def ch(self, l):
        return l[self.rng.randint(len(l))]
    def p(self, q): return self.rng.rand() < q
    def input(self, shape, dtype=F, unknown=0.0):
        n = self.nm('x')
        dims = ['d%s%d' % (n, k) if self.p(unknown) else int(d) for k, d in enumerate(shape)]
        self.inputs.append(helper.make_tensor_value_info(n, dtype, dims))
        k = int(np.prod(shape))
        if dtype == F:
            self.feeds[n] = ((self.rng.permutation(k) - k // 2) / 4.0).reshape(shape).astype(np.float32)
        else:
            self.feeds[n] = self.rng.randint(0, 5, shape).astype(np.int64)
        self.v[n] = (tuple(shape), dtype)
        return n
    def const(self, arr, node=None):
        arr = np.ascontiguousarray(arr)
        n = self.nm('c')
        if node if node is not None else self.p(0.3):
            self.nodes.append(helper.make_node('Constant', [], [n], name=self.nm('n'), value=numpy_helper.from_array(arr, n)))
        else:
            self.inits.append(numpy_helper.from_array(arr, n))
        return n
    def ints(self, l): return self.const(np.array(l, np.int64))
    def add(self, op, ins, nout=1, shapes=None, dtypes=None, **attr):
        outs = [self.nm() for _ in range(nout)]
        self.nodes.append(helper.make_node(op, list(ins), outs, name=self.nm('n'), **{k: v for k, v in attr.items() if v is not None}))
        shapes = shapes or [self.v[ins[0]][0]] * nout
        for o, s in zip(outs, shapes):
            self.v[o] = (tuple(int(d) for d in s), (dtypes or [F])[0])
        return outs[0] if nout == 1 else outs
    # ---- operators.  each takes a float tensor and returns a tensor
    def fvals(self, arr_shape):
        k = int(np.prod(arr_shape))
        return ((self.rng.permutation(k) + 1) / 8.0).reshape(arr_shape).astype(np.float32)
    def transpose(self, x, perm=None):
        s = self.v[x][0]
        r = len(s)
        if perm is None:
            q = self.rng.rand()
            std = {4: [[0, 2, 3, 1], [0, 3, 1, 2]], 5: [[0, 2, 3, 4, 1], [0, 4, 1, 2, 3]]}.get(r)
            perm = self.ch(std) if std and q < 0.8 else [int(k) for k in self.rng.permutation(r)]
        return self.add('Transpose', [x], shapes=[[s[k] for k in perm]], perm=[int(k) for k in perm])
    def inv(self, x):
        """undo a previous transpose of the same tensor when there is one"""
        for n in self.nodes:
            if n.op_type == 'Transpose' and len(n.attribute):
                p = list(n.attribute[0].ints)
                if len(p) == len(self.v[x][0]) and self.p(0.6):
                    i = [0] * len(p)
                    for a, b in enumerate(p): i[b] = a
                    return self.transpose(x, i)
        return self.transpose(x)
    def unary(self, x):
        op = self.ch(UN)
        kw = {}
        ins = [x]
        if op in ('LeakyRelu', 'Elu', 'Selu') and self.p(0.5): kw['alpha'] = 0.5
        if op == 'Clip':
            if self.opset < 11:
                kw = dict(min=-1.0, max=2.0)
            elif self.opset == 11 or self.p(0.5):
                ins += [self.const(np.float32(-1)), self.const(np.float32(2))]
            else:
                ins += ['', self.const(np.float32(2))]
        return self.add(op, ins, **kw)
    def bshape(self, s):
        """a shape that broadcasts into s"""
        k = self.rng.randint(0, len(s) + 1)
        t = list(s[len(s) - k:])
        return [1 if self.p(0.45) else d for d in t]
    def bconst(self, s):
        if self.consts and self.p(0.25):
            for n, a in self.consts:
                try:
                    if np.broadcast_shapes(a.shape, s) == tuple(s):
                        return n
                except ValueError:
                    pass
        a = self.fvals(self.bshape(s))
        n = self.const(a)
        self.consts.append((n, a))
        return n
    def other(self, s, dtype=F):
        c = []
        for n, (t, d) in self.v.items():
            try:
                if d == dtype and np.broadcast_shapes(t, s):
                    c.append(n)
            except ValueError:
                pass
        return self.ch(c) if c else None
    def binary(self, x):
        s = self.v[x][0]
        op = self.ch(['Add', 'Mul', 'Sub', 'Max', 'Min', 'Sum', 'Div', 'Add', 'Mul', 'Sum'])
        k = 2
        if op in ('Max', 'Min', 'Sum'): k = self.ch([1, 2, 2, 3])
        ins = [x]
        for _ in range(k - 1):
            o = self.other(s) if self.p(0.6) and op != 'Div' else None
            ins.append(o or self.bconst(s))
            s = np.broadcast_shapes(s, self.v[ins[-1]][0]) if ins[-1] in self.v else s
        if op != 'Div' and self.p(0.4):
            ins = ins[::-1]
        return self.add(op, ins, shapes=[s])
    def twin(self, x):
        """both inputs transposed alike"""
        s = self.v[x][0]
        same = [n for n, (t, d) in self.v.items() if t == s and d == F]
        y = self.ch(same)
        a = self.transpose(x)
        perm = list(self.nodes[-1].attribute[0].ints)
        b = self.transpose(y, perm)
        if self.p(0.25):
            ax = self.rng.randint(len(s))
            sh = list(self.v[a][0]); sh[ax] *= 2
            return self.add('Concat', [a, b], shapes=[sh], axis=int(ax) - (len(s) if self.p(0.2) and self.opset >= 11 else 0))
        ins = [a, b]
        op = self.ch(['Add', 'Mul', 'Sub', 'Max', 'Min', 'Sum'])
        if op in ('Max', 'Min', 'Sum') and self.p(0.4):
            c = self.const(self.fvals([1 if self.p(0.4) else d for d in self.v[a][0]]) if self.p(0.7) else self.fvals(self.bshape(self.v[a][0])))
            ins.append(c)
        if self.p(0.3): ins = ins[::-1]
        return self.add(op, ins, shapes=[self.v[a][0]])
    def axis(self, r, neg=True):
        a = int(self.rng.randint(r))
        return a - r if neg and self.opset >= 11 and self.p(0.3) else a
    def concat(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        ax = self.axis(r)
        ins = [x]
        c = [n for n, (t, d) in self.v.items() if d == F and len(t) == r and all(p == q or k == ax % r for k, (p, q) in enumerate(zip(s, t)))]
        for _ in range(self.ch([1, 1, 2])):
            if self.p(0.6):
                ins.append(self.ch(c))
            else:
                t = list(s); t[ax % r] = self.ch([1, 2])
                n = self.const(self.fvals(t)); ins.append(n)
                self.cs = getattr(self, 'cs', {}); self.cs[n] = tuple(t)
        if self.p(0.3): ins = ins[::-1]
        sh = list(s)
        sh[ax % r] = sum((self.v[n][0] if n in self.v else self.cs[n])[ax % r] for n in ins)
        return self.add('Concat', ins, shapes=[sh], axis=ax)
    def softmax(self, x):
        r = len(self.v[x][0])
        if r == 0: return x
        kw = {} if self.p(0.2) else dict(axis=self.axis(r, True))
        if not kw and self.opset < 13 and r < 2: kw = dict(axis=0)
        return self.add(self.ch(['Softmax', 'LogSoftmax']), [x], **kw)
    def reduce(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        op = self.ch(RED)
        axes = sorted(self.rng.choice(r, self.rng.randint(1, r + 1), replace=False).tolist())
        if self.p(0.3): self.rng.shuffle(axes)
        ax = [a - r if self.opset >= 11 and self.p(0.25) else a for a in axes]
        if op == 'ReduceProd' and np.prod([s[a] for a in axes]) > 6: op = 'ReduceMax'        # no overflow
        kd = self.ch([None, 0, 1])
        sh = [1 if k in axes else d for k, d in enumerate(s)] if kd != 0 else [d for k, d in enumerate(s) if k not in axes]
        if self.opset >= 18 or (op == 'ReduceSum' and self.opset >= 13):
            return self.add(op, [x, self.iconst(ax)], shapes=[sh], keepdims=kd)
        if self.p(0.1):
            return self.add(op, [x], shapes=[[1] * r if kd != 0 else []], keepdims=kd)
        return self.add(op, [x], shapes=[sh], keepdims=kd, axes=ax)
    def iconst(self, l):
        l = [int(v) for v in l]
        self.ic = getattr(self, 'ic', {})
        if tuple(l) in self.ic and self.p(0.4):
            return self.ic[tuple(l)]
        self.ic[tuple(l)] = n = self.ints(l)
        return n
    def arg(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        ax = self.axis(r)
        kd = self.ch([None, 0, 1])
        sh = [1 if k == ax % r else d for k, d in enumerate(s)] if kd != 0 else [d for k, d in enumerate(s) if k != ax % r]
        kw = {} if ax == 0 and self.p(0.5) else dict(axis=ax)
        y = self.add(self.ch(['ArgMax', 'ArgMin']), [x], shapes=[sh], dtypes=[I64], keepdims=kd, **kw)
        return self.add('Cast', [y], to=F)
    def squeeze(self, x):
        s = self.v[x][0]
        ones = [k for k, d in enumerate(s) if d == 1]
        if not ones: return self.unsqueeze(x)
        axes = sorted(self.rng.choice(ones, self.rng.randint(1, len(ones) + 1), replace=False).tolist())
        sh = [d for k, d in enumerate(s) if k not in axes]
        if self.opset >= 13 and self.p(0.3): self.rng.shuffle(axes)
        ax = [a - len(s) if self.opset >= 11 and self.p(0.3) else a for a in axes]
        if self.opset >= 13:
            if len(axes) == len(ones) and self.p(0.15):
                return self.add('Squeeze', [x], shapes=[sh])
            return self.add('Squeeze', [x, self.iconst(ax)], shapes=[sh])
        return self.add('Squeeze', [x], shapes=[sh], axes=ax)
    def unsqueeze(self, x):
        s = self.v[x][0]
        if len(s) > 4: return x
        k = self.ch([1, 1, 2]) if len(s) < 4 else 1
        r = len(s) + k
        axes = sorted(self.rng.choice(r, k, replace=False).tolist())
        sh = [1] * r
        it = iter(s)
        for j in range(r):
            if j not in axes: sh[j] = next(it)
        ax = [a - r if self.opset >= 11 and self.p(0.3) else a for a in axes]
        if self.opset >= 13:
            return self.add('Unsqueeze', [x, self.iconst(ax)], shapes=[sh])
        return self.add('Unsqueeze', [x], shapes=[sh], axes=ax)
    def pad(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        pads = self.rng.randint(0, 3, 2 * r)
        mode = self.ch(['constant', 'constant', 'edge'])
        kw = {} if mode == 'constant' and self.p(0.5) else dict(mode=mode)
        pads = [int(v) for v in pads]
        if self.opset >= 18 and self.p(0.3):
            k = self.rng.randint(1, r + 1)
            axes = [int(a) for a in self.rng.choice(r, k, replace=False)]
            lo, hi = [0] * r, [0] * r
            for j, a in enumerate(axes): lo[a], hi[a] = pads[j], pads[k + j]
            sh = [d + l + h for d, l, h in zip(s, lo, hi)]
            if np.prod(sh) > 3000: return x
            return self.add('Pad', [x, self.iconst(pads[:2 * k]), '', self.iconst(axes)], shapes=[sh], **kw)
        sh = [d + pads[k] + pads[k + r] for k, d in enumerate(s)]
        if np.prod(sh) > 3000: return x
        if self.opset < 11:
            return self.add('Pad', [x], shapes=[sh], pads=pads, value=self.ch([None, 1.5]) if mode == 'constant' else None, **kw)
        if self.p(0.2):
            n = self.nm('x')
            self.inputs.append(helper.make_tensor_value_info(n, I64, [2 * r]))
            self.feeds[n] = np.array(pads, np.int64)
            pn = n
        else:
            pn = self.iconst(pads)
        ins = [x, pn]
        if mode == 'constant' and self.p(0.4): ins.append(self.const(np.float32(1.5)))
        return self.add('Pad', ins, shapes=[sh], **kw)
    def slice(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        k = self.rng.randint(1, r + 1)
        axes = [int(a) for a in self.rng.choice(r, k, replace=False)]
        if self.p(0.2): axes, k = list(range(r)), r
        if self.opset < 11: axes = sorted(axes)           # onnx shape inference of old slices wants them sorted
        st, en, sp, sh = [], [], [], list(s)
        for a in axes:
            b = self.rng.randint(0, s[a])
            e = self.rng.randint(b + 1, s[a] + 1)
            step = 1
            if self.opset >= 10 and self.p(0.2): step = 2
            sh[a] = -(-(e - b) // step)
            st.append(int(b - s[a] if self.p(0.2) else b)); en.append(int(e if e < s[a] or self.p(0.7) else 2**31 - 1)); sp.append(step)
        if self.opset < 10:
            return self.add('Slice', [x], shapes=[sh], starts=st, ends=en, axes=None if axes == list(range(len(axes))) and self.p(0.3) else axes)
        ax = [a - r if self.opset >= 11 and self.p(0.25) else a for a in axes]
        ins = [x, self.iconst(st), self.iconst(en)]
        if axes != list(range(len(axes))) or self.p(0.8) or 2 in sp:
            ins.append(self.const(np.array(ax, np.int32)) if self.p(0.2) and not any(v == 2**31-1 for v in []) and False else self.iconst(ax))
            if 2 in sp or self.p(0.3): ins.append(self.iconst(sp))
        return self.add('Slice', ins, shapes=[sh])
    def split(self, x):
        s = self.v[x][0]
        r = len(s)
        if r == 0: return x
        ax = self.axis(r, True)
        d = s[ax % r]
        if d < 2: return x
        if self.p(0.25):
            parts = [d]
        elif d % 2 == 0 and self.p(0.3):
            parts = [d // 2] * 2
        else:
            c = int(self.rng.randint(1, d))
            parts = [c, d - c]
        shs = []
        for q in parts:
            t = list(s); t[ax % r] = q; shs.append(t)
        kw = {} if ax == 0 and self.p(0.5) else dict(axis=ax)
        ins = [x]
        if self.opset < 13:
            if len(set(parts)) > 1 or self.p(0.5): kw['split'] = parts
        elif len(set(parts)) > 1 or self.p(0.5):
            ins.append(self.iconst(parts))
        elif self.opset >= 18:
            kw['num_outputs'] = len(parts)
        return self.ch([0, -1]) if False else (lambda o: o if isinstance(o, str) else self.ch(o))(self.add('Split', ins, len(parts), shs, **kw))
    def tile(self, x):
        s = self.v[x][0]
        if not s: return x
        rep = [int(v) for v in self.rng.choice([1, 1, 2], len(s))]
        if np.prod(s) * np.prod(rep) > 2000: return x
        return self.add('Tile', [x, self.iconst(rep)], shapes=[[a * b for a, b in zip(s, rep)]])
    def shape(self, x):
        s = self.v[x][0]
        if not s: return x
        y = self.add('Shape', [x], shapes=[[len(s)]], dtypes=[I64])
        return self.add('Cast', [y], to=F)
    def prelu(self, x):
        return self.add('PRelu', [x, self.bconst(self.v[x][0])])
    def qdq(self, x):
        q = self.rng.rand()
        sc, zp = self.const(np.float32(0.25)), self.const(np.uint8(7))
        s = self.v[x][0]
        kw = {}
        if self.opset >= 13 and s and self.p(0.4):
            ax = self.axis(len(s))
            n = s[ax]
            sc, zp = self.const((np.arange(n) + 1).astype(np.float32) / 4), self.const(np.arange(n).astype(np.uint8))
            kw = dict(axis=ax) if ax != 1 or self.p(0.5) else {}
            if not kw: return self.add('DequantizeLinear', [self.add('QuantizeLinear', [x, sc, zp], dtypes=[U8]), sc, zp])
        y = self.add('QuantizeLinear', [x, sc, zp], dtypes=[U8], **kw)
        if self.p(0.4):
            y = self.transpose(y); self.v[y] = (self.v[y][0], U8)
            if kw:
                p = list(self.nodes[-1].attribute[0].ints)
                kw = dict(axis=p.index(kw['axis'] % len(s)))
        return self.add('DequantizeLinear', [y, sc, zp], **kw)
    def conv(self, x):
        """NHWC tensor -> transposed -> Conv -> transposed back, then usually a per-channel constant"""
        s = self.v[x][0]
        if len(s) != 4: return x
        t = self.transpose(x, [0, 3, 1, 2])
        n, c, h, w = self.v[t][0]
        m = self.ch([1, 2, 3, 4])
        kh, kw = self.ch([1, 2]), self.ch([1, 2])
        if h < kh or w < kw: kh = kw = 1
        if getattr(self, 'wts', None) and self.p(0.3):
            for nm, sh in self.wts:
                if sh[1] == c and sh[2] <= h and sh[3] <= w:
                    m, kh, kw, W = sh[0], sh[2], sh[3], nm
                    break
            else:
                W = None
        else:
            W = None
        if W is None:
            W = self.const(self.fvals([m, c, kh, kw]))
            self.wts = getattr(self, 'wts', []) + [(W, (m, c, kh, kw))]
        ins = [t, W]
        if self.p(0.25): ins.append(self.const(self.fvals([m])))
        y = self.add('Conv', ins, shapes=[[n, m, h - kh + 1, w - kw + 1]])
        z = self.transpose(y, [0, 2, 3, 1])
        for _ in range(self.ch([0, 1, 1, 2])):
            sh = self.ch([[m], [1, m], [1, 1, m], [1, 1, 1, m], [], [1], [self.v[z][0][2], m], [self.v[z][0][1], 1, 1], [1, 1, 1, 1, m]])
            c = self.bconst(self.v[z][0]) if self.p(0.2) else self.const(self.fvals(sh))
            op = self.ch(['Add', 'Mul'])
            o = list(np.broadcast_shapes(self.v[z][0], tuple(sh)))
            if len(o) > 4 and self.p(0.7): continue
            z = self.add(op, [z, c] if self.p(0.85) else [c, z], shapes=[o])
            if len(o) > 4: break
        return z
    def where_if(self, x):
        """an If whose branches read tensors of this graph"""
        s = self.v[x][0]
        cands = [n for n, (t, d) in self.v.items() if t == s and d == F]
        y = self.ch(cands)
        b = self.input([], I64)
        c = self.nm()
        self.nodes.append(helper.make_node('Cast', [b], [c], name=self.nm('n'), to=TP.BOOL))
        del self.v[b]
        self.feeds[b] = np.array(self.ch([0, 1]), np.int64)
        def branch(z):
            sub = Gen(self.rng, self.opset)
            sub.n = self.n + 1000
            sub.v = {z: (s, F)}
            cur = z
            for _ in range(self.ch([1, 2, 3])):
                cur = self.ch([sub.transpose, sub.inv, sub.unary, sub.binary])(cur)
            # bring the result to a fixed rank and shape
            o = sub.nm('bo')
            q = sub.add('Flatten' if False else 'ReduceSum', [cur], shapes=[[]], keepdims=0) if self.opset < 13 else sub.add('ReduceSum', [cur], shapes=[[]], keepdims=0)
            sub.nodes.append(helper.make_node('Identity', [q], [o], name=sub.nm('n')))
            self.n = sub.n
            return helper.make_graph(sub.nodes, sub.nm('g'), [], [helper.make_tensor_value_info(o, F, [])], initializer=sub.inits)
        t, e = branch(x), branch(y)
        out = self.nm()
        self.nodes.append(helper.make_node('If', [c], [out], name=self.nm('n'), then_branch=t, else_branch=e))
        self.v[out] = ((), F)
        return out
    def reshape(self, x):
        s = self.v[x][0]
        k = int(np.prod(s))
        opts = [[k], [1, k], [-1, 1]] + ([[s[0], -1], [s[0] * (s[1] if len(s) > 1 else 1)] + list(s[2:]), list(s[:-1]) + [1, s[-1]], [0] * len(s), [1] + list(s)] if s else [])
        t = self.ch(opts)
        o = [s[i] if d == 0 else d for i, d in enumerate(t)]
        if -1 in o:
            q = int(np.prod([d for d in o if d != -1]))
            o = [k // q if d == -1 else d for d in o]
        if len(o) > 5: return x
        return self.add('Reshape', [x, self.iconst(t)], shapes=[o])
    def model(self, outs, vinfo=True):
        outputs = [helper.make_tensor_value_info(o, self.v[o][1], [None] * len(self.v[o][0])) for o in outs]
        # reachability is not required: dead nodes are part of the game
        g = helper.make_graph(self.nodes, 'g', self.inputs, outputs, initializer=self.inits)
        return helper.make_model(g, opset_imports=[helper.make_opsetid('', self.opset)], ir_version={7: 3, 8: 3}.get(self.opset, 8))

def passes(names):
    from collections import OrderedDict
    from tf2onnx import optimizer
    o = optimizer._get_optimizers()
    return OrderedDict((n, o[n]) for n in names) if names else None

def optimize(m, names=None):
    """run passes on a copy of the model; names None: all of them. Errors are not swallowed."""
    from tf2onnx.graph import GraphUtil
    m = onnx.ModelProto.FromString(m.SerializeToString())
    return GraphUtil.optimize_model_proto(m, catch_errors=False, optimizers=passes(names))
