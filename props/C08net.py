"""C08 bounded net: the contracts' patterns with concrete dimensions, random graphs under all passes, einsum decompositions; run before and after by onnxruntime (casts and quantization: onnx reference)."""
import copy, itertools, random, time
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from pyvc import onnxgen as G, optreplay as OR
from pyvc.contract import A, Dom
from props import C07net

def directed(R, cons, passes, seed, shard, nshards, n, known=()):
    """every contract's graphs with random cases"""
    for i, c in enumerate(cons):
        if i % nshards != shard: continue
        rng = random.Random(seed * 7919 + i)
        doms = {p: d.enum() for p, d in c.params.items()}
        r = c.params['D'].r
        done = tries = 0
        name = passes[c.fn.split(':')[0].split('.')[-1]]
        while done < n and tries < 30 * n and time.time() < R.deadline and not R.full():
            tries += 1
            a = A({p: copy.deepcopy(rng.choice(v)) for p, v in doms.items()})
            a['D'] = [rng.choice([1, 2, 2, 3, 4]) for _ in range(r)] if rng.random() < .5 else rng.sample([1, 2, 3, 4, 5, 6][:max(r, 4)], r)
            for k in 'MNK':
                if k in a: a[k] = rng.choice([1, 2, 3])
            try:
                if c.pre is not None and not bool(c.pre(a)): continue
                s = c.build(a)
                if any(e[0].startswith('Random') for e in s['nodes']): continue
            except Exception:
                continue
            done += 1
            try:
                r2 = OR.model(c.build, a, seed + done)
            except Exception as e:
                R.count('models_not_generated'); continue
            if r2 is None:
                R.count('models_not_generated'); continue
            m, feeds = r2
            gg = type('G', (), {})(); gg.feeds = feeds
            ref = any(x.op_type == 'Cast' for x in m.graph.node)
            st, txt = C07net.check(gg, m, [name] if rng.random() < .7 else None, ref=ref)
            if st == 'skip' and not ref:
                st, txt = C07net.check(gg, m, [name], ref=True)
            R.count('models_' + dict(ok='agree', skip='skipped', bad='disagree', **{'raise': 'raised'})[st])
            if st == 'bad':
                R.violation('directed:%s:%s' % (c.name, ' '.join(w for w in txt.split()[:5] if not any(ch.isdigit() for ch in w))), '%s | case %s | %s' % (txt, {k: v for k, v in a.items() if not k.startswith('_')}, C07net.describe(m)))
    R.flush()

# ------------------------------------------------------------------ random graphs
class G8(G.Gen):
    def dup(self, x):
        """the same operator twice"""
        k = len(self.nodes)
        self.ch([self.unary, self.transpose, self.reduce, self.reshape, self.slice])(x)
        if len(self.nodes) == k: return x
        n = self.nodes[-1]
        m = onnx.NodeProto.FromString(n.SerializeToString())
        m.name = self.nm('n')
        outs = [self.nm() if o else '' for o in n.output]
        del m.output[:]; m.output.extend(outs)
        self.nodes.append(m)
        for o, p in zip(n.output, outs):
            if o: self.v[p] = self.v[o]
        a, b = n.output[0], outs[0]
        if self.v[a][1] != TP.FLOAT or not self.v[a][0]: return a
        return self.add('Sub' if self.p(.3) else 'Add', [a, b])
    def cast(self, x):
        t = self.ch([TP.DOUBLE, TP.FLOAT])
        y = self.add('Cast', [x], to=t); self.v[y] = (self.v[x][0], t)
        if self.p(.4):
            y = self.add('Identity', [y]); self.v[y] = (self.v[x][0], t)
        return self.add('Cast', [y], to=TP.FLOAT)
    def ident(self, x):
        return self.add('Identity', [x])
    def fold(self, x):
        """constants that can be folded"""
        s = self.v[x][0]
        c = self.const(self.fvals(s[::-1]))
        self.v[c] = (tuple(s[::-1]), TP.FLOAT)
        k = self.rng.randint(5)
        if k == 0:
            c = self.add('Transpose', [c], shapes=[s])
        elif k == 1:
            c = self.add('Reshape', [c, self.iconst(list(s))], shapes=[s])
        elif k == 2:
            c = self.add('Cast', [c], to=TP.DOUBLE); c = self.add('Cast', [c], to=TP.FLOAT); c = self.add('Transpose', [c], shapes=[s])
        elif k == 3:
            c2 = self.const(self.fvals(s)); self.v[c2] = (tuple(s), TP.FLOAT)
            c = self.add('Add', [c2, self.add('Transpose', [c], shapes=[s])], shapes=[s])
        else:
            c = self.add('Concat', [self.add('Transpose', [c], shapes=[s])], axis=0, shapes=[s])
        return self.add('Add', [x, c])
    def squeezes(self, x):
        s = list(self.v[x][0])
        k = self.rng.randint(len(s) + 1)
        ax = [k]
        if self.opset >= 13:
            u = self.add('Unsqueeze', [x, self.iconst(ax)], shapes=[s[:k] + [1] + s[k:]])
        else:
            u = self.add('Unsqueeze', [x], axes=ax, shapes=[s[:k] + [1] + s[k:]])
        if self.opset >= 13: return self.add('Squeeze', [u, self.iconst(ax)], shapes=[s])
        return self.add('Squeeze', [u], axes=ax, shapes=[s])
    def computed(self, x):
        """a reshape whose shape is computed from the shape of x"""
        s = self.v[x][0]
        if len(s) < 2: return x
        sh = self.add('Shape', [x], shapes=[[len(s)]], dtypes=[TP.INT64])
        parts, keep = [], list(self.rng.permutation(len(s)))
        for k in keep:
            g = self.add('Gather', [sh, self.const(np.array([k], np.int64))], shapes=[[1]], dtypes=[TP.INT64], axis=0)
            parts.append(g)
        out = [s[k] for k in keep]
        if self.p(.5):
            k = self.rng.randint(len(parts)); parts[k] = self.const(np.array([-1], np.int64))
        elif self.p(.5):
            m = self.add('Mul', parts[:2], shapes=[[1]], dtypes=[TP.INT64]); parts = [m] + parts[2:]; out = [out[0] * out[1]] + out[2:]
        c = self.add('Concat', parts, shapes=[[len(parts)]], dtypes=[TP.INT64], axis=0)
        return self.add('Reshape', [x, c], shapes=[out])
    def pool(self, x):
        s = self.v[x][0]
        if len(s) < 3: return x
        ax = list(range(2, len(s))) if self.p(.7) else [len(s) - 1]
        out = [1 if k in ax else d for k, d in enumerate(s)]
        op = self.ch(['ReduceMean', 'ReduceMax'])
        if self.opset >= 18: return self.add(op, [x, self.iconst(ax)], shapes=[out], keepdims=1)
        return self.add(op, [x], shapes=[out], axes=ax, keepdims=1)
    def ein(self, x):
        s = self.v[x][0]
        if not 1 <= len(s) <= 3 or self.opset < 12 or len(set(s)) < 1: return x
        l = 'abcd'[:len(s)]
        c = self.const(self.fvals([s[-1], 2])); self.v[c] = ((s[-1], 2), TP.FLOAT)
        return self.add('Einsum', [x, c], shapes=[list(s[:-1]) + [2]], equation='%s,%sz->%sz' % (l, l[-1], l[:-1]))
def gen(seed):
    rng = np.random.RandomState(seed)
    opset = C07net.OPSETS[rng.randint(len(C07net.OPSETS))]
    g = G8(rng, opset)
    r = int(rng.choice([4, 3, 2, 1]))
    dims = [int(d) for d in rng.choice([1, 2, 3, 4, 5], r)]
    while np.prod(dims) > 200: dims[rng.randint(r)] = 1
    x = g.input(dims, unknown=float(rng.choice([0, 0, 0.4, 1])))
    if rng.rand() < .4: g.input(dims)
    ops = [g.dup, g.dup, g.ident, g.cast, g.fold, g.squeezes, g.computed, g.pool, g.unary, g.binary, g.transpose, g.inv, g.reshape, g.concat, g.slice, g.split, g.reduce, g.unsqueeze, g.twin, g.ein]
    if opset >= 10: ops.append(g.qdq)
    if r == 4: ops.append(g.conv)
    if opset >= 7: ops.append(g.where_if)
    cur = x
    for _ in range(int(rng.randint(2, 10))):
        ok = [n for n, (t, d) in g.v.items() if d == G.F and len(t) >= 1 and np.prod(t) <= 600]
        if rng.rand() < 0.3 or cur not in ok: cur = ok[rng.randint(len(ok))]
        cur = ops[rng.randint(len(ops))](cur)
    made = [n for n, (t, d) in g.v.items() if n not in g.feeds and any(n in q.output for q in g.nodes)]
    if not made:
        made = [g.ident(x)]
    used = {i for n in g.nodes for i in n.input}
    outs = [n for n in made if n not in used] or [made[-1]]
    if rng.rand() < 0.35: outs = list(dict.fromkeys(outs + [made[rng.randint(len(made))]]))
    return g, g.model(outs)
def random_nets(R, seed, shard, nshards, n):
    for k in range(n):
        if k % nshards != shard or time.time() > R.deadline or R.full(): continue
        sd = (seed * 1000033 + k) % 2 ** 32
        try:
            g, m = gen(sd)
        except Exception:
            R.count('models_not_generated'); continue
        st, txt = C07net.check(g, m, None)
        if st == 'bad' and len({x.op_type for x in m.graph.node} & {'Cast', 'QuantizeLinear'}):
            s2, t2 = C07net.check(g, m, None, ref=True)      # onnxruntime's own cast fusions change results
            if s2 == 'ok': st = 'skip'
        R.count('models_' + dict(ok='agree', skip='skipped', bad='disagree', **{'raise': 'raised'})[st])
        if st == 'bad':
            R.violation('net:%s' % ' '.join(w for w in txt.split()[:5] if not any(c.isdigit() for c in w)), '%s | %s' % (txt, C07net.describe(m)), seed=sd)
    R.flush()

# ------------------------------------------------------------------ einsum
def equations(limit, seed, nops=(1, 2, 3)):
    rng = random.Random(seed)
    seen = set()
    while len(seen) < limit:
        k = rng.choice((1, 2, 2, 2, 3))
        terms = []
        for _ in range(k):
            terms.append(''.join((lambda n: rng.sample('abcde'[:n], min(n, rng.choice([0, 1, 2, 2, 3]))))(rng.choice([2, 3, 4]))) if rng.random() < .97 else 'a')
        letters = sorted(set(''.join(terms)))
        if not letters: continue
        out = rng.sample(letters, rng.randint(0 if rng.random() < .1 else 1, min(4, len(letters))))
        eq = ','.join(terms) + '->' + ''.join(out)
        if eq in seen:
            limit -= 0.05; continue
        seen.add(eq)
        yield eq
def einsums(R, seed, shard, nshards, n):
    for k, eq in enumerate(equations(n, seed)):
        if k % nshards != shard or time.time() > R.deadline or R.full(): continue
        rng = np.random.RandomState(k)
        left, out = eq.split('->')
        dim = dict(zip('abcde', rng.permutation([2, 3, 4, 5, 1])))
        feeds, ins = {}, []
        for j, t in enumerate(left.split(',')):
            d = [int(dim[c]) for c in t]
            ins.append(helper.make_tensor_value_info('x%d' % j, TP.FLOAT, d if rng.rand() < .6 else ['q%d%d' % (j, i) for i in range(len(d))]))
            feeds['x%d' % j] = (rng.randint(-4, 5, d) / 2).astype(np.float32)
        opset = int(rng.choice([12, 13, 15, 18]))
        nodes = [helper.make_node('Einsum', list(feeds), ['e'], name='ein', equation=eq)]
        outs = ['e']
        if rng.rand() < .6:
            nodes.append(helper.make_node('Neg', ['e'], ['y'], name='neg')); outs = ['y'] if rng.rand() < .6 else ['y', 'e']
        m = helper.make_model(helper.make_graph(nodes, 'g', ins, [helper.make_tensor_value_info(o, TP.FLOAT, [int(dim[c]) for c in out]) for o in outs]), opset_imports=[helper.make_opsetid('', opset)], ir_version=8)
        gg = type('G', (), {})(); gg.feeds = feeds
        st, txt = C07net.check(gg, m, ['einsum_optimizer'])
        R.count('einsum_' + dict(ok='agree', skip='skipped', bad='disagree', **{'raise': 'raised'})[st])
        if st == 'bad':
            R.violation('einsum:%s' % ' '.join(w for w in txt.split()[:5] if not any(c.isdigit() for c in w)), '%s | einsum %s with %s' % (txt, eq, dim))
    R.flush()

# ------------------------------------------------------------------ casts that round
def lossy_casts(R, shard):
    """casting through a floating type that does not hold every value: the pass drops the first cast"""
    if shard: return
    for t0, t1, v in ((TP.INT64, TP.FLOAT16, 2049), (TP.INT64, TP.FLOAT, 16777217), (TP.INT32, TP.FLOAT16, 2049), (TP.INT32, TP.FLOAT, 16777217), (TP.FLOAT, TP.FLOAT16, 1.0009765625 + 2 ** -12), (TP.DOUBLE, TP.FLOAT, 1 + 2.0 ** -30)):
        dt = helper.tensor_dtype_to_np_dtype(t0)
        m = helper.make_model(helper.make_graph([helper.make_node('Cast', ['x'], ['m'], name='c1', to=t1), helper.make_node('Cast', ['m'], ['y'], name='c2', to=t0)], 'g',
            [helper.make_tensor_value_info('x', t0, [1])], [helper.make_tensor_value_info('y', t0, [1])]), opset_imports=[helper.make_opsetid('', 13)], ir_version=7)
        gg = type('G', (), {})(); gg.feeds = {'x': np.array([v], dt)}
        want = C07net.run_ref(m, gg.feeds)
        got = C07net.run_ref(G.optimize(m, ['remove_back_to_back']), gg.feeds)
        R.count('casts')
        if not np.array_equal(want[0], got[0]):
            n = lambda t: TP.DataType.Name(t).lower()
            R.violation('lossy-cast:%s-%s-%s' % (n(t0), n(t1), n(t0)), '%s cast to %s and back gives %r, %r after remove_back_to_back' % (v, n(t1), want[0].tolist(), got[0].tolist()))
    R.flush()
