"""C07 bounded net: random ONNX graphs around transposes, before and after the transpose optimizer, run by onnxruntime."""
import time, traceback
import numpy as np
from pyvc import onnxgen as G
from pyvc import tfrun as T

OPSETS = [7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18]

def gen(seed):
    rng = np.random.RandomState(seed)
    opset = OPSETS[rng.randint(len(OPSETS))]
    g = G.Gen(rng, opset)
    r = int(rng.choice([4, 4, 4, 5, 3]))
    dims = [int(d) for d in rng.choice([1, 2, 3, 4, 5], r)]
    if rng.rand() < 0.7:
        dims = [int(d) for d in (rng.permutation(5)[:r] + 1)]
    while np.prod(dims) > 200:
        dims[rng.randint(r)] = 1
    unk = float(rng.choice([0, 0, 0.4, 1]))
    x = g.input(dims, unknown=unk)
    if rng.rand() < 0.4:
        g.input(dims, unknown=unk)
    if rng.rand() < 0.2:
        g.input([d if rng.rand() < 0.5 else 1 for d in dims], unknown=unk)
    ops = [g.unary, g.binary, g.binary, g.concat, g.softmax, g.reduce, g.arg, g.squeeze, g.unsqueeze, g.pad, g.slice, g.split, g.tile, g.shape, g.prelu, g.twin]
    if r == 4: ops.append(g.conv)
    if opset >= 10: ops.append(g.qdq)
    if opset >= 7: ops.append(g.where_if)
    cur = x
    for _ in range(int(rng.randint(2, 9))):
        ok = [n for n, (t, d) in g.v.items() if d == G.F and len(t) >= 1 and np.prod(t) <= 600]
        q = rng.rand()
        if q < 0.25 or cur not in ok:
            cur = ok[rng.randint(len(ok))]
        q = rng.rand()
        if q < 0.3:
            cur = g.transpose(cur)
        elif q < 0.42:
            cur = g.inv(cur)
        else:
            cur = ops[rng.randint(len(ops))](cur)
    if rng.rand() < 0.5 and len(g.v[cur][0]) > 1:
        cur = g.inv(cur)
    made = [n for n, (t, d) in g.v.items() if n not in g.feeds]
    if not made:
        cur = g.transpose(x); made = [cur]
    used = {i for n in g.nodes for i in n.input}
    outs = [n for n in made if n not in used]
    if rng.rand() < 0.25:
        outs = list(dict.fromkeys(outs + [made[rng.randint(len(made))]]))
    return g, g.model(outs)

def run_ref(m, feeds):
    from onnx.reference import ReferenceEvaluator
    try:
        with np.errstate(all='ignore'):
            return ReferenceEvaluator(m).run(None, feeds)
    except Exception as e:
        raise T.NoRun(str(e))
def check(g, m, names, ref=False):
    """-> (status, text).  ref: the onnx reference evaluator instead of onnxruntime"""
    execute = run_ref if ref else T.run_onnx
    try:
        want = execute(m, g.feeds)
    except T.NoRun as e:
        return 'skip', str(e)[:200]
    if not all(np.isfinite(w).all() for w in want):
        return 'skip', 'overflow'
    try:
        m2 = G.optimize(m, names)
    except Exception as e:
        return 'raise', 'the optimizer raises %s: %s | %s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-300:])     # the driver skips the pass
    if [o.name for o in m2.graph.output] != [o.name for o in m.graph.output] or {i.name for i in m2.graph.input} - {i.name for i in m2.graph.initializer} != set(g.feeds) & {i.name for i in m2.graph.input} :
        return 'bad', 'inputs or outputs of the model changed'
    try:
        got = execute(m2, {i.name: g.feeds[i.name] for i in m2.graph.input if i.name in g.feeds})
    except T.NoRun as e:
        return 'bad', 'the optimized model does not run: %s' % str(e)[:300]
    r = differs(want, got)
    return ('bad', r) if r else ('ok', '')

def differs(want, got):
    for k, (a, b) in enumerate(zip(want, got)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return 'output %d is %s%s after the pass, %s%s before' % (k, b.dtype, b.shape, a.dtype, a.shape)
        with np.errstate(all='ignore'):
            if a.dtype.kind == 'f':
                fin = np.isfinite(a)
                ok = np.array_equal(fin, np.isfinite(b)) and np.allclose(a[fin], b[fin], rtol=2e-3, atol=2e-3)
            else:
                ok = np.array_equal(a, b)
        if not ok:
            return 'output %d differs: %s after the pass, %s before' % (k, b.ravel()[:8].tolist(), a.ravel()[:8].tolist())
    return None

def describe(m):
    s = []
    for n in m.graph.node:
        if n.op_type == 'Constant': continue
        s.append('%s(%s)->%s%s' % (n.op_type, ','.join(n.input), ','.join(n.output), ''.join(' %s=%s' % (a.name, list(a.ints) or a.i) for a in n.attribute if a.name not in ('then_branch', 'else_branch', 'value'))))
    ins = ['%s%s' % (i.name, [d.dim_value or d.dim_param for d in i.type.tensor_type.shape.dim]) for i in m.graph.input]
    cs = ['%s%s' % (i.name, list(i.dims)) for i in m.graph.initializer]
    return 'inputs %s; consts %s; %s; outputs %s' % (' '.join(ins), ' '.join(cs), '; '.join(s), [o.name for o in m.graph.output])

def run(R, seed, shard, nshards, n, names=('optimize_transpose',), tag='net'):
    for k in range(n):
        if k % nshards != shard or time.time() > R.deadline or R.full():
            continue
        sd = (seed * 1000003 + k) % (2 ** 32)
        try:
            g, m = gen(sd)
        except Exception as e:
            R.count('models_not_generated')
            continue
        st, txt = check(g, m, list(names) if names else None)
        R.count('models_' + dict(ok='agree', skip='skipped', bad='disagree')[st] if st != 'raise' else 'models_raised')
        if st == 'bad':
            R.violation('%s:%s' % (tag, ' '.join(w for w in txt.split()[:5] if not any(c.isdigit() for c in w))), '%s | %s' % (txt, describe(m)), seed=sd)
    R.flush()
