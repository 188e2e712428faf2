"""the contracts' cases with concrete numbers: built as TensorFlow graphs, converted end to end, run with onnxruntime, compared with TensorFlow itself"""
import numpy as np, tensorflow as tf
from tensorflow.python.framework import op_def_library, op_def_registry
from pyvc.contract import A, Const, OneOf, Bool
from pyvc.net import Case

def tft(t):
    """tensorflow type of an onnx element type"""
    from onnx import helper
    return tf.as_dtype(helper.tensor_dtype_to_np_dtype(int(t)))

def apply(op, ins, attrs):
    """one TensorFlow operator; list inputs take as many tensors as their count attribute says"""
    od = op_def_registry.get(op)
    names = {a.name: a for a in od.attr}
    kw, k = {}, 0
    for arg in od.input_arg:
        if arg.type_list_attr:
            n = int(attrs['num_args'])
            kw[arg.name] = ins[k:k + n]; k += n
        elif arg.number_attr == 'num_host_args': kw[arg.name] = []
        elif arg.number_attr:
            n = int(attrs.get(arg.number_attr, len(ins) - (len(od.input_arg) - 1)))
            kw[arg.name] = ins[k:k + n]; k += n
        else:
            kw[arg.name] = ins[k]; k += 1
    used = {arg.number_attr for arg in od.input_arg}
    inferred = {arg.type_attr for arg in od.input_arg}
    if op.startswith('_'): kw['name'] = 'fused'
    for a, v in attrs.items():
        if a not in names or a in used or a in inferred: continue
        ty = names[a].type
        kw[a] = tft(v) if ty == 'type' else bool(v) if ty == 'bool' else v
    for a, d in names.items():
        if a not in kw and a not in used and a not in inferred and d.HasField('default_value') and d.type != 'type': kw[a] = None
    return op_def_library.apply_op(op, **kw)

def content(rng, dims, t):
    n = int(np.prod(dims))
    dt = tft(t).as_numpy_dtype
    if np.dtype(dt).kind == 'b': return np.asarray(rng.rand(*dims) > 0.5)
    if np.dtype(dt).kind == 'f': return np.asarray((rng.permutation(n).reshape(dims) - n // 2) * 0.5, dt)
    return np.asarray(rng.permutation(n).reshape(dims) - n // 2, dt)

HARD = {'Equal', 'NotEqual', 'Less', 'LessEqual', 'Greater', 'GreaterEqual', 'Maximum', 'Minimum', 'Neg', 'Abs', 'Sign', 'Relu', 'IsNan', 'IsInf', 'IsFinite', 'BitwiseAnd', 'BitwiseOr', 'BitwiseXor', 'Invert', 'LeftShift', 'RightShift', 'Relu6'}
def hard(rng, v):
    """numbers a narrower type, another sign or another rounding treats differently"""
    if v.dtype.kind == 'f':
        e = float(np.finfo(v.dtype).eps)
        pool = [0.0, 1.0, -1.0, 1 + e, 1 - e, -1 - e, 0.5, 2.0, -2.0, 3.0, 1e4, -1e4] + ([1 + 1e-10, 1e300, 2e300, -1e300] if v.dtype.itemsize == 8 else []) + ([1e30, -1e30] if v.dtype.itemsize >= 4 else [])
    elif v.dtype.kind in 'iu':
        i = np.iinfo(v.dtype)
        pool = [q for q in [0, 1, 2, 3, 5, 100, -1, -2, -100, i.max, i.max - 1, i.min, i.min + 1, 2 ** 7, -2 ** 7 - 1, 2 ** 15, -2 ** 15 - 1, 2 ** 24 + 1, 2 ** 24, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 5, -2 ** 32 + 1, 2 ** 33 + 1, 2 ** 53 + 1, 2 ** 53] if i.min <= q <= i.max]
    else: return v
    return np.array([pool[rng.randint(len(pool))] for _ in range(v.size)], v.dtype).reshape(v.shape)

def case(k, a, key, rng, opset, optimize=False, want=None, refuse=False, tol=1e-4, always=False):
    """K with concrete numbers -> Case, or None when it is not a TensorFlow graph"""
    specs, feeds, plan = [], [], []
    if getattr(k, 'skip_net', None): return None
    dt0 = a.get('dt', 1)
    for j, e in enumerate(k.ins):
        kind = e[0]
        if kind == '=': plan.append(('=', e[1])); continue
        if kind in 'xk':
            dims = [int(d) for d in e[1]]
            if any(d < 0 for d in dims) or int(np.prod(dims)) > 20000: return None
            v = content(rng, dims, e[2] if len(e) > 2 else dt0)
            if getattr(k, 'th', None) == 'fp' and k.op in HARD and not (opset < 8 and a.get('known') == 'none') and (always or rng.randint(2)): v = hard(rng, v)
            if j in getattr(k, 'conc', {}): v = np.asarray(k.conc[j](rng, v), v.dtype)
            elif k.op == 'Cast' and int(k.attrs.get('DstT', 1)) in (2, 4, 12, 13) and v.dtype.kind == 'f': v = np.abs(v)
            elif getattr(k, 'th', None) and v.dtype.kind == 'f': v = np.asarray(v * rng.choice([0.5, 1, 1, 2, 5]), v.dtype)
            if getattr(k, 'special', None) and kind == 'x' and (len(e) == 2 or getattr(k, 'th', None)) and v.dtype.kind == 'f' and rng.randint(3) == 0:
                v = np.where(rng.rand(*v.shape) < 0.3, np.asarray([np.inf, -np.inf, np.nan], v.dtype)[rng.randint(3)], v) if v.size else v
        elif kind == 'i':
            dims, b = [int(d) for d in e[1]], int(e[2])
            lo = int(e[4]) if len(e) > 4 else 0
            if any(d < 0 for d in dims) or int(np.prod(dims)) > 20000 or b <= lo: return None
            v = np.asarray(rng.randint(lo, b, dims), tft(e[3] if len(e) > 3 else 6).as_numpy_dtype)
            if j in getattr(k, 'conc', {}): v = np.asarray(k.conc[j](rng), v.dtype)
        elif kind in 'cr': v = np.array(e[1], np.dtype(e[2] if len(e) > 2 else np.int32))
        elif kind == 'v': v = np.array(e[1], tft(dt0).as_numpy_dtype)
        if kind in 'ckv': plan.append(('c', v))
        else:
            sh = list(v.shape)
            known = a.get('known', 'all')
            if kind in 'xi' and known == 'rank': sh = [None] * len(sh)
            elif kind in 'xi' and known == 'some': sh = [None if rng.randint(2) else d for d in sh]
            plan.append(('p', len(specs)))
            specs.append((sh, tf.as_dtype(v.dtype))); feeds.append(v)
            if kind in 'xi' and known == 'none':
                # a placeholder of unknown rank is read as a scalar (documented): the rank is lost by a reshape to a run-time shape instead
                plan[-1] = ('u', len(specs) - 1)
                specs.append(([None], tf.int32)); feeds.append(np.array(v.shape, np.int32))
    def fn(*ps):
        ts = []
        for kind, v in plan: ts.append(tf.constant(v) if kind == 'c' else tf.reshape(ps[v], ps[v + 1]) if kind == 'u' else ps[v] if kind == 'p' else ts[v])
        r = apply(k.op, ts, k.attrs)
        return r[0] if getattr(k, 'more', None) else r
    must = k.must if not callable(k.must) else k.must(a)
    known = a.get('known', 'all')
    d = '%s(%s) attrs %r opset %d shapes %r feeds %r' % (k.op, ', '.join(e[0] if kd in 'pu' else '%s=%s' % (e[0], np.asarray(v).tolist() if kd == 'c' else v) for (kd, v), e in zip(plan, k.ins)), k.attrs, opset, [s for s, _ in specs], [f.tolist() for f in feeds])
    return Case(key, fn, specs, feeds, opset, want=want, optimize=optimize, desc=d[:900], may_refuse=refuse or not must or known == 'none', tol=tol if dt0 != 10 else 4e-3, unimplemented=bool(getattr(k, 'th', None)))

def sample(c, rng):
    a = {}
    for n, d in c.params.items():
        if isinstance(d, Const): a[n] = d.v
        elif isinstance(d, OneOf): a[n] = d.vals[rng.randint(len(d.vals))]
        elif isinstance(d, Bool): a[n] = bool(rng.randint(2))
        elif d.lo is not None: a[n] = [int(d.lo + rng.randint(4)) for _ in range(d.n)]
        else: a[n] = [int(rng.randint(-5, 6)) for _ in range(d.n)]
    return A(a)

def cases(rng, tier, contracts, extra=()):
    # every contract in turn, the ones checked here alone more often
    cs = []
    for k, c in enumerate(contracts): cs += [c] + ([extra[(k // 3) % len(extra)]] if extra and k % 3 == 0 else [])
    i = rng.randint(len(cs))
    while True:
        c = cs[i % len(cs)]
        i += 1
        for _ in range(60):
            a = sample(c, rng)
            if 'C' in a: a['C'] = [abs(v) % 3 for v in a['C']]
            if 'P' in a: a['P'] = [abs(v) % 3 for v in a['P']]
            try: ok = bool(c.pre(a))
            except Exception: ok = False
            if ok: break
        else: continue
        r = rng.randint(8)
        if r == 0: a['known'] = 'some'
        elif r == 1: a['known'] = 'none'
        if 'opset' in c.params and not isinstance(c.params['opset'], Const) and rng.randint(3) == 0:
            lo = min(c.params['opset'].vals)
            a['opset'] = lo + rng.randint(19 - lo)
        k = c.build(a)
        q = case(k, a, 'net:' + c.name, rng, a.opset, bool(rng.randint(3) == 0))
        if q is not None: yield q
