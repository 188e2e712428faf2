"""the rewriters' patterns with concrete numbers: TensorFlow graphs converted end to end, run with onnxruntime, compared with TensorFlow"""
import numpy as np, tensorflow as tf
from pyvc.z3load import z3
from pyvc.symenv import zint
from pyvc.contract import A, OneOf, Const
from pyvc.net import Case
from props import C15net as N, C13

# patterns that are left alone and have operators no handler takes
REFUSE = ('transpose:identity',)
class Skip(Exception): pass
def num(d):
    if isinstance(d, (int, np.integer)): return int(d)
    return int(z3.simplify(zint(d)).as_long())
class Shape:
    def __init__(self, dims): self.shape = [z3.IntVal(d) for d in dims]
    @property
    def rank(self): return len(self.shape)
class PN:
    """the builder of a pattern, making a TensorFlow graph"""
    def __init__(self, a, flat=False):
        self.a, self.plan, self.hyp, self.tg, self.t = a, [], [], tf.Graph(), {}
        self.g, self.sem = self, self
        self.outputs = []
    def new(self): return 'r%d' % len(self.plan)
    def put(self, entry, make):
        r = self.new()
        try:
            with self.tg.as_default(): self.t[r] = make()
        except Exception as e: raise Skip(str(e))
        self.plan.append((r,) + entry)
        return r
    def x(self, dims, dt=1, known=None):
        dims = [num(d) for d in dims]
        if any(d < 0 for d in dims) or int(np.prod(dims)) > 20000: raise Skip('size')
        return self.put(('x', dims, dt), lambda: tf.compat.v1.placeholder(N.tft(dt), dims))
    def k(self, dims, dt=1):
        dims = [num(d) for d in dims]
        if int(np.prod(dims)) > 20000: raise Skip('size')
        return self.put(('k', dims, dt), lambda: tf.compat.v1.placeholder(N.tft(dt), dims))
    def c(self, value, npdt=np.float32):
        def f(v): return [f(q) for q in v] if isinstance(v, (list, tuple)) else v if isinstance(v, (float, np.ndarray, int)) else num(v)
        v = np.array(f(value), npdt)
        return self.put(('c', v), lambda: tf.constant(v))
    def op(self, type, ins, attrs=None, name=None):
        at = dict(attrs or {})
        if 'to' in at: at['DstT'] = at.pop('to')
        return self.put(('op', type, list(ins), at), lambda: self.first(N.apply(type, [self.t[i] for i in ins], at)))
    @staticmethod
    def first(r): return r[0] if isinstance(r, (list, tuple)) else r
    def get(self, ref):
        s = self.t[ref].shape
        if s.rank is None or any(d is None for d in s.as_list()):
            return Shape([1])
        return Shape(s.as_list())
    def out(self, ref): self.outputs.append(ref)

def case(c, a, rng, optimize=False):
    C13.P = PN
    try: p = c.build(a)
    except Skip: return None
    finally: C13.P = C13.W.P
    if p.hyp and not z3.is_true(z3.simplify(z3.And(*p.hyp))): return None
    specs, feeds, at = [], [], {}
    known = a.get('known', 'all')
    # onnxruntime does not run a dilated convolution that pads by itself
    if known == 'some' and a.get('padding', None) == 'SAME' and a.get('d', (1, 1)) != (1, 1): known = 'all'
    for e in p.plan:
        r, kind = e[:2]
        if kind in 'xk':
            v = N.content(rng, e[2], e[3])
            if v.dtype.kind == 'f': v = np.asarray(v * rng.choice([0.5, 1, 1, 0.25]), v.dtype)
            if kind == 'k': at[r] = ('c', v); continue
            sh = list(v.shape)
            if known == 'rank': sh = [None] * len(sh)
            elif known == 'some': sh = [None if rng.randint(2) else d for d in sh]
            at[r] = ('p', len(specs))
            specs.append((sh, tf.as_dtype(v.dtype))); feeds.append(v)
            if known == 'none':
                at[r] = ('u', len(specs) - 1)
                specs.append(([None], tf.int32)); feeds.append(np.array(v.shape, np.int32))
    def fn(*ps):
        t = {}
        for e in p.plan:
            r, kind = e[:2]
            if kind == 'c': t[r] = tf.constant(e[2])
            elif kind == 'op': t[r] = PN.first(N.apply(e[2], [t[i] for i in e[3]], e[4]))
            else:
                w, v = at[r]
                t[r] = tf.constant(v) if w == 'c' else ps[v] if w == 'p' else tf.reshape(ps[v], ps[v + 1])
        return [t[o] for o in p.outputs]
    half = any(e[1] in 'xk' and e[3] == 10 for e in p.plan)
    d = '%s: %s, %s' % (c.name, ', '.join('%s=%r' % (k, v) for k, v in sorted(a.items()) if not k.startswith('_')), ' '.join('%s(%s)' % (e[2], ','.join(e[3])) for e in p.plan if e[1] == 'op'))
    return Case('net:' + c.name, fn, specs, feeds, a.opset, optimize=optimize, desc=d[:900], may_refuse=known != 'all' or a.opset < 11 or c.name in REFUSE, tol=4e-3 if half else 1e-4, unimplemented=True)

def cases(rng, tier, contracts):
    i = rng.randint(len(contracts))
    while True:
        c = contracts[i % len(contracts)]
        i += 1
        for _ in range(60):
            a = N.sample(c, rng)
            for k in 'pce':
                if isinstance(a.get(k), list): a[k] = [abs(v) % 3 for v in a[k]]
            if len(a.get('D', [])) >= 7:
                a['D'] = list(a['D'])
                for q, w in ((1, 6), (2, 6)): a['D'][q] = 1 + rng.randint(8)
            try:
                if not c.pre(a): continue
            except Exception: continue
            r = rng.randint(10)
            if r == 0: a['known'] = 'some'
            elif r == 1 and 'none' in c.params['known'].vals: a['known'] = 'none'
            if rng.randint(3) == 0: a['opset'] = 7 + rng.randint(12)
            q = case(c, a, rng, bool(rng.randint(3) == 0))
            if q is not None:
                yield q
                break
