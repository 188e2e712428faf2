"""Run the real Graph / Node / handler code on symbolic attribute values, dimensions and constants.

Only the protobuf layer below it is replaced, in the prove process, by plain doubles (assumed contract of onnx.helper /
onnx.numpy_helper: make_* followed by get_attribute_value / to_array returns what was put in), and ONNX shape inference
by the weaker contract 'knows the element type, may or may not know the shape'.
"""
import logging
import numpy as np
from .z3load import z3
from . import core, hooks
from .core import SInt, SBool, SReal, VList, Unsupported, ctx, zi, I, is_sym

VAL = z3.DeclareSort('TensorElement')
ASSUMED = ['onnx.helper.make_node/make_attribute/get_attribute_value and numpy_helper.from_array/to_array round-trip their arguments',
           'onnx shape inference (infer_onnx_shape_dtype) only supplies element types and ranks it can justify']

def zint(x):
    z = zi(x)
    if z is None:
        raise Unsupported('not an integer: %r' % (x,))
    return z

# ------------------------------------------------------------------ arrays
class SArr(np.ndarray):
    """small array whose elements are symbolic integers; claims the dtype the code gave it"""
    _dt = np.dtype(np.int64)
    _vc_sym = True
    def __new__(cls, data, dt=np.int64):
        a = np.empty(_shape(data), dtype=object)
        _fill(a, data)
        r = a.view(cls)
        r._dt = np.dtype(dt)
        return r
    def __array_finalize__(self, o):
        self._dt = getattr(o, '_dt', np.dtype(np.int64))
    def __array_function__(self, f, types, args, kw):
        r = np.ndarray.__array_function__(self, f, types, args, kw)
        if f.__name__ in ('stack', 'concatenate') and isinstance(r, np.ndarray) and not isinstance(r, SArr):
            r = r.view(SArr)
            r._dt = self._dt
        return r
    @property
    def dtype(self):
        return self._dt
    def __setitem__(self, k, v):
        if self._dt.kind in 'iu' and isinstance(v, float):
            v = int(v)
        np.ndarray.__setitem__(self, k, v)
    def astype(self, dt, **k):
        r = self.copy()
        r._dt = np.dtype(dt)
        if r._dt.kind not in 'iu' and r._dt.kind != 'f':
            raise Unsupported('astype of a symbolic array')
        return r
    def tolist(self):
        if self.ndim == 0:
            return np.ndarray.item(self)
        return VList([np.ndarray.__getitem__(self, k) if self.ndim == 1 else self[k].tolist() for k in range(self.shape[0])])
    def _vc_tolist(self):
        return self.tolist() if self.ndim == 1 else VList([self[k] for k in range(self.shape[0])])
    def _vc_scalar(self):
        return self.reshape(-1).tolist()[0]
    def __reduce__(self):
        raise Unsupported('pickle of symbolic array')
    def __deepcopy__(self, memo):
        return self.copy()
def _shape(d):
    if isinstance(d, np.ndarray):
        return np.ndarray.shape.__get__(d)
    if isinstance(d, (list, tuple)):
        n = len(d)
        return (n,) + (_shape(d[0]) if n else ())
    return ()
def _fill(a, d):
    if a.ndim == 0:
        a[()] = d if not isinstance(d, np.ndarray) else d.item() if not isinstance(d, SArr) else np.ndarray.item(d)
        return
    for i in range(a.shape[0]):
        if a.ndim == 1:
            v = d[i]
            a[i] = v
        else:
            _fill(a[i], d[i])

class OpaqueArr:
    """constant of any (symbolic) shape and arbitrary content: content is an uninterpreted function of the index"""
    _vc_sym = True
    def __init__(self, shape, fn, dt=np.float32):
        self.shape_, self.fn, self._dt = list(shape), fn, np.dtype(dt)
    dtype = property(lambda s: s._dt)
    shape = property(lambda s: tuple(s.shape_))
    ndim = property(lambda s: len(s.shape_))
    size = property(lambda s: _prod(s.shape_))
    def flatten(self): return self if self.ndim == 1 else self.reshape([self.size])
    def _vc_len(self):
        if not self.shape_: raise TypeError('len() of unsized object')
        return self.shape_[0]
    def __len__(self): raise Unsupported('len of an opaque constant')
    def __bool__(self): raise Unsupported('truth of an opaque constant')
    def __getitem__(self, i): raise Unsupported('element of an opaque constant')
    def astype(self, dt):
        if np.dtype(dt) == self._dt:
            return self
        from . import optsem
        src, to, f = _dtype_to_onnx(self._dt), _dtype_to_onnx(np.dtype(dt)), self.fn
        return OpaqueArr(self.shape_, lambda idx: optsem.cast_el(f(idx), src, to), dt)
    __array_ufunc__ = None
    def _real(self, o, op, swap=False):
        """real arithmetic with numpy broadcasting (floating point rounding is not modelled)"""
        from . import denote, optsem
        if isinstance(o, np.ndarray) and not isinstance(o, SArr) and o.ndim == 0: o = float(o)
        if not isinstance(o, (OpaqueArr, int, float, SReal)):
            return NotImplemented
        A = denote.T(self.shape_, lambda i: self.fn(list(i)))
        B = denote.T(o.shape_, lambda i: o.fn(list(i))) if isinstance(o, OpaqueArr) else denote.T([], lambda i: optsem.from_real(optsem.real_const(o)))
        if swap: A, B = B, A
        shp = denote.bshape([A.shape, B.shape])
        return OpaqueArr([_lit(d) for d in shp], lambda idx: optsem.from_real(op(optsem.to_real(denote.bat(A, list(idx), shp)), optsem.to_real(denote.bat(B, list(idx), shp)))), self._dt)
    def __add__(s, o): return s._real(o, lambda p, q: p + q)
    def __radd__(s, o): return s._real(o, lambda p, q: p + q, True)
    def __sub__(s, o): return s._real(o, lambda p, q: p - q)
    def __rsub__(s, o): return s._real(o, lambda p, q: p - q, True)
    def __mul__(s, o): return s._real(o, lambda p, q: p * q)
    def __rmul__(s, o): return s._real(o, lambda p, q: p * q, True)
    def __truediv__(s, o): return s._real(o, lambda p, q: p / q)
    def __rtruediv__(s, o): return s._real(o, lambda p, q: p / q, True)
    def _sqrt(self):
        from . import optsem
        f = self.fn
        return OpaqueArr(self.shape_, lambda idx: optsem.from_real(optsem.sqrt(optsem.to_real(f(idx)))), self._dt)
    def tolist(self): raise Unsupported('tolist of an opaque constant')
    def __deepcopy__(self, memo): return self
    def transpose(self, *p):
        p = p[0] if len(p) == 1 else p
        if p is None or len(p) == 0: p = list(range(self.ndim))[::-1]
        p = [int(k) for k in p]
        if sorted(p) != list(range(self.ndim)):
            raise ValueError('axes don\'t match array')
        f = self.fn
        def g(idx):
            src = [None] * len(p)
            for k, q in enumerate(p):
                src[q] = idx[k]
            return f(src)
        return OpaqueArr([self.shape_[q] for q in p], g, self._dt)
    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 else sh
        sh = list(sh.tolist()) if isinstance(sh, np.ndarray) else list(sh) if isinstance(sh, (list, tuple)) else [sh]
        one = is_one
        ka, kb = [k for k, d in enumerate(self.shape_) if not one(d)], [k for k, d in enumerate(sh) if not one(d)]
        if len(ka) != len(kb) or not all(_equal(self.shape_[p], sh[q]) for p, q in zip(ka, kb)):
            from . import optsem
            A = [zint(d) for d in self.shape_]
            sh = [zint(d) for d in sh]
            zero = lambda ds: any(z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() == 0 for d in ds)
            if zero(A) and zero(sh):
                return OpaqueArr([_lit(d) for d in sh], lambda idx: z3.Const('none', VAL), self._dt)
            neg = [k for k, d in enumerate(sh) if not optsem.positive(d)]
            if neg:
                c = ctx()
                lits = [k for k in neg if z3.is_int_value(z3.simplify(sh[k])) and z3.simplify(sh[k]).as_long() == -1]
                if len(neg) != 1 or neg != lits:
                    raise Unsupported('reshape of an opaque constant')
                sh[neg[0]] = optsem.divide(A, [d for k, d in enumerate(sh) if k != neg[0]])
            if not _equal(optsem.product(A), optsem.product(sh)):
                raise Unsupported('reshape of an opaque constant')
            f = self.fn
            return OpaqueArr([_lit(d) for d in sh], lambda idx: f(optsem.renumber(idx, sh, A)), self._dt)
        f, n = self.fn, self.ndim
        def g(idx):
            src = [z3.IntVal(0)] * n
            for p, q in zip(ka, kb):
                src[p] = idx[q]
            return f(src)
        return OpaqueArr(sh, g, self._dt)
def is_one(d):
    """the dimension is 1 on this path"""
    d = z3.simplify(d if z3.is_expr(d) else zint(d))
    if z3.is_int_value(d):
        return d.as_long() == 1
    c = ctx()
    k = ('one', d.get_id())
    m = c.memo.get(k)                     # a positive answer holds for the rest of the path, a negative one until more is known
    if m is None or not m[0] and m[1] != len(c.pc):
        m = c.memo[k] = (c.check(d != 1) == z3.unsat, len(c.pc), d)
    return m[0]
def _equal(p, q):
    p, q = [z3.simplify(d if z3.is_expr(d) else zint(d)) for d in (p, q)]
    if z3.eq(p, q):
        return True
    return ctx().check(z3.Not(p == q)) == z3.unsat
def _prod(l):
    r = 1
    for x in l:
        r = r * x
    return r

# ------------------------------------------------------------------ protobuf doubles
class FakeTensor:
    def __init__(self, arr, name, data_type):
        self.arr, self.name, self.data_type = arr, name, data_type
        self.dims = VList(list(arr.shape))
    raw_data = property(lambda s: b'' if isinstance(s.arr, (OpaqueArr, SArr)) else np.asarray(s.arr).tobytes())
    def __eq__(self, o): return isinstance(o, FakeTensor) and (self is o or self.arr is o.arr and self.name == o.name and self.data_type == o.data_type)
    __hash__ = None
    def __deepcopy__(self, memo):
        return self
    def HasField(self, f): return False

class _Ints(VList):
    __slots__ = ()

class FakeAttr:
    def __init__(self, name, value, attr_type=None):
        from onnx import AttributeProto as AP
        self.name = name
        self.i, self.f, self.s, self.t, self.g = 0, 0.0, b'', None, None
        self.ints, self.floats, self.strings = VList(), VList(), VList()
        v = value
        if isinstance(v, (bool, SBool)):
            self.type, self.i = AP.INT, (SInt(zi(v)) if isinstance(v, SBool) else int(v))
        elif isinstance(v, SInt) or isinstance(v, (int, np.integer)):
            self.type, self.i = AP.INT, (v if isinstance(v, SInt) else int(v))
        elif isinstance(v, (float, np.floating, SReal)):
            self.type, self.f = AP.FLOAT, v
        elif isinstance(v, str):
            self.type, self.s = AP.STRING, v.encode()
        elif isinstance(v, bytes):
            self.type, self.s = AP.STRING, v
        elif type(v).__name__ == 'TensorProto':
            from onnx import numpy_helper
            a = _real_to_array(v)
            self.type, self.t = AP.TENSOR, FakeTensor(a, v.name, v.data_type)
        elif isinstance(v, FakeTensor):
            self.type, self.t = AP.TENSOR, v
        elif isinstance(v, (list, tuple, np.ndarray, range)):
            l = list(VList.__iter__(v)) if isinstance(v, VList) else list(v)
            if attr_type is not None and not l:
                self.type = attr_type
            elif not l:
                raise ValueError('Could not infer attribute `%s` type from empty iterator' % name)
            elif all(zi(x) is not None for x in l):
                self.type, self.ints = AP.INTS, VList([x if isinstance(x, SInt) else int(x) for x in l])
            elif all(isinstance(x, (int, float, SInt, SReal, np.floating, np.integer)) for x in l):
                self.type, self.floats = AP.FLOATS, VList(l)
            elif all(isinstance(x, (str, bytes)) for x in l):
                self.type, self.strings = AP.STRINGS, VList([x if isinstance(x, bytes) else x.encode() for x in l])
            else:
                raise TypeError('attribute %s' % name)
        else:
            raise Unsupported('attribute value %r' % (v,))
    def _vc_isinstance(self, t):
        from onnx import AttributeProto
        return t is AttributeProto
    def __eq__(self, o):
        if not isinstance(o, FakeAttr) or self.name != o.name or self.type != o.type: return False
        if self.g is not None or o.g is not None: return self.g is o.g
        return bool(self.value() == o.value())
    __hash__ = None
    def HasField(self, f):
        return {'t': self.t is not None, 'g': self.g is not None}.get(f, False)
    def value(self):
        from onnx import AttributeProto as AP
        return {AP.INT: self.i, AP.FLOAT: self.f, AP.STRING: self.s, AP.TENSOR: self.t, AP.INTS: self.ints.copy(),
                AP.FLOATS: self.floats.copy(), AP.STRINGS: self.strings.copy()}[self.type]
    def __deepcopy__(self, memo):
        r = FakeAttr.__new__(FakeAttr)
        r.__dict__.update(self.__dict__)
        return r

class FakeNode:
    def __init__(self, op_type, inputs, outputs, name=None, doc_string=None, domain=None, **kw):
        self.op_type, self.name, self.domain = op_type, name or '', domain or ''
        self.input, self.output = VList(list(inputs)), VList(list(outputs))
        self.attribute = VList([FakeAttr(k, v) for k, v in sorted(kw.items()) if v is not None])
    def __deepcopy__(self, memo):
        r = FakeNode(self.op_type, self.input, self.output, self.name, None, self.domain)
        r.attribute = VList(list(self.attribute))
        return r

def _dtype_to_onnx(dt):
    from onnx import helper
    return helper.np_dtype_to_tensor_dtype(np.dtype(dt))

def install():
    """patch the protobuf layer (prove process only)"""
    import onnx
    from onnx import helper, numpy_helper
    helper.make_node = lambda op_type, inputs, outputs, name=None, doc_string=None, domain=None, **kw: \
        FakeNode(op_type, inputs, outputs, name, doc_string, domain, **kw)
    helper.make_attribute = lambda key, value, doc_string=None, attr_type=None: FakeAttr(key, value, attr_type)
    real_get = helper.get_attribute_value
    helper.get_attribute_value = lambda a: a.value() if isinstance(a, FakeAttr) else real_get(a)
    real_to = numpy_helper.to_array
    global _real_to_array
    _real_to_array = real_to
    numpy_helper.from_array = lambda arr, name='': FakeTensor(arr, name, _dtype_to_onnx(arr.dtype))
    numpy_helper.to_array = lambda t, *a: (t.arr if isinstance(t.arr, OpaqueArr) else t.arr.reshape([int(d) for d in t.dims])) \
        if isinstance(t, FakeTensor) else real_to(t, *a)
    hooks.LIB['numpy_helper.from_array'] = lambda real, *a, **k: numpy_helper.from_array(*a, **k)
    hooks.LIB['numpy_helper.to_array'] = lambda real, *a, **k: numpy_helper.to_array(*a, **k)
    import tf2onnx.graph as G
    G.infer_onnx_shape_dtype = fake_infer
    G.Node.summary = property(lambda self: '')
    G.Node.__repr__ = lambda self: '<node %s %s>' % (self.type, self.name)
    _numpy_lib()

KEEP = {'Identity', 'Relu', 'Neg', 'Abs', 'Sigmoid', 'Tanh', 'Exp', 'Log', 'Sqrt', 'Floor', 'Ceil', 'Not'}
BOOLOUT = {'Less', 'Greater', 'Equal', 'And', 'Or', 'Not', 'LessOrEqual', 'GreaterOrEqual', 'Xor', 'IsNaN', 'IsInf'}
def fake_infer(node, opset, shapes, dtypes, initializers=None):
    from onnx import TensorProto as TP
    n = len(node.output)
    t = node.type
    dt = [None] * n
    sh = [None] * n
    if t == 'Cast':
        dt[0], sh[0] = node.get_attr_value('to'), _cp(shapes[0])
    elif t in ('Shape', 'Size', 'NonZero', 'ArgMax', 'ArgMin'):
        dt[0] = TP.INT64
        if t == 'Shape' and shapes[0] is not None:
            sh[0] = [len(shapes[0])]
    elif t in BOOLOUT:
        dt[0] = TP.BOOL
    elif t in ('Where', 'OneHot'):
        dt[0] = dtypes[1 if t == 'Where' else 2]
        if t == 'OneHot' and shapes[0] is not None:
            a = node.get_attr('axis')
            ax = int(a.i) if a is not None else -1
            r = len(shapes[0]) + 1
            l = list(shapes[0])
            sh[0] = VList(l[:ax % r] + [-1] + l[ax % r:])
    elif t == 'ConstantOfShape':
        v = node.get_attr('value')
        dt[0] = int(v.t.data_type) if v is not None else TP.FLOAT
    elif t in ('QuantizeLinear',):
        dt[0] = dtypes[2] if len(dtypes) > 2 else TP.UINT8
    elif t in ('DequantizeLinear',):
        dt[0] = TP.FLOAT
    elif t == 'Split':
        dt = [dtypes[0]] * n
    elif dtypes:
        dt[0] = dtypes[0]
        if t == 'GatherND' and shapes[0] is not None and shapes[1] is not None and len(shapes[1]) and isinstance(list(shapes[1])[-1], int) and list(shapes[1])[-1] > 0:
            b = node.get_attr('batch_dims')
            sh[0] = VList(list(shapes[1])[:-1] + list(shapes[0])[(int(b.i) if b is not None else 0) + list(shapes[1])[-1]:])
        if t == 'Expand' and shapes[0] is not None and len(shapes[0]) == 0 and node.inputs[1] is not None and node.inputs[1].is_const():
            sh[0] = VList(list(node.inputs[1].get_tensor_value()))
        if t in KEEP:
            sh[0] = _cp(shapes[0])
    if t == 'Transpose' and shapes[0] is not None and node.get_attr('perm') is not None:
        p = [int(q) for q in node.get_attr('perm').ints]
        if sorted(p) == list(range(len(shapes[0]))):
            sh[0] = VList([list(shapes[0])[q] for q in p])
    if t == 'Unsqueeze' and shapes[0] is not None:
        a = node.get_attr('axes')
        ax = list(a.ints) if a is not None else node.inputs[1].get_tensor_value() if len(node.input) > 1 and node.inputs[1].is_const() else None
        if ax is not None:
            r = len(shapes[0]) + len(ax)
            ax = {int(q) % r for q in ax}
            if len(ax) == r - len(shapes[0]):
                it = iter(list(shapes[0]))
                sh[0] = VList([1 if k in ax else next(it) for k in range(r)])
    if any(d is None for d in dt):
        return None, None
    return sh, dt
def _cp(s):
    return None if s is None else VList(list(s))

# ------------------------------------------------------------------ numpy contracts for symbolic values
def _numpy_lib():
    L = hooks.LIB
    def has(x):
        return hooks._has_sym(x) or isinstance(x, (SArr, OpaqueArr))
    def lib(name):
        def d(f):
            L[name] = f
            return f
        return d
    @lib('np.array')
    def _(real, x, dtype=None, **k):
        if isinstance(x, (OpaqueArr,)):
            return x
        if not has(x):
            if isinstance(x, VList):
                return real(_plain(x), dtype=dtype, **k)
            return NotImplemented
        return SArr(x, dtype if dtype is not None else getattr(x, '_dt', np.int64))
    L['np.asarray'] = L['np.array']
    @lib('np.transpose')
    def _(real, x, p=None, **k):
        if isinstance(x, OpaqueArr):
            p = p if p is not None else k.get('axes')
            return x.transpose(list(p) if p is not None else list(range(x.ndim))[::-1])
        return NotImplemented
    def elem2(op):
        def f(a, b):
            from . import denote
            A, B = denote.T(a.shape_, lambda i: a.fn(list(i))), denote.T(b.shape_, lambda i: b.fn(list(i)))
            shp = denote.bshape([A.shape, B.shape])
            f = z3.Function('elem:%s()/2' % op, VAL, VAL, VAL)
            return OpaqueArr([_lit(d) for d in shp], lambda idx: f(denote.bat(A, list(idx), shp), denote.bat(B, list(idx), shp)), np.result_type(a._dt, b._dt))
        return f
    def over(name, op):
        prev = L.get('np.' + name)
        f = elem2(op)
        def g(real, a, b, **k):
            if isinstance(a, OpaqueArr) and isinstance(b, OpaqueArr):
                return f(a, b)
            if isinstance(a, OpaqueArr) or isinstance(b, OpaqueArr):
                raise Unsupported('np.%s of an opaque constant and something else' % name)
            return prev(real, a, b, **k) if prev else NotImplemented
        L['np.' + name] = g
    @lib('np.sqrt')
    def _(real, a, **k):
        return a._sqrt() if isinstance(a, OpaqueArr) else NotImplemented
    @lib('np.array_equal')
    def _(real, a, b, **k):
        if not (isinstance(a, OpaqueArr) or isinstance(b, OpaqueArr)):
            if isinstance(a, SArr) or isinstance(b, SArr):
                p, q = np.asarray(a.view(np.ndarray)), np.asarray(b.view(np.ndarray))
                return p.shape == q.shape and all(bool(SBool(zint(x) == zint(y))) for x, y in zip(p.reshape(-1), q.reshape(-1)))
            return NotImplemented
        if a is b: return True
        if not isinstance(a, OpaqueArr) or not isinstance(b, OpaqueArr) or a.ndim != b.ndim: return False
        if not all(bool(SBool(zint(p) == zint(q))) for p, q in zip(a.shape_, b.shape_)): return False
        vs = [z3.FreshInt('ae') for _ in a.shape_]
        p, q = a.fn(list(vs)), b.fn(list(vs))
        r = SBool(z3.FreshBool('array_equal'))
        if bool(r):
            inside = z3.And(*[z3.And(v >= 0, v < zint(d)) for v, d in zip(vs, a.shape_)]) if vs else z3.BoolVal(True)
            ctx().assume(z3.ForAll(vs, z3.Implies(inside, p == q)) if vs else p == q)
            return True
        return False
    @lib('np.cumsum')
    def _(real, a, **k):
        if not has(a) and not isinstance(a, SArr):
            return NotImplemented
        out, t = [], 0
        for x in (a.tolist() if isinstance(a, np.ndarray) else list(a)):
            t = t + x
            out.append(t)
        return SArr(out, np.int64)
    @lib('np.split')
    def _(real, a, ind, axis=0):
        if not isinstance(a, OpaqueArr):
            return NotImplemented
        ax = int(axis) % a.ndim
        d = a.shape_[ax]
        if isinstance(ind, (int, SInt)):
            if not bool(SBool(zint(d) % zint(ind) == 0)):
                raise ValueError('array split does not result in an equal division')
            size = _lit(zint(d) / zint(ind))
            cuts = [size * k for k in range(int(ind) + 1)]
        else:
            l = list(ind.tolist()) if isinstance(ind, np.ndarray) else list(ind)
            for p, q in zip([0] + l, l + [d]):
                if not bool(SBool(z3.And(zint(p) >= 0, zint(p) <= zint(q)))):
                    raise Unsupported('np.split with unordered indices')
            cuts = [0] + l + [d]
        def piece(o):
            def f(idx):
                j = list(idx)
                j[ax] = z3.simplify(j[ax] + zint(o))
                return a.fn(j)
            return f
        return VList([OpaqueArr([q - p if k == ax else e for k, e in enumerate(a.shape_)], piece(p), a._dt) for p, q in zip(cuts, cuts[1:])])
    @lib('np.ones')
    def _(real, n, dtype=None, **k):
        if dtype is not None and np.dtype(dtype).kind in 'iu' and isinstance(n, int):
            return SArr([1] * n, dtype)
        return NotImplemented
    @lib('np.copy')
    def _(real, x):
        return x.copy() if isinstance(x, SArr) else NotImplemented
    def elementwise(name, f):
        def g(real, a, b, **k):
            if not (has(a) or has(b)):
                return NotImplemented
            dt = getattr(a, '_dt', None) or getattr(b, '_dt', None) or np.int64
            A = a if isinstance(a, SArr) else SArr(a, dt) if not isinstance(a, np.ndarray) else a.astype(object)
            B = b if isinstance(b, SArr) else SArr(b, dt) if not isinstance(b, np.ndarray) else b.astype(object)
            A, B = np.broadcast_arrays(np.asarray(A.view(np.ndarray)), np.asarray(B.view(np.ndarray)))
            out = np.empty(A.shape, dtype=object)
            for ix in np.ndindex(A.shape):
                out[ix] = f(A[ix], B[ix])
            r = out.view(SArr)
            r._dt = np.dtype(dt)
            return r
        L['np.' + name] = g
    elementwise('maximum', lambda a, b: hooks.b_max(a, b))
    elementwise('minimum', lambda a, b: hooks.b_min(a, b))
    elementwise('add', lambda a, b: a + b)
    elementwise('subtract', lambda a, b: a - b)
    for nm_, op_ in (('multiply', 'Mul'), ('add', 'Add'), ('subtract', 'Sub')):
        over(nm_, op_)
    @lib('np.sign')
    def _(real, a):
        if not has(a):
            return NotImplemented
        out = np.empty(_shape(a), dtype=object)
        for ix in np.ndindex(out.shape):
            v = np.asarray(a.view(np.ndarray))[ix]
            z = zint(v)
            out[ix] = SInt(z3.If(z > 0, 1, z3.If(z < 0, -1, 0)))
        r = out.view(SArr)
        r._dt = a._dt
        return r
    @lib('np.where')
    def _(real, c, *r):
        if isinstance(c, np.ndarray) and c.dtype != object and not isinstance(c, SArr):
            return NotImplemented
        if r or not has(c) and not isinstance(c, SArr):
            return NotImplemented
        b = np.array([bool(x) for x in np.asarray(c.view(np.ndarray)).reshape(-1)]).reshape(np.asarray(c.view(np.ndarray)).shape)
        return np.where(b)
    @lib('np.all')
    def _(real, c, **k):
        if has(c):
            return all(bool(x) for x in np.asarray(c.view(np.ndarray)).reshape(-1))
        return NotImplemented
    @lib('np.any')
    def _(real, c, **k):
        if has(c):
            return any(bool(x) for x in np.asarray(c.view(np.ndarray)).reshape(-1))
        return NotImplemented
    @lib('np.concatenate')
    def _(real, xs, axis=0, **k):
        xs = list(xs)
        if any(isinstance(x, OpaqueArr) for x in xs):
            from . import denote
            if axis is None or not all(isinstance(x, OpaqueArr) for x in xs): raise Unsupported('np.concatenate')
            n = xs[0].ndim
            if not -n <= axis < n or any(x.ndim != n for x in xs): raise ValueError('concatenate')
            ax = int(axis) % n
            for x in xs[1:]:
                for k in range(n):
                    if k != ax and not bool(SBool(zint(x.shape_[k]) == zint(xs[0].shape_[k]))): raise ValueError('concatenate')
            cuts = [0]
            for x in xs: cuts.append(cuts[-1] + x.shape_[ax])
            def at(idx):
                r = None
                for x, o in list(zip(xs, cuts))[::-1]:
                    j = list(idx)
                    j[ax] = z3.simplify(j[ax] - zint(o))
                    v = x.fn(j)
                    r = v if r is None else z3.If(idx[ax] < zint(o) + zint(x.shape_[ax]), v, r)
                return r
            return OpaqueArr([cuts[-1] if k == ax else e for k, e in enumerate(xs[0].shape_)], at, xs[0]._dt)
        if not has(list(xs)) and not any(isinstance(x, SArr) for x in xs):
            return NotImplemented
        if axis != 0:
            raise Unsupported('np.concatenate axis')
        l = []
        dt = np.int64
        for x in xs:
            dt = getattr(x, '_dt', dt)
            l += list(x.tolist()) if isinstance(x, np.ndarray) else list(x)
        return SArr(l, dt)
    @lib('np.prod')
    def _(real, x, **k):
        if has(x) and not k:
            return _prod(list(x.tolist()) if isinstance(x, SArr) else list(x))
        return NotImplemented
    @lib('np.iinfo')
    def _(real, dt):
        return real(dt)

def _lit(z):
    z = z3.simplify(z)
    return z.as_long() if z3.is_int_value(z) else SInt(z)
def _plain(x):
    if isinstance(x, VList):
        return [_plain(y) for y in list.__iter__(x)]
    return x

# ------------------------------------------------------------------ building graphs in contracts
def mkgraph(opset, placeholders, consts=(), nodes=(), outputs=(), extra_opset=None, target=None):
    """placeholders: [(name, dtype, shape)], consts: [(name, arr)], nodes: [(op, name, inputs, outputs, attrs, shapes, dtypes)]"""
    from tf2onnx.graph import Graph
    g = Graph([], output_shapes={}, dtypes={}, opset=opset, output_names=[], extra_opset=extra_opset, target=target or [])
    for nm, dt, sh in placeholders:
        g.add_graph_input(nm, dt, VList(list(sh)) if sh is not None else None)
        g.set_shape(nm, VList(list(sh)) if sh is not None else None)
    for nm, arr in consts:
        g.make_const(nm, arr)
    made = {}
    for op, nm, ins, outs, attrs, shapes, dtypes in nodes:
        made[nm] = g.make_node(op, list(ins), outputs=list(outs), name=nm, attr=dict(attrs), shapes=list(shapes), dtypes=list(dtypes),
                               skip_conversion=False)
    for o in outputs:
        idn = g.make_node('Identity', [o], outputs=['graph_out_%s' % o], name='graph_out_%s' % o.replace(':', '_'),
                          shapes=[None], dtypes=[g.get_dtype(o)])
        g.outputs.append('graph_out_%s' % o)
    return g, made
