"""Symbolic values, path explorer and proof obligations.

A function is verified by executing its *real* (mechanically instrumented) code on symbolic values.
Every branch on a symbolic value forks; all paths are explored by re-execution.  Every fact the contract
promises becomes an obligation  path-condition => fact  that z3 (then cvc5) has to discharge.
"""
import time, subprocess, os, sys
from .z3load import z3

class PathEnd(BaseException):
    """the current path is finished (infeasible, or cut at the end of a loop iteration)"""
class Unsupported(BaseException):
    """the code left the fragment the verifier understands: undecided, never a verdict"""

I = z3.IntSort()
B = z3.BoolSort()
STR = z3.DeclareSort('Str')
NODE = z3.DeclareSort('NodeRef')

_ctx = None
def ctx():
    if _ctx is None:
        raise Unsupported('symbolic value used outside a verification run')
    return _ctx

class Obligation:
    def __init__(self, name, status, backend, secs, model=None, detail=None):
        self.name, self.status, self.backend, self.secs, self.model, self.detail = name, status, backend, secs, model, detail

class Ctx:
    MAXPATHS = 20000
    def __init__(self, timeout_ms=20000, deadline=None):
        self.timeout = timeout_ms
        self.obl = []            # Obligation
        self.paths = 0
        self.solver_s = 0.0
        self.deadline = deadline
        self.decisions = []
        self.failed = []
        self.covers = set()
        self.assumed = set()
        self.base_names = {}
        self.bounded_loops = set()
        self.unroll_limit = 64
    # ------------------------------------------------------------------ per path
    def start_path(self):
        self.pos = 0
        self.pc = []
        self.memo = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        self.nfresh = 0
        self.ints = []
        self.inputs = {}
        self.writes = []
        self.loop_depth = 0
        self.sub = None
        self.lits = {}
        self.used_cut = False
        self.epoch = 0
    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        v = z3.Const('%s!%d' % (hint, self.nfresh), sort)
        if sort == I:
            self.ints.append(v)
        return v
    def assume(self, c):
        c = tobool_z3(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
    def check(self, *extra, timeout=None):
        t = time.time()
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set('timeout', self.timeout)
        self.solver_s += time.time() - t
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('deadline of the proof run reached')
        return r
    def fork(self, cond, tag=None):
        """decide a symbolic condition on this path"""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
            self.pos += 1
            self.assume(cond if v else z3.Not(cond))
            return v
        t = self.check(cond, timeout=min(self.timeout, 3000))
        f = self.check(z3.Not(cond), timeout=min(self.timeout, 3000))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd('infeasible')
        if f == z3.unsat:
            self.decisions.append((True, False, tag)); v = True
        elif t == z3.unsat:
            self.decisions.append((False, False, tag)); v = False
        else:
            self.decisions.append((True, True, tag)); v = True
        self.pos += 1
        self.assume(cond if v else z3.Not(cond))
        return v
    def choose(self):
        """nondeterministic two-way choice without a condition"""
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos][0]
        else:
            v = True
            self.decisions.append((True, True, None))
        self.pos += 1
        return v
    def next_path(self):
        while self.decisions and not (self.decisions[-1][1]):
            self.decisions.pop()
        if not self.decisions:
            return False
        v, _, tag = self.decisions[-1]
        self.decisions[-1] = (not v, False, tag)
        return True
    def explore(self, run):
        """run() once per path"""
        global _ctx
        old = _ctx
        _ctx = self
        try:
            self.decisions = []
            while True:
                self.start_path()
                self.paths += 1
                if self.paths > self.MAXPATHS:
                    raise Unsupported('more than %d paths' % self.MAXPATHS)
                try:
                    run()
                except PathEnd:
                    pass
                if not self.next_path():
                    break
        finally:
            _ctx = old
    # ------------------------------------------------------------------ obligations
    def prove(self, name, cond, detail=None, decode=True):
        c = tobool_z3(cond)
        t0 = time.time()
        c = z3.simplify(c)
        if z3.is_true(c):
            self.obl.append(Obligation(name, 'discharged', 'simplifier', time.time() - t0))
            return True
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            self.obl.append(Obligation(name, 'discharged', 'z3', time.time() - t0))
            return True
        if r == z3.sat:
            m = self.solver.model()
            for b in (4, 12):          # prefer a small counter-model: it can be replayed
                if self.check(z3.Not(c), *[z3.And(v >= -b, v <= b) for v in self.ints], timeout=3000) == z3.sat:
                    m = self.solver.model()
                    break
            o = Obligation(name, 'failed', 'z3', time.time() - t0, m, detail)
            o.args = None
            if decode:
                try:
                    o.args = {k: d(m) for k, d in self.inputs.items()}
                except Exception as e:      # decoding is best effort
                    o.args = None
                    o.detail = '%s (model not decoded: %r)' % (detail, e)
            o.modeltext = str(m)[:4000]
            o.cut = self.used_cut
            self.obl.append(o)
            self.failed.append(o)
            return False
        r2 = self._cvc5(z3.Not(c))
        if r2 == 'unsat':
            self.obl.append(Obligation(name, 'discharged', 'cvc5', time.time() - t0))
            return True
        o = Obligation(name, 'unknown', 'z3+cvc5', time.time() - t0, None, detail)
        o.args = None
        o.modeltext = ''
        self.obl.append(o)
        self.failed.append(o)
        return False
    def _cvc5(self, neg):
        s = z3.Solver()
        for c in self.pc:
            s.add(c)
        s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout, '-'], input=txt, capture_output=True,
                               text=True, timeout=self.timeout / 1000 + 10)
            out = p.stdout.strip().split('\n')
            return out[0] if out else 'unknown'
        except Exception:
            return 'unknown'

# ---------------------------------------------------------------------- values
def is_sym(x):
    return isinstance(x, (SInt, SBool, SReal, SStr)) or (isinstance(x, VList) and x.s is not None)

def tobool_z3(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, SInt):
        return x.z != 0
    raise Unsupported('not a boolean: %r' % (x,))

def zi(x):
    """z3 integer of a python/symbolic integer, None when it is not one"""
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
    except ImportError:
        pass
    return None

def zr(x):
    if isinstance(x, SReal):
        return x.z
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        from fractions import Fraction
        f = Fraction(x)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    z = zi(x)
    return None if z is None else z3.ToReal(z)

class SBool:
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    def __bool__(self):
        return ctx().fork(self.z)
    def __and__(self, o):
        return SBool(z3.And(self.z, tobool_z3(o)))
    __rand__ = __and__
    def __or__(self, o):
        return SBool(z3.Or(self.z, tobool_z3(o)))
    __ror__ = __or__
    def __invert__(self):
        return SBool(z3.Not(self.z))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(self.z == tobool_z3(o))
        if zi(o) is not None:
            return SBool(zi(self) == zi(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.z)) if isinstance(r, SBool) else (not r)
    def __hash__(self):
        return hash(bool(self))
    def __add__(self, o): return SInt(zi(self)) + o
    __radd__ = __add__
    def __repr__(self):
        return '<symbool>'

def _arith(f):
    def op(self, o):
        z = zi(o)
        if z is not None:
            return SInt(f(self.z, z))
        r = zr(o)
        if r is not None:
            return SReal(f(z3.ToReal(self.z), r))
        return NotImplemented
    return op
def _rarith(f):
    def op(self, o):
        z = zi(o)
        if z is not None:
            return SInt(f(z, self.z))
        r = zr(o)
        if r is not None:
            return SReal(f(r, z3.ToReal(self.z)))
        return NotImplemented
    return op
def _cmp(f):
    def op(self, o):
        z = zi(o)
        if z is not None:
            return SBool(f(self.z, z))
        r = zr(o)
        if r is not None:
            return SBool(f(z3.ToReal(self.z), r))
        return NotImplemented
    return op

def floordiv_z(a, b):
    """python's floor division on z3 integers (b != 0)"""
    if z3.is_int_value(b):
        return a / b if b.as_long() > 0 else (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))
def mod_z(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - b * floordiv_z(a, b)

class SInt:
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    __add__ = _arith(lambda a, b: a + b); __radd__ = _rarith(lambda a, b: a + b)
    __sub__ = _arith(lambda a, b: a - b); __rsub__ = _rarith(lambda a, b: a - b)
    __mul__ = _arith(lambda a, b: a * b); __rmul__ = _rarith(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b); __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b); __ge__ = _cmp(lambda a, b: a >= b)
    def __eq__(self, o):
        z = zi(o)
        if z is not None:
            return SBool(self.z == z)
        r = zr(o)
        if r is not None:
            return SBool(z3.ToReal(self.z) == r)
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.z)) if isinstance(r, SBool) else (not r)
    def __neg__(self): return SInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))
    def __floordiv__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        if ctx().fork(z == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SInt(floordiv_z(self.z, z))
    def __rfloordiv__(self, o):
        return SInt(zi(o)).__floordiv__(self)
    def __mod__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        if ctx().fork(z == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        return SInt(mod_z(self.z, z))
    def __rmod__(self, o):
        return SInt(zi(o)).__mod__(self)
    def __divmod__(self, o):
        return self // o, self % o
    def __truediv__(self, o):
        r = zr(o)
        if r is None:
            return NotImplemented
        if ctx().fork(r == 0):
            raise ZeroDivisionError('division by zero')
        return SReal(z3.ToReal(self.z) / r)
    def __rtruediv__(self, o):
        r = zr(o)
        if r is None:
            return NotImplemented
        if ctx().fork(self.z == 0):
            raise ZeroDivisionError('division by zero')
        return SReal(r / z3.ToReal(self.z))
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.z
            return SInt(r)
        raise Unsupported('power')
    def __bitand__(self, o):
        raise Unsupported('bit operation on symbolic integer')
    def __and__(self, o):
        o2 = o if isinstance(o, int) else None
        if o2 is not None and o2 > 0 and (o2 & (o2 - 1)) == 0:
            # x & 2^k : bit test
            return SInt(z3.If(((self.z / o2) % 2) == 1, z3.IntVal(o2), z3.IntVal(0)))
        if o2 is not None and o2 >= 0 and ((o2 + 1) & o2) == 0:
            return SInt(self.z % (o2 + 1))
        raise Unsupported('bit operation on symbolic integer')
    __rand__ = __and__
    def __rshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return SInt(self.z / (1 << o))
        raise Unsupported('shift')
    def __lshift__(self, o):
        if isinstance(o, int) and o >= 0:
            return SInt(self.z * (1 << o))
        raise Unsupported('shift')
    def __rlshift__(self, o):
        return o << self.__index__()
    def __bool__(self):
        return ctx().fork(self.z != 0)
    def __index__(self):
        """concretise: one path per feasible value (the path condition has to bound it)"""
        c = ctx()
        z = z3.simplify(self.z)
        if z3.is_int_value(z):
            return z.as_long()
        for _ in range(c.unroll_limit):
            if c.pos < len(c.decisions):
                v = c.decisions[c.pos][2]
                if v is None:
                    raise Unsupported('decision replay out of step')
            else:
                r = c.check()
                if r == z3.unsat:
                    raise PathEnd('infeasible')
                if r != z3.sat:
                    raise Unsupported('cannot concretise')
                v = c.solver.model().eval(z, model_completion=True).as_long()
            # a fork whose condition folds to a constant consumes no decision
            if c.fork(z == v, tag=v):
                return v
        raise Unsupported('symbolic integer with too many feasible values used as an index')
    __int__ = __index__
    def __hash__(self):
        return hash(self.__index__())
    def __float__(self):
        return float(self.__index__())
    def __ceil__(self): return self
    def __floor__(self): return self
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __repr__(self): return '<sym %s>' % (self.z,)
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    def is_integer(self): return True
    def item(self): return self

class SReal:
    """python float treated as a mathematical real (listed as an assumption wherever it is reached)"""
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
        ctx().assumed.add('float arithmetic treated as exact real arithmetic')
    def _b(f):
        def op(self, o):
            r = zr(o)
            if r is None:
                return NotImplemented
            return SReal(f(self.z, r))
        return op
    def _c(f):
        def op(self, o):
            r = zr(o)
            if r is None:
                return NotImplemented
            return SBool(f(self.z, r))
        return op
    __add__ = _b(lambda a, b: a + b); __radd__ = _b(lambda a, b: b + a)
    __sub__ = _b(lambda a, b: a - b); __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b); __rmul__ = _b(lambda a, b: b * a)
    __lt__ = _c(lambda a, b: a < b); __le__ = _c(lambda a, b: a <= b)
    __gt__ = _c(lambda a, b: a > b); __ge__ = _c(lambda a, b: a >= b)
    def __eq__(self, o):
        r = zr(o)
        return False if r is None else SBool(self.z == r)
    def __ne__(self, o):
        r = zr(o)
        return True if r is None else SBool(self.z != r)
    def __truediv__(self, o):
        r = zr(o)
        if r is None:
            return NotImplemented
        if ctx().fork(r == 0):
            raise ZeroDivisionError('float division by zero')
        return SReal(self.z / r)
    def __rtruediv__(self, o):
        return SReal(zr(o)).__truediv__(self)
    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return SReal(z3.ToReal(z3.ToInt(q.z)))
    def __neg__(self): return SReal(-self.z)
    def __abs__(self): return SReal(z3.If(self.z >= 0, self.z, -self.z))
    def __bool__(self): return ctx().fork(self.z != 0)
    def __floor__(self): return SInt(z3.ToInt(self.z))
    def __ceil__(self): return SInt(-z3.ToInt(-self.z))
    def __trunc__(self): return SInt(z3.If(self.z >= 0, z3.ToInt(self.z), -z3.ToInt(-self.z)))
    def is_integer(self): return SBool(z3.IsInt(self.z))
    def __hash__(self): raise Unsupported('hash of a symbolic real')
    def __float__(self): raise Unsupported('float() of a symbolic real')
    def __int__(self): raise Unsupported('int() of a symbolic real outside instrumented code')
    def __repr__(self): return '<symreal>'
    def __format__(self, spec): return '<symreal>'

class SStr:
    """a string about which only equality is known; literals are pairwise distinct constants"""
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    def __eq__(self, o):
        z = zs(o)
        return False if z is None else SBool(self.z == z)
    def __ne__(self, o):
        z = zs(o)
        return True if z is None else SBool(self.z != z)
    def __hash__(self):
        raise Unsupported('hash of a symbolic string (concrete dict/set keyed by a symbolic name)')
    def __bool__(self):
        return ctx().fork(self.z != zs(''))
    def __add__(self, o):
        z = zs(o)
        if z is None:
            raise TypeError('can only concatenate str')
        return SStr(_concat(self.z, z))
    def __radd__(self, o):
        return SStr(_concat(zs(o), self.z))
    def __repr__(self): return '<symstr %s>' % self.z
    __str__ = __repr__
    def __format__(self, spec): return repr(self)
    def __getattr__(self, a):
        raise Unsupported('str.%s on a symbolic string' % a)

_concat = z3.Function('str.cat', STR, STR, STR)
_GLOBAL_LITS = {}
def zs(x):
    if isinstance(x, SStr):
        return x.z
    if isinstance(x, str):
        c = ctx()
        if x not in c.lits:
            k = z3.Const('lit:%r' % x, STR)
            for o in c.lits.values():
                c.assume(k != o)
            c.lits[x] = k
        return c.lits[x]
    return None

# ---------------------------------------------------------------------- kinds: how a python value lives in a z3 sort
class Kind:
    def __init__(self, name, sort, wrap, unwrap):
        self.name, self.sort, self.wrap, self.unwrap = name, sort, wrap, unwrap
    def __repr__(self):
        return 'Kind(%s)' % self.name
def _uw_int(v):
    z = zi(v)
    if z is None:
        raise Unsupported('not an integer: %r' % (v,))
    return z
def _uw_str(v):
    z = zs(v)
    if z is None:
        raise Unsupported('not a string: %r' % (v,))
    return z
def _uw_bool(v):
    return tobool_z3(v)
OptIntSort = z3.Datatype('OptInt')
OptIntSort.declare('none')
OptIntSort.declare('some', ('val', I))
OptIntSort = OptIntSort.create()
def _w_opt(z):
    if ctx().fork(OptIntSort.is_none(z)):
        return None
    return SInt(OptIntSort.val(z))
def _uw_opt(v):
    if v is None:
        return OptIntSort.none
    return OptIntSort.some(_uw_int(v))
KINT = Kind('int', I, SInt, _uw_int)
KBOOL = Kind('bool', B, SBool, _uw_bool)
KSTR = Kind('str', STR, SStr, _uw_str)
KOPT = Kind('opt-int', OptIntSort, _w_opt, _uw_opt)

class Poison:
    """value of a variable or list slot the verifier does not know; any use leaves the supported fragment"""
    def __init__(self, why): object.__setattr__(self, '_why', why)
    def _no(self, *a, **k): raise Unsupported('use of unknown value: ' + object.__getattribute__(self, '_why'))
    __getattr__ = __bool__ = __eq__ = __ne__ = __iter__ = __len__ = __add__ = __radd__ = __getitem__ = __call__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __sub__ = __mul__ = __hash__ = __index__ = __str__ = __setattr__ = __contains__ = _no
    def __repr__(self): return '<poison>'

def log_write(obj):
    if _ctx is not None:
        _ctx.writes.append(obj)

class VList(list):
    """list used by instrumented code; when .s is set it is a list of symbolic length (len, z3 array, kind)"""
    __slots__ = ('s', '__weakref__')
    def __init__(self, it=()):
        list.__init__(self, it)
        self.s = None
    @staticmethod
    def symbolic(n, arr, kind):
        r = VList()
        r.set_sym(n, arr, kind)
        return r
    def set_sym(self, n, arr, kind):
        list.clear(self)
        list.append(self, Poison('element of a symbolic list reached from C code'))
        self.s = (n, arr, kind)
    # ---- generic views
    def vlen(self):
        return list.__len__(self) if self.s is None else SInt(self.s[0])
    def zlen(self):
        return z3.IntVal(list.__len__(self)) if self.s is None else self.s[0]
    def at(self, i):
        if self.s is None:
            return list.__getitem__(self, i)
        n, arr, k = self.s
        return k.wrap(z3.Select(arr, zi(i)))
    def raw(self, zidx):
        n, arr, k = self.s
        return z3.Select(arr, zidx)
    def _norm(self, i, what='list index'):
        n = self.s[0]
        z = zi(i)
        if ctx().fork(z3.And(z >= 0, z < n)):
            return z
        if ctx().fork(z3.And(z < 0, z >= -n)):
            return z + n
        raise IndexError(what + ' out of range')
    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.s is None:
                if any(isinstance(x, (SInt, SBool)) for x in (i.start, i.stop, i.step)):
                    i = slice(*[x.__index__() if isinstance(x, (SInt, SBool)) else x for x in (i.start, i.stop, i.step)])
                return VList(list.__getitem__(self, i))
            return self._slice(i)
        if self.s is None:
            if isinstance(i, SInt):
                return self._pick(i)
            return list.__getitem__(self, i)
        return self.at(SInt(self._norm(i)))
    def _pick(self, i):
        n = list.__len__(self)
        els = [list.__getitem__(self, k) for k in range(n)]
        if n and all(zi(e) is not None and not isinstance(e, (bool, SBool)) for e in els):
            z = i.z
            if not ctx().fork(z3.And(z >= -n, z < n)):
                raise IndexError('list index out of range')
            r = zi(els[-1])
            for k in range(n - 1):
                r = z3.If(z3.Or(z == k, z == k - n), zi(els[k]), r)
            return SInt(r)
        return list.__getitem__(self, i.__index__())
    def _slice(self, i):
        if i.step not in (None, 1):
            raise Unsupported('stepped slice of a symbolic list')
        n, arr, k = self.s
        def clamp(x, d):
            if x is None:
                return d
            z = zi(x)
            z = z3.If(z < 0, z + n, z)
            return z3.If(z < 0, 0, z3.If(z > n, n, z))
        a, b = clamp(i.start, z3.IntVal(0)), clamp(i.stop, n)
        m = z3.If(b > a, b - a, 0)
        c = ctx()
        new = c.fresh(z3.ArraySort(I, k.sort), 'slice')
        j = z3.Int('j!sl')
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), new[j] == arr[j + a]), patterns=[new[j]]))
        return VList.symbolic(m, new, k)
    def __setitem__(self, i, v):
        log_write(self)
        if self.s is None:
            if isinstance(i, SInt):
                i = i.__index__()
            list.__setitem__(self, i, v)
            return
        if isinstance(i, slice):
            raise Unsupported('slice assignment on a symbolic list')
        n, arr, k = self.s
        z = self._norm(i, 'list assignment index')
        self.s = (n, z3.Store(arr, z, k.unwrap(v)), k)
    def append(self, v):
        log_write(self)
        if self.s is None:
            list.append(self, v)
            return
        n, arr, k = self.s
        self.s = (n + 1, z3.Store(arr, n, k.unwrap(v)), k)
    def extend(self, it):
        log_write(self)
        if self.s is None and not is_sym(it):
            list.extend(self, it)
            return
        if self.s is not None and isinstance(it, (list, tuple)) and not is_sym(it) and len(it) == 0:
            return
        r = sym_concat(self, it)
        self.set_sym(*r.s)
    def _vc_snapshot(self):
        return self.s
    def _vc_havoc(self):
        n, arr, k = self.s
        c = ctx()
        m = c.fresh(I, 'len')
        c.assume(m >= 0)
        self.s = (m, c.fresh(z3.ArraySort(I, k.sort), 'hav'), k)
    def insert(self, i, v):
        log_write(self)
        if self.s is not None:
            raise Unsupported('insert on symbolic list')
        list.insert(self, i, v)
    def pop(self, i=-1):
        log_write(self)
        if self.s is None:
            return list.pop(self, i if not isinstance(i, SInt) else i.__index__())
        if not (isinstance(i, int) and i == -1):
            raise Unsupported('pop(i) on symbolic list')
        n, arr, k = self.s
        if ctx().fork(n <= 0):
            raise IndexError('pop from empty list')
        self.s = (n - 1, arr, k)
        return k.wrap(z3.Select(arr, n - 1))
    def remove(self, v):
        log_write(self)
        if self.s is None:
            list.remove(self, v)
            return
        n, arr, k = self.s
        c = ctx()
        if not c.fork(self._contains_z(v)):
            raise ValueError('list.remove(x): x not in list')
        p = c.fresh(I, 'pos')
        z = k.unwrap(v)
        j = z3.Int('j!rm')
        c.assume(z3.And(p >= 0, p < n, arr[p] == z,
                        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), arr[j] != z), patterns=[arr[j]])))
        new = c.fresh(z3.ArraySort(I, k.sort), 'removed')
        c.assume(z3.ForAll([j], new[j] == z3.If(j < p, arr[j], arr[j + 1]), patterns=[new[j]]))
        # the inverse direction, as a lemma instance the solver can trigger on
        c.assume(z3.ForAll([j], z3.And(z3.Implies(j < p, new[j] == arr[j]), z3.Implies(j > p, new[j - 1] == arr[j])),
                           patterns=[arr[j]]))
        self.s = (n - 1, new, k)
    def _contains_z(self, v):
        n, arr, k = self.s
        try:
            z = k.unwrap(v)
        except Unsupported:
            return z3.BoolVal(False) if v is None else (_ for _ in ()).throw(Unsupported('in on symbolic list'))
        j = z3.Int('j!in')
        return z3.Exists([j], z3.And(j >= 0, j < n, arr[j] == z))
    def __contains__(self, v):
        if self.s is None:
            if is_sym(v) or any(is_sym(e) for e in list.__iter__(self)):
                return bool(any((e is v) or (e == v) for e in list.__iter__(self)))
            return list.__contains__(self, v)
        return ctx().fork(self._contains_z(v))
    def __delitem__(self, i):
        log_write(self)
        if self.s is not None:
            if isinstance(i, slice):
                raise Unsupported('del slice on symbolic list')
            n, arr, k = self.s
            p = self._norm(i)
            c = ctx()
            j = z3.Int('j!del')
            new = c.fresh(z3.ArraySort(I, k.sort), 'deleted')
            c.assume(z3.ForAll([j], new[j] == z3.If(j < p, arr[j], arr[j + 1]), patterns=[new[j]]))
            c.assume(z3.ForAll([j], z3.And(z3.Implies(j < p, new[j] == arr[j]), z3.Implies(j > p, new[j - 1] == arr[j])),
                               patterns=[arr[j]]))
            self.s = (n - 1, new, k)
            return
        list.__delitem__(self, i)
    def __iter__(self):
        if self.s is None:
            return list.__iter__(self)
        raise Unsupported('iteration over a symbolic list outside an instrumented loop')
    def __len__(self):
        if self.s is None:
            return list.__len__(self)
        raise Unsupported('len() of a symbolic list outside instrumented code')
    def __bool__(self):
        if self.s is None:
            return list.__len__(self) > 0
        return ctx().fork(self.s[0] > 0)
    def __eq__(self, o):
        if self.s is None and not (isinstance(o, VList) and o.s is not None):
            if not isinstance(o, list):
                return False
            if list.__len__(self) != len(o):
                return False
            return SBoolAll([a == b for a, b in zip(list.__iter__(self), o)])
        if not isinstance(o, list):
            return False
        return SBool(list_eq_z(self, o if isinstance(o, VList) else VList(o)))
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else SBool(z3.Not(r.z))
    __hash__ = None
    def __add__(self, o):
        if self.s is None and not is_sym(o):
            return VList(list.__add__(self, list(o) if isinstance(o, list) else o))
        return sym_concat(self, o)
    def __radd__(self, o):
        if self.s is None:
            return VList(list(o) + list(list.__iter__(self)))
        return sym_concat(VList(o), self)
    def __iadd__(self, o):
        log_write(self)
        if self.s is None and not is_sym(o):
            list.extend(self, o)
            return self
        r = sym_concat(self, o)
        self.set_sym(*r.s)
        return self
    def __mul__(self, n):
        if self.s is None:
            if isinstance(n, SInt):
                if list.__len__(self) == 1 and zi(list.__getitem__(self, 0)) is not None:
                    m = z3.If(n.z > 0, n.z, 0)
                    return VList.symbolic(m, z3.K(I, zi(list.__getitem__(self, 0))), KINT)
                n = n.__index__()
            return VList(list.__mul__(self, n))
        raise Unsupported('symbolic list repetition')
    __rmul__ = __mul__
    def copy(self):
        r = VList()
        if self.s is None:
            list.extend(r, list.__iter__(self))
        else:
            r.set_sym(*self.s)
        return r
    __copy__ = copy
    def __deepcopy__(self, memo):
        if self.s is not None:
            return self.copy()
        import copy as _c
        r = VList()
        memo[id(self)] = r
        list.extend(r, [_c.deepcopy(e, memo) if not is_sym(e) else e for e in list.__iter__(self)])
        return r
    def index(self, v, *a):
        if self.s is None:
            for i, e in enumerate(list.__iter__(self)):
                if e is v or e == v:
                    return i
            raise ValueError('%r is not in list' % (v,))
        n, arr, k = self.s
        c = ctx()
        if not c.fork(self._contains_z(v)):
            raise ValueError('not in list')
        p = c.fresh(I, 'pos')
        j = z3.Int('j!ix')
        z = k.unwrap(v)
        c.assume(z3.And(p >= 0, p < n, arr[p] == z,
                        z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < p), arr[j] != z), patterns=[arr[j]])))
        return SInt(p)
    def count(self, v):
        if self.s is None:
            r = 0
            for e in list.__iter__(self):
                t = e is v or e == v
                r = r + (t if not isinstance(t, SBool) else SInt(z3.If(t.z, 1, 0)))
            return r
        # only  count(x) <= 1  style tests matter: axiomatise the result loosely
        n, arr, k = self.s
        c = ctx()
        z = k.unwrap(v)
        cnt = c.fresh(I, 'count')
        i, j = z3.Ints('i!ct j!ct')
        occ = lambda x: z3.And(x >= 0, x < n, arr[x] == z)
        c.assume(cnt >= 0)
        c.assume((cnt == 0) == z3.Not(z3.Exists([i], occ(i))))
        c.assume((cnt >= 2) == z3.Exists([i, j], z3.And(occ(i), occ(j), i < j)))
        return SInt(cnt)
    def reverse(self):
        log_write(self)
        if self.s is not None:
            raise Unsupported('reverse of symbolic list')
        list.reverse(self)
    def sort(self, *a, **k):
        log_write(self)
        if self.s is not None:
            raise Unsupported('sort of symbolic list')
        list.sort(self, *a, **k)
    def clear(self):
        log_write(self)
        self.s = None
        list.clear(self)
    def __reversed__(self):
        if self.s is not None:
            raise Unsupported('reversed symbolic list')
        return list.__reversed__(self)
    def __repr__(self):
        return list.__repr__(self) if self.s is None else '<symbolic list>'
    __str__ = __repr__
    def __format__(self, s): return repr(self)

def SBoolAll(bs):
    zsyms = []
    for b in bs:
        if isinstance(b, SBool):
            zsyms.append(b.z)
        elif not b:
            return False
    if not zsyms:
        return True
    return SBool(z3.And(*zsyms))

def to_sym_parts(l, kind):
    """(n, array-lookup function) of a list"""
    if isinstance(l, VList) and l.s is not None:
        return l.s[0], (lambda j: z3.Select(l.s[1], j))
    els = [kind.unwrap(e) for e in l]
    def look(j):
        r = els[-1] if els else None
        for k in range(len(els) - 2, -1, -1):
            r = z3.If(j == k, els[k], r)
        return r
    return z3.IntVal(len(els)), look

def list_eq_z(a, b):
    k = a.s[2] if a.s is not None else b.s[2]
    na, fa = to_sym_parts(a, k)
    nb, fb = to_sym_parts(b, k)
    j = z3.Int('j!eq')
    if (a.s is None and list.__len__(a) == 0) or (b.s is None and list.__len__(b) == 0):
        return na == nb
    return z3.And(na == nb, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < na), fa(j) == fb(j))))

def sym_concat(a, b):
    k = a.s[2] if isinstance(a, VList) and a.s is not None else b.s[2]
    na, fa = to_sym_parts(a, k)
    nb, fb = to_sym_parts(b, k)
    c = ctx()
    new = c.fresh(z3.ArraySort(I, k.sort), 'cat')
    j = z3.Int('j!cat')
    if fa(j) is not None:
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < na), new[j] == fa(j)), patterns=[new[j]]))
    if fb(j) is not None:
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= na, j < na + nb), new[j] == fb(j - na)), patterns=[new[j]]))
    return VList.symbolic(na + nb, new, k)
