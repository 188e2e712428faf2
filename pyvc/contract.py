"""Contracts and the three ways they are used:
  prove(unbounded)  - symbolic arguments of unbounded size, loops cut at sidecar invariants
  prove(sized)      - same contract, list lengths fixed (every length up to the stated bound), loops unrolled;
                      gives concrete counter-models
  check(concrete)   - the same pre/postcondition evaluated on the real function over an enumerated domain
Pre/postconditions are written once, over values that may be symbolic or concrete.
"""
import itertools, random, time, traceback, importlib, sys
from .z3load import z3
from . import core, hooks
from .core import SInt, SBool, SReal, SStr, VList, Unsupported, PathEnd, ctx, zi, zs, tobool_z3, Ctx, KINT, KOPT, KSTR, I

# ---------------------------------------------------------------- dual-mode logic
def _issym(x): return isinstance(x, (SBool, SInt, SReal)) or z3.is_expr(x)
def And(*xs):
    zs_ = []
    for x in xs:
        if callable(x) and not z3.is_expr(x):
            x = x()
        if isinstance(x, SBool) or z3.is_expr(x):
            zs_.append(tobool_z3(x))
        elif not x:
            return False
    return True if not zs_ else SBool(z3.And(*zs_))
def Or(*xs):
    zs_ = []
    for x in xs:
        if callable(x) and not z3.is_expr(x):
            x = x()
        if isinstance(x, SBool) or z3.is_expr(x):
            zs_.append(tobool_z3(x))
        elif x:
            return True
    return False if not zs_ else SBool(z3.Or(*zs_))
def Not(x):
    if isinstance(x, SBool) or z3.is_expr(x):
        return SBool(z3.Not(tobool_z3(x)))
    return not x
def Implies(a, b):
    return Or(Not(a), b)
def Iff(a, b):
    if _issym(a) or _issym(b):
        return SBool(tobool_z3(a) == tobool_z3(b))
    return bool(a) == bool(b)
def Ite(c, a, b):
    if isinstance(c, SBool) or z3.is_expr(c):
        za, zb = zi(a), zi(b)
        if za is not None and zb is not None:
            return SInt(z3.If(tobool_z3(c), za, zb))
        return SBool(z3.If(tobool_z3(c), tobool_z3(a), tobool_z3(b)))
    return a if c else b
def Len(l):
    if isinstance(l, VList):
        return l.vlen()
    return len(l)
def At(l, i):
    """total indexing: the element at index i (0 <= i < len is the caller's business)"""
    if isinstance(l, VList) and l.s is not None:
        return l.at(i)
    if isinstance(i, SInt):
        els = list(l)
        if not els:
            return 0
        r = els[-1]
        for k in range(len(els) - 2, -1, -1):
            r = Ite(SBool(i.z == k), els[k], r)
        return r
    return list.__getitem__(l, i) if isinstance(l, VList) else l[i]
_q = [0]
def ForAll(n, f):
    """for all i in [0,n): f(i)"""
    z = zi(n)
    if isinstance(n, SInt) and not z3.is_int_value(z3.simplify(z)):
        _q[0] += 1
        i = z3.Int('q!%d' % _q[0])
        return SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < z), tobool_z3(f(SInt(i))))))
    n = z3.simplify(z).as_long() if isinstance(n, SInt) else int(n)
    return And(*[f(i) for i in range(n)])
def Exists(n, f):
    return Not(ForAll(n, lambda i: Not(f(i))))
def raw_opt(l, i):
    """element of an optional-int list without forking: (is_none, value)"""
    if isinstance(l, VList) and l.s is not None and l.s[2] is KOPT:
        e = z3.Select(l.s[1], zi(i))
        return SBool(core.OptIntSort.is_none(e)), SInt(core.OptIntSort.val(e))
    v = At(l, i) if not isinstance(i, SInt) else None
    if isinstance(i, SInt):
        els = list(l)
        isn, val = z3.BoolVal(False), z3.IntVal(0)
        for k in range(len(els) - 1, -1, -1):
            c = i.z == k
            isn = z3.If(c, z3.BoolVal(els[k] is None), isn)
            val = z3.If(c, zi(els[k]) if els[k] is not None else z3.IntVal(0), val)
        return SBool(isn), SInt(val)
    return (v is None), (0 if v is None else v)

# ---------------------------------------------------------------- argument domains
class Dom:
    def sym(self, c, name, size): raise NotImplementedError
    def enum(self): raise NotImplementedError
class Const(Dom):
    def __init__(self, v): self.v = v
    def sym(self, c, name, size): return self.v
    def enum(self): return [self.v]
    def decode(self, v): return lambda m: v
class Int(Dom):
    def __init__(self, lo=None, hi=None, vals=(-1, 0, 1, 2, 3)):
        self.lo, self.hi, self.vals = lo, hi, vals
    def sym(self, c, name, size):
        z = c.fresh(I, name)
        if self.lo is not None: c.assume(z >= self.lo)
        if self.hi is not None: c.assume(z <= self.hi)
        return SInt(z)
    def enum(self): return list(self.vals)
    def decode(self, v): return lambda m: m.eval(v.z, model_completion=True).as_long()
class Bool(Dom):
    def sym(self, c, name, size): return SBool(c.fresh(z3.BoolSort(), name))
    def enum(self): return [False, True]
    def decode(self, v): return lambda m: z3.is_true(m.eval(v.z, model_completion=True))
class OneOf(Dom):
    """finite concrete choice: explored exhaustively in every mode"""
    def __init__(self, vals): self.vals = list(vals)
    def sym(self, c, name, size):
        for v in self.vals[:-1]:
            if c.choose():
                return v
        return self.vals[-1]
    def enum(self): return list(self.vals)
    def decode(self, v): return lambda m: v
class Opt(Dom):
    def __init__(self, d): self.d = d
    def sym(self, c, name, size):
        if c.choose():
            return None
        return self.d.sym(c, name, size)
    def enum(self): return [None] + self.d.enum()
    def decode(self, v): return (lambda m: None) if v is None else self.d.decode(v)
class OptInt(Dom):
    """element domain: int or None (inside lists)"""
    kind = KOPT
    def __init__(self, lo=None, hi=None, vals=(None, 1, 2, 3)):
        self.lo, self.hi, self.vals = lo, hi, vals
    def sym(self, c, name, size):
        if c.choose():
            return None
        return Int(self.lo, self.hi).sym(c, name, size)
    def enum(self): return list(self.vals)
    def decode(self, v): return (lambda m: None) if v is None else (lambda m: m.eval(v.z, model_completion=True).as_long())
class ListOf(Dom):
    """list of ints (optionally int-or-None); unbounded when size is None, else of length exactly `size(name)`"""
    def __init__(self, el, minlen=0, maxlen=4, enum_maxlen=3, unbounded=True, as_tuple=False):
        self.el, self.minlen, self.maxlen, self.enum_maxlen, self.unbounded = el, minlen, maxlen, enum_maxlen, unbounded
    def sym(self, c, name, size):
        if size is None and self.unbounded:
            n = c.fresh(I, 'len_' + name)
            c.assume(n >= self.minlen)
            kind = getattr(self.el, 'kind', KINT)
            a = c.fresh(z3.ArraySort(I, kind.sort), name)
            if kind is KINT:
                j = z3.Int('j!dom')
                if self.el.lo is not None: c.assume(z3.ForAll([j], a[j] >= self.el.lo, patterns=[a[j]]))
                if self.el.hi is not None: c.assume(z3.ForAll([j], a[j] <= self.el.hi, patterns=[a[j]]))
            elif kind is KOPT:
                j = z3.Int('j!dom')
                v = core.OptIntSort.val(a[j])
                if self.el.lo is not None: c.assume(z3.ForAll([j], z3.Implies(core.OptIntSort.is_some(a[j]), v >= self.el.lo), patterns=[a[j]]))
                if self.el.hi is not None: c.assume(z3.ForAll([j], z3.Implies(core.OptIntSort.is_some(a[j]), v <= self.el.hi), patterns=[a[j]]))
            return VList.symbolic(n, a, kind)
        n = OneOf(range(self.minlen, self.maxlen + 1)).sym(c, name, size)
        return VList([self.el.sym(c, '%s_%d' % (name, k), size) for k in range(n)])
    def enum(self):
        return [list(t) for n in range(self.minlen, self.enum_maxlen + 1) for t in itertools.product(self.el.enum(), repeat=n)]
    def decode(self, v):
        if v.s is None:
            ds = [self.el.decode(e) for e in list.__iter__(v)]
            return lambda m: [d(m) for d in ds]
        n0, arr, kind = v.s
        def d(m):
            n = m.eval(n0, model_completion=True).as_long()
            if n > 40:
                raise ValueError('model list too long')
            out = []
            for k in range(n):
                e = m.eval(arr[k], model_completion=True)
                if kind is KINT:
                    out.append(e.as_long())
                else:
                    out.append(None if z3.is_true(z3.simplify(core.OptIntSort.is_none(e))) else z3.simplify(core.OptIntSort.val(e)).as_long())
            return out
        return d

def lemma(name, cond):
    """an auxiliary fact: discharged as an obligation of its own, then available"""
    c = ctx()
    z = tobool_z3(cond)
    if c.prove('lemma ' + name, cond) is not False:
        c.assume(z)
def euclid(c, q, k):
    """(c*k+q) div k = c and (c*k+q) mod k = q whenever 0 <= q < k"""
    lemma('euclidean division', SBool(z3.Implies(z3.And(q >= 0, q < k), z3.And((c * k + q) / k == c, (c * k + q) % k == q))))

class Result:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
    def __repr__(self):
        return 'raises %r' % self.exc if self.exc is not None else 'returns %r' % (self.value,)

class A(dict):
    __getattr__ = dict.__getitem__

def snap(v):
    if isinstance(v, VList):
        return v.copy() if v.s is not None else VList([snap(e) for e in list.__iter__(v)])
    if isinstance(v, list):
        return [snap(e) for e in v]
    return v

class Contract:
    def __init__(self, name, fn, params, post, pre=None, modes=('unbounded', 'sized'), loops=None, covers=(), extra=(),
                 native_pairs=None, note='', enum=None, timeout=20000, call=None):
        """fn: 'module:qualname'; params: {name: Dom}; post(a, r, old) -> list of (obligation name, condition)
        a: arguments after the call, old: a snapshot from before, r: Result; covers: names that post() marks reached
        call(f, a): how to invoke (default f(**a) positionally in order)"""
        self.name, self.fn, self.params, self.post, self.pre = name, fn, params, post, pre or (lambda a: True)
        self.modes, self.loops, self.covers, self.enum_, self.timeout = modes, loops or {}, covers, enum, timeout
        self.call, self.note = call, note
    def resolve(self):
        mod, q = self.fn.split(':')
        o = importlib.import_module(mod)
        for p in q.split('.'):
            o = getattr(o, p)
        return o

def _invoke(con, f, args):
    if con.call:
        return con.call(f, args)
    return f(*args.values())

class ProofResult:
    def __init__(self, con, mode):
        self.contract, self.mode = con, mode
        self.status = None       # proved | refuted | undecided
        self.reason = ''
        self.obligations = []
        self.failed = []
        self.paths = 0
        self.solver_s = self.wall = 0.0
        self.assumed = []
        self.covers = set()
    def summary(self):
        by = {}
        for o in self.obligations:
            if o.status == 'discharged':
                by[o.backend] = by.get(o.backend, 0) + 1
        return dict(contract=self.contract.name, function=self.contract.fn, mode=self.mode, status=self.status, reason=self.reason[:300],
                    paths=self.paths, obligations=len(self.obligations),
                    discharged=sum(o.status == 'discharged' for o in self.obligations), by_backend=by,
                    solver_s=round(self.solver_s, 2), wall_s=round(self.wall, 2), assumed=sorted(self.assumed))

def prove(con, mode, deadline=None):
    """mode: 'unbounded' | 'sized'"""
    res = ProofResult(con, mode)
    t0 = time.time()
    c = Ctx(timeout_ms=con.timeout, deadline=deadline)
    size = None if mode == 'unbounded' else True
    if mode == 'unbounded':
        for k, l in con.loops.items():
            hooks.LOOPS[k] = l
        c.no_cut = False
    else:
        c.no_cut = True
    reached = set()
    sane = [False]
    def run():
        f = con.resolve()
        args = A()
        for p, d in con.params.items():
            args[p] = d.sym(c, p, size)
        c.assume(tobool_z3(con.pre(args)))
        if c.check() == z3.unsat:
            raise PathEnd('precondition')
        for p, d in con.params.items():
            if hasattr(d, 'decode'):
                c.inputs[p] = d.decode(snap(args[p]) if isinstance(args[p], VList) else args[p])
        old = A({k: snap(v) for k, v in args.items()})
        try:
            r = Result(value=_invoke(con, f, args))
        except Exception as e:
            r = Result(exc=e)
            if isinstance(e, (z3.Z3Exception,)):
                raise Unsupported('engine: %r' % e)
        c.covers.add('raised' if r.exc is not None else 'returned')
        r.cover = lambda nm: c.covers.add(nm)
        if c.pc and not sane[0]:
            # the conclusion False must not be provable on a reached path (contradictory assumptions)
            if c.check() == z3.unsat:
                raise PathEnd('infeasible')
            sane[0] = True
        for nm, cond in con.post(args, r, old):
            c.prove('%s: %s' % (con.name, nm), cond, detail=repr(r)[:200])
    try:
        c.explore(run)
        res.status = 'proved'
    except Unsupported as e:
        res.status, res.reason = 'undecided', 'unsupported: %s' % e
    except RecursionError as e:
        res.status, res.reason = 'undecided', 'recursion'
    except Exception as e:
        res.status, res.reason = 'undecided', 'engine error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' + traceback.format_exc()[-400:]
    finally:
        for k in con.loops:
            hooks.LOOPS.pop(k, None)
    res.obligations, res.paths, res.solver_s = c.obl, c.paths, c.solver_s
    res.covers = c.covers
    res.assumed = list(c.assumed)
    res.wall = time.time() - t0
    res.failed = c.failed
    if res.status == 'proved':
        if not c.obl:
            res.status, res.reason = 'undecided', 'no obligation was generated'
        missing = [x for x in con.covers if x not in c.covers]
        if missing:
            res.status, res.reason = 'undecided', 'cover not reached: %s' % missing
    if c.failed:
        if any(o.status == 'failed' for o in c.failed):
            res.status = 'refuted'
        elif res.status == 'proved':
            res.status = 'undecided'
        res.reason = '; '.join('%s: %s' % (o.name, o.status) for o in c.failed[:3])
    return res

# ---------------------------------------------------------------- concrete evaluation of the same contract (real function)
def check_concrete(con, f, args):
    """-> None when the contract holds on this input (or the precondition excludes it), else a description"""
    a = A(args)
    try:
        if not con.pre(a):
            return None
    except Exception as e:
        return None
    old = A({k: snap(v) for k, v in a.items()})
    try:
        r = Result(value=_invoke(con, f, a))
    except Exception as e:
        r = Result(exc=e)
    r.cover = lambda nm: None
    for nm, cond in con.post(a, r, old):
        if isinstance(cond, SBool):
            cond = z3.is_true(z3.simplify(cond.z))
        if not cond:
            return '%s: on %s the function %s' % (nm, dict(old), r)
    return None

def enum_args(con, limit, seed):
    if con.enum_ is not None:
        yield from itertools.islice(con.enum_(random.Random(seed)), limit)
        return
    doms = {p: d.enum() for p, d in con.params.items()}
    total = 1
    for v in doms.values():
        total *= max(1, len(v))
    names = list(doms)
    if total <= limit:
        for t in itertools.product(*doms.values()):
            yield {k: snap(v) for k, v in zip(names, t)}
    else:
        rng = random.Random(seed)
        for _ in range(limit):
            yield {k: snap(rng.choice(v)) for k, v in doms.items()}
