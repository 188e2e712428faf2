"""Run-time hooks called by instrumented code.  On concrete values each is exactly the construct it replaces."""
import builtins, sys
from .z3load import z3
from . import core
from .core import (SInt, SBool, SReal, SStr, VList, Poison, Unsupported, PathEnd, ctx, zi, zr, zs, tobool_z3, is_sym,
                   KINT, KBOOL, KSTR, I, B)

LOOPS = {}        # (function key, ordinal) -> Loop contract
CONTRACTS = {}    # unused names kept for library dispatch
LIB = {}          # 'np.func' -> fn(real, *args) -> value or NotImplemented

def setattr_(obj, name, value):
    if core._ctx is not None:
        core._ctx.writes.append(('attr', obj, name))
    setattr(obj, name, value)

def vlist(x):
    return VList(x)
def vdict(x):
    return x
def vset(x):
    if any(isinstance(e, SStr) for e in x):
        return VList(x)
    return set(x)

# ------------------------------------------------------------------ symbolic iterables
class SymIter:
    """iterable of symbolic length: zlen() and at(zidx)"""
    def __iter__(self):
        raise Unsupported('iteration over a symbolic iterable outside an instrumented loop')
class SRange(SymIter):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
    def zlen(self):
        lo, hi = zi(self.lo), zi(self.hi)
        if self.step == 1:
            return z3.If(hi > lo, hi - lo, 0)
        if self.step == -1:
            return z3.If(lo > hi, lo - hi, 0)
        raise Unsupported('range step')
    def at(self, i):
        return SInt(zi(self.lo) + i * self.step)
    def __getitem__(self, i):
        return self.at(zi(i))
    def __contains__(self, x):
        if self.step != 1:
            raise Unsupported('in range')
        z = zi(x)
        return ctx().fork(z3.And(z >= zi(self.lo), z < zi(self.hi)))
class SListIter(SymIter):
    def __init__(self, l): self.l = l
    def zlen(self): return self.l.s[0]
    def at(self, i): return self.l.s[2].wrap(z3.Select(self.l.s[1], i))
class SEnum(SymIter):
    def __init__(self, it, start=0): self.it, self.start = it, start
    def zlen(self): return self.it.zlen()
    def at(self, i): return (SInt(z3.simplify(i + zi(self.start))), self.it.at(i))
class SZip(SymIter):
    def __init__(self, its): self.its = its
    def zlen(self):
        r = self.its[0].zlen()
        for it in self.its[1:]:
            n = it.zlen()
            r = z3.If(n < r, n, r)
        return r
    def at(self, i): return tuple(it.at(i) for it in self.its)
class SRev(SymIter):
    def __init__(self, it): self.it = it
    def zlen(self): return self.it.zlen()
    def at(self, i): return self.it.at(self.it.zlen() - 1 - i)
class CIter(SymIter):
    """concrete list seen as a symbolic iterable (inside zip with a symbolic one)"""
    def __init__(self, l): self.l = VList(l)
    def zlen(self): return z3.IntVal(list.__len__(self.l))
    def at(self, i): return self.l[SInt(z3.simplify(i))] if not z3.is_int_value(z3.simplify(i)) else self.l[z3.simplify(i).as_long()]

def sym_it(x):
    """SymIter for a symbolic iterable, None for an ordinary one"""
    if isinstance(x, SymIter):
        return x
    if isinstance(x, VList) and x.s is not None:
        return SListIter(x)
    f = getattr(type(x), '_vc_iter', None)
    if f is not None:
        return x._vc_iter()
    return None

# ------------------------------------------------------------------ sub-exploration (comprehension bodies)
def sub_explore(fn):
    """run fn on every path; -> [(condition, 'ok'|'exc', value)].  fn must not write to anything older."""
    c = ctx()
    saved = (c.decisions, c.pos, list(c.pc), c.solver)
    w0 = len(c.writes)
    res = []
    base_pc = len(c.pc)
    decs = []
    try:
        while True:
            c.decisions, c.pos = decs, 0
            c.pc = list(saved[2])
            s = z3.Solver(); s.set('timeout', c.timeout)
            for a in c.pc:
                s.add(a)
            c.solver = s
            try:
                try:
                    v = ('ok', fn())
                except Exception as e:
                    v = ('exc', e)
                pcs = c.pc[base_pc:]
                res.append((z3.And(*pcs) if pcs else z3.BoolVal(True), v[0], v[1]))
            except PathEnd:
                pass
            if len(c.writes) != w0:
                raise Unsupported('comprehension body with side effects')
            decs = c.decisions
            while decs and not decs[-1][1]:
                decs.pop()
            if not decs:
                break
            v, _, tag = decs[-1]
            decs[-1] = (not v, False, tag)
            if len(res) > 200:
                raise Unsupported('too many paths in a comprehension body')
    finally:
        c.decisions, c.pos, c.pc, c.solver = saved
    return res

def unpack(st, x):
    if st == 0:
        return [x]
    out = []
    vals = list(x)
    if len(vals) != len(st):
        raise ValueError('unpack')
    for s, v in zip(st, vals):
        out += unpack(s, v)
    return out

def kind_of(v):
    if isinstance(v, (SBool, bool)):
        return KBOOL
    if zi(v) is not None:
        return KINT
    if zs(v) is not None:
        return KSTR
    k = getattr(v, '_vc_kind', None)
    if k is not None:
        return k
    raise Unsupported('no kind for %r' % (v,))

def map_paths(it, st, fn, cond=None):
    """paths of the body for an arbitrary index; returns (idx const, n, paths)"""
    c = ctx()
    i = c.fresh(I, 'i')
    n = it.zlen()
    def body():
        c.assume(z3.And(i >= 0, i < n))
        x = unpack(st, it.at(i))
        if cond is not None and not cond(*x):
            return ('skip',)
        return ('val', fn(*x))
    return i, n, sub_explore(body)

def listcomp(it, st, fn, cond):
    s = sym_it(it)
    if s is None:
        if st == 0:
            if cond is None:
                return VList([fn(x) for x in it])
            return VList([fn(x) for x in it if cond(x)])
        return VList([fn(*unpack(st, x)) for x in it if cond is None or cond(*unpack(st, x))])
    if cond is not None:
        raise Unsupported('filtering comprehension over a symbolic list')
    c = ctx()
    i, n, paths = map_paths(s, st, fn)
    vals = [(p, v) for p, k, v in paths if k == 'ok']
    for p, k, e in paths:
        if k == 'exc':
            if c.fork(z3.Exists([i], z3.And(i >= 0, i < n, p))):
                raise e
    if not vals:
        return VList([])
    ks = []
    for p, v in vals:
        k = kind_of(v[1]) if v[1] is not None else None
        ks.append(k)
    real = [k for k in ks if k is not None]
    if any(k is None for k in ks):
        opt = core.KOPT if not real or all(k is KINT for k in real) else getattr(real[0], 'opt', None)
        if opt is None or any(k is not real[0] for k in real):
            raise Unsupported('mixed comprehension values')
        kind = opt
    else:
        kind = real[0]
        if any(k is not kind for k in real):
            raise Unsupported('mixed comprehension values')
    arr = c.fresh(z3.ArraySort(I, kind.sort), 'map')
    for p, v in vals:
        c.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, p), arr[i] == kind.unwrap(v[1])), patterns=[arr[i]]))
    return VList.symbolic(n, arr, kind)

class LazyGen:
    def __init__(self, it, st, fn, cond):
        self.it, self.st, self.fn, self.cond = it, st, fn, cond
        self.sym = sym_it(it)
    def __iter__(self):
        if self.sym is not None:
            raise Unsupported('generator over a symbolic list')
        st, fn, cond = self.st, self.fn, self.cond
        for x in self.it:
            a = unpack(st, x)
            if cond is None or cond(*a):
                yield fn(*a)
    def quant(self, universal):
        c = ctx()
        i, n, paths = map_paths(self.sym, self.st, self.fn, self.cond)
        cs = []
        for p, k, v in paths:
            if k == 'exc':
                raise Unsupported('exception inside a quantified generator')
            if v[0] == 'skip':
                continue
            b = v[1]
            b = tobool_z3(b) if isinstance(b, (bool, SBool)) else z3.BoolVal(bool(b)) if not isinstance(b, SInt) else b.z != 0
            cs.append(z3.Implies(p, b) if universal else z3.And(p, b))
        rng = z3.And(i >= 0, i < n)
        if universal:
            return SBool(z3.ForAll([i], z3.Implies(rng, z3.And(*cs) if cs else z3.BoolVal(True))))
        return SBool(z3.Exists([i], z3.And(rng, z3.Or(*cs) if cs else z3.BoolVal(False))))

def genexp(it, st, fn, cond):
    return LazyGen(it, st, fn, cond)
def setcomp(it, st, fn, cond):
    if sym_it(it) is not None:
        raise Unsupported('set comprehension over a symbolic iterable')
    return {fn(*unpack(st, x)) for x in it if cond is None or cond(*unpack(st, x))}
def dictcomp(it, st, fn, cond):
    f = getattr(type(it), '_vc_dictcomp', None)
    if f is not None:
        return it._vc_dictcomp(st, fn, cond)
    if sym_it(it) is not None:
        raise Unsupported('dict comprehension over a symbolic iterable')
    r = {}
    for x in it:
        a = unpack(st, x)
        if cond is None or cond(*a):
            k, v = fn(*a)
            r[k] = v
    return r

# ------------------------------------------------------------------ loops
class Plain:
    __slots__ = ('it',)
    cut = False
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)
class PlainWhile:
    __slots__ = ('n',)
    cut = False
    def __init__(self): self.n = 0
    def step(self):
        if core._ctx is not None:
            self.n += 1
            if self.n > 5000:
                raise Unsupported('loop without a contract does not terminate within 5000 iterations on this path')
        return True
_PW = None

class Loop:
    """sidecar loop contract.
    inv(L) -> condition, over L.k (iterations done), L.n, L.now(name), L.old(name), L.acc (the one list the body builds)
    kinds: {name: Kind} for havoced scalars whose type changes; acc_kind: element kind of the built list
    modifies(L) -> list of heap regions (objects with _vc_havoc) the body may write
    """
    def __init__(self, inv, kinds=None, acc_kind=None, modifies=None, name='', variant=None):
        self.inv, self.kinds, self.acc_kind, self.modifies, self.name, self.variant = inv, kinds or {}, acc_kind, modifies, name, variant

UNBOUND = object()

class Cut:
    cut = True
    def __init__(self, key, no, spec, it, names, muts, loc):
        self.key, self.no, self.spec, self.it, self.names, self.muts = key, no, spec, it, names, muts
        loc = {k: v for k, v in loc.items() if not k.startswith('_vc_t')}
        self.entry = dict(loc)
        self.c = ctx()
        self.c.used_cut = True
        self.label = '%s#loop%d' % (key, no)
        self.n = it.zlen() if it is not None else None
        self.acc = None
        cands = [nm for nm in muts if isinstance(loc.get(nm), VList)]
        self.acc_names = cands
        self.ghost = {}
        self.k = z3.IntVal(0)
        self.loc = loc
        # snapshot heap/list state at entry
        self.acc_entry = {nm: loc[nm].copy() for nm in cands}
        self.regions = spec.modifies(self) if spec.modifies else []
        self.region_entry = [r._vc_snapshot() for r in self.regions]
        self.c.prove(self.label + ':invariant holds on entry', self._inv(loc), decode=True)
        # havoc
        self.k = self.c.fresh(I, 'k')
        self.c.assume(self.k >= 0)
        if self.n is not None:
            self.c.assume(self.k <= self.n)
        for nm in cands:
            l = loc[nm]
            kind = l.s[2] if l.s is not None else spec.acc_kind
            if kind is None:
                raise Unsupported('%s: list %s built in the loop, contract gives no element kind' % (self.label, nm))
            nn = self.c.fresh(I, 'len_' + nm)
            self.c.assume(nn >= 0)
            l.set_sym(nn, self.c.fresh(z3.ArraySort(I, kind.sort), nm), kind)
        for r in self.regions:
            r._vc_havoc()
        self.allowed = [id(loc[nm]) for nm in cands] + [id(r) for r in self.regions]
    def havoc(self, name, loc):
        v = loc.get(name, UNBOUND)
        if name in self.acc_names:
            return v
        if v is UNBOUND:
            return Poison('variable %s bound only inside a loop' % name)
        kind = self.spec.kinds.get(name)
        if kind is None:
            if isinstance(v, (bool, SBool)):
                kind = KBOOL
            elif zi(v) is not None:
                kind = KINT
            elif isinstance(v, (str, SStr)):
                kind = KSTR
            elif getattr(v, '_vc_kind', None) is not None:
                kind = v._vc_kind
            else:
                return Poison('variable %s reassigned inside a loop' % name)
        if kind == 'keep':
            return v
        return kind.wrap(self.c.fresh(kind.sort, name))
    def entered(self, loc):
        self.loc = {k: v for k, v in loc.items() if not k.startswith('_vc_t')}
        self.c.assume(self._inv(self.loc))
        self.w0 = len(self.c.writes)
        self.has_entered = True
        self.plain = [(o, _snap(o)) for o in _reach_objs(self.loc.values())]
    # -- view for invariants
    def now(self, name):
        v = self.loc.get(name, UNBOUND)
        if v is UNBOUND:
            raise Unsupported('%s: contract speaks of %r, which the loop does not have' % (self.label, name))
        return v
    def old(self, name):
        if name in self.acc_entry:
            return self.acc_entry[name]
        v = self.entry.get(name, UNBOUND)
        if v is UNBOUND:
            raise Unsupported('%s: contract speaks of %r, which the loop does not have' % (self.label, name))
        return v
    def the_acc(self):
        if len(self.acc_names) != 1:
            raise Unsupported('%s: %d lists are mutated in the loop, contract expects one' % (self.label, len(self.acc_names)))
        return self.loc[self.acc_names[0]]
    def the_acc_old(self):
        return self.acc_entry[self.acc_names[0]]
    def the_scalar(self, pred):
        c = [n for n in self.names if n in self.loc and n not in self.acc_names and pred(self.entry.get(n, UNBOUND))]
        if len(c) != 1:
            raise Unsupported('%s: cannot identify the loop variable the contract speaks of' % self.label)
        return self.loc[c[0]]
    def _inv(self, loc):
        self.loc = {k: v for k, v in loc.items() if not k.startswith('_vc_t')}
        try:
            return self.spec.inv(self)
        except (KeyError, AttributeError, TypeError, IndexError) as e:
            raise Unsupported('%s: loop contract does not fit the loop (%r)' % (self.label, e))
    def _frame_check(self):
        for o, sn in self.plain:
            if _snap(o) != sn and id(o) not in self.allowed:
                raise Unsupported('%s: a %s is mutated inside the loop, not in its frame' % (self.label, type(o).__name__))
        for w in self.c.writes[self.w0:]:
            if isinstance(w, tuple) and w[0] == 'attr':
                if isinstance(w[1], core.VList) or id(w[1]) in self.allowed:
                    continue
                if getattr(w[1], '_vc_fresh_epoch', None) is not None:
                    continue
                raise Unsupported('%s: attribute %s written inside the loop, not in its frame' % (self.label, w[2]))
            if id(w) in self.allowed:
                continue
            if id(w) in self.born:
                continue
            # objects created after loop entry are fine; we cannot tell, unless they were reachable before: use entry ids
            if id(w) in self.entry_ids:
                raise Unsupported('%s: %r written inside the loop, not in its frame' % (self.label, type(w)))
    born = ()
    @property
    def entry_ids(self):
        return _reach(self.entry.values())
    def _end_iteration(self, loc):
        self._frame_check()
        v0 = None
        self.k = self.k + 1
        self.c.prove(self.label + ':invariant preserved', self._inv(loc), decode=True)
        raise PathEnd('loop cut')

def _snap(o):
    if isinstance(o, VList):
        return None
    if isinstance(o, dict):
        return [(id(k), id(v)) for k, v in o.items()]
    if isinstance(o, set):
        return sorted(id(k) for k in o)
    return [id(k) for k in o]
def _reach_objs(vals):
    out = []
    _reach(vals, out)
    return out
def _reach(vals, out=None):
    seen = set()
    todo = list(vals)
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, (int, str, float, bool, type(None), SInt, SBool, SStr, SReal)):
            continue
        seen.add(id(v))
        if out is not None and isinstance(v, (list, dict, set)) and not isinstance(v, VList):
            out.append(v)
        if isinstance(v, VList):
            if v.s is None:
                todo.extend(list.__iter__(v))
        elif isinstance(v, (list, tuple, set)):
            todo.extend(v)
        elif isinstance(v, dict):
            todo.extend(v.values())
        elif hasattr(v, '__dict__') and not isinstance(v, type) and len(seen) < 5000:
            todo.extend(vars(v).values())
    return seen

class ForCut(Cut):
    def __iter__(self):
        if not getattr(self, 'has_entered', False):
            # loop assigns no local at all
            fr = sys._getframe(1)
            self.entered(fr.f_locals)
        c = self.c
        if c.choose():
            # one arbitrary iteration
            c.assume(self.k < self.n)
            if c.check() == z3.unsat:
                raise PathEnd('no iteration')
            c.covers.add(self.label + ':iteration')
            yield self.it.at(self.k)
            self._end_iteration(sys._getframe(1).f_locals)
        else:
            c.assume(self.k == self.n)
            if c.check() == z3.unsat:
                raise PathEnd('no exit')
            c.covers.add(self.label + ':exit')
            return
class WhileCut(Cut):
    started = False
    def step(self):
        if not getattr(self, 'has_entered', False):
            self.entered(sys._getframe(1).f_locals)
        if not self.started:
            self.started = True
            if self.spec.variant is not None:
                self.v0 = zi(self.spec.variant(self))
            self.c.covers.add(self.label + ':iteration')
            return True
        loc = sys._getframe(1).f_locals
        if self.spec.variant is not None:
            self.loc = {k: v for k, v in loc.items() if not k.startswith('_vc_t')}
            v1 = zi(self.spec.variant(self))
            self.c.prove(self.label + ':variant decreases', z3.And(v1 < self.v0, self.v0 >= 0))
        self._end_iteration(loc)

def for_begin(key, no, it, names, muts, loc):
    if core._ctx is None:
        return Plain(it)
    s = sym_it(it)
    if s is None:
        return Plain(it)
    if z3.is_int_value(z3.simplify(s.zlen())):
        n = z3.simplify(s.zlen()).as_long()
        return Plain([s.at(z3.IntVal(k)) for k in range(n)])
    spec = LOOPS.get((key, no))
    if spec is None:
        spec = _auto(key, no, s, names, muts, loc)
    return ForCut(key, no, spec, s, names, muts, loc)

def _auto(key, no, s, names, muts, loc):
    raise Unsupported('%s#loop%d iterates over a symbolic list and has no contract' % (key, no))

def while_begin(key, no, names, muts, loc):
    if core._ctx is None:
        return PlainWhile()
    spec = LOOPS.get((key, no))
    if spec is None or getattr(core._ctx, 'no_cut', False):
        return PlainWhile()
    return WhileCut(key, no, spec, None, names, muts, loc)

# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, VList):
        return x.vlen()
    if isinstance(x, SymIter):
        return SInt(x.zlen())
    f = getattr(type(x), '_vc_len', None)
    if f is not None:
        return x._vc_len()
    return len(x)
def b_isinstance(x, t):
    if isinstance(x, (SInt, SBool, SReal, SStr)):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        def fl(q):
            for y in q:
                if isinstance(y, tuple): fl(y)
                else: flat.append(y)
        fl(ts)
        import numbers
        if isinstance(x, SInt):
            return any(q in (int, object, numbers.Number, numbers.Integral, numbers.Real) for q in flat)
        if isinstance(x, SBool):
            return any(q in (int, bool, object) for q in flat)
        if isinstance(x, SReal):
            return any(q in (float, object) for q in flat)
        return any(q in (str, object) for q in flat)
    r = isinstance(x, t)
    if not r:
        f = getattr(type(x), '_vc_isinstance', None)
        if f is not None:
            ts = t if isinstance(t, tuple) else (t,)
            return any(f(x, q) for q in ts)
    return r
def b_range(*a):
    if any(isinstance(x, (SInt, SBool)) for x in a):
        z = [zi(x) for x in a]
        sz = [z3.simplify(x) for x in z]
        if all(z3.is_int_value(x) for x in sz):
            return range(*[x.as_long() for x in sz])
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(st, SInt):
            st = st.__index__()
        if st in (1, -1):
            return SRange(lo, hi, st)
        return range(*[x.__index__() if isinstance(x, (SInt, SBool)) else x for x in a])
    return range(*a)
def b_enumerate(it, start=0):
    s = sym_it(it)
    if s is None:
        return enumerate(it, start)
    return SEnum(s, start)
def b_zip(*its):
    ss = [sym_it(x) for x in its]
    if all(s is None for s in ss):
        return zip(*its)
    return SZip([s if s is not None else CIter(list(x)) for s, x in zip(ss, its)])
def b_reversed(x):
    s = sym_it(x)
    return reversed(x) if s is None else SRev(s)
def b_sorted(it, **k):
    if sym_it(it) is not None:
        raise Unsupported('sorted() of a symbolic list')
    return VList(sorted(it, **k))
def _minmax(a, k, ismin):
    f = min if ismin else max
    if len(a) == 1 and not k:
        if sym_it(a[0]) is not None:
            raise Unsupported('min/max of symbolic list')
        a = list(a[0])
    if k or not any(isinstance(x, (SInt, SReal)) for x in a):
        return f(*a, **k) if len(a) != 1 else f(a, **k)
    r = a[0]
    for x in a[1:]:
        zx, zr_ = zi(x), zi(r)
        if zx is not None and zr_ is not None:
            r = SInt(z3.If(zx < zr_, zx, zr_) if ismin else z3.If(zx > zr_, zx, zr_))
        else:
            p, q = zr(x), zr(r)
            if p is None or q is None:
                raise TypeError("'<' not supported")
            r = SReal(z3.If(p < q, p, q) if ismin else z3.If(p > q, p, q))
    return r
def b_min(*a, **k): return _minmax(a, k, True)
def b_max(*a, **k): return _minmax(a, k, False)
def b_sum(it, start=0):
    if sym_it(it) is not None or (isinstance(it, LazyGen) and it.sym is not None):
        raise Unsupported('sum of symbolic list')
    return sum(it, start)
def b_any(it):
    if isinstance(it, LazyGen) and it.sym is not None:
        return it.quant(False)
    s = sym_it(it)
    if s is not None:
        return LazyGen(it, 0, lambda x: x, None).quant(False)
    for x in it:
        if x:
            return True
    return False
def b_all(it):
    if isinstance(it, LazyGen) and it.sym is not None:
        return it.quant(True)
    s = sym_it(it)
    if s is not None:
        return LazyGen(it, 0, lambda x: x, None).quant(True)
    for x in it:
        if not x:
            return False
    return True
def b_int(*a, **k):
    if len(a) == 1 and isinstance(a[0], (SInt, SBool, SReal)):
        x = a[0]
        return x if isinstance(x, SInt) else SInt(zi(x)) if isinstance(x, SBool) else x.__trunc__()
    if len(a) == 1 and getattr(type(a[0]), '_vc_scalar', None):
        return b_int(a[0]._vc_scalar())
    return int(*a, **k)
def b_float(*a):
    if len(a) == 1 and isinstance(a[0], SInt):
        return SReal(z3.ToReal(a[0].z))
    if len(a) == 1 and isinstance(a[0], SReal):
        return a[0]
    return float(*a)
def b_bool(*a):
    if len(a) == 1 and isinstance(a[0], SBool):
        return a[0]
    return bool(*a)
def b_round(x, *a):
    if isinstance(x, SInt): return x
    if isinstance(x, SReal): raise Unsupported('round')
    return round(x, *a)
def b_abs(x): return abs(x)
def b_str(*a, **kw):
    if kw:
        return str(*a, **kw)
    if len(a) == 1 and isinstance(a[0], SStr):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SInt):
        return SStr(_int2str(a[0].z))
    return str(*a)
_int2str = z3.Function('str.ofint', I, core.STR)
def b_list(*a):
    if not a:
        return VList()
    x = a[0]
    if isinstance(x, VList):
        return x.copy()
    f = getattr(type(x), '_vc_tolist', None)
    if f is not None:
        return x._vc_tolist()
    s = sym_it(x)
    if s is not None:
        return listcomp(s, 0, lambda v: v, None)
    if isinstance(x, LazyGen) and x.sym is not None:
        return listcomp(x.it, x.st, x.fn, x.cond)
    return VList(*a)
def b_tuple(*a):
    if a:
        s = sym_it(a[0])
        if s is not None:
            return b_list(a[0])
    return tuple(*a)
def b_set(*a):
    if a:
        f = getattr(type(a[0]), '_vc_toset', None)
        if f is not None:
            return a[0]._vc_toset()
        if sym_it(a[0]) is not None:
            from . import heap
            return heap.set_of_list(a[0])
    return set(*a)
def b_frozenset(*a): return frozenset(*a)
def b_dict(*a, **k): return dict(*a, **k)
def b_map(f, *its):
    if any(sym_it(x) is not None for x in its):
        if len(its) == 1:
            return listcomp(its[0], 0, f, None)
        raise Unsupported('map over symbolic lists')
    return map(f, *its)
def b_filter(f, it):
    if sym_it(it) is not None:
        raise Unsupported('filter over symbolic list')
    return filter(f, it)
def b_iter(*a): return iter(*a)
def b_next(*a): return next(*a)
def b_type(x):
    if isinstance(x, SInt): return int
    if isinstance(x, SBool): return bool
    if isinstance(x, SStr): return str
    if isinstance(x, SReal): return float
    if isinstance(x, VList): return list
    return type(x)
def b_hasattr(o, n):
    return hasattr(o, n)

def mod_(a, b):
    if isinstance(a, str):
        try:
            return a % b
        except (Unsupported, PathEnd):
            return a
        except TypeError:
            if _has_sym(b):
                return a
            raise
    return a % b
def _has_sym(x, d=3):
    if is_sym(x) or isinstance(x, Poison):
        return True
    if d and isinstance(x, (list, tuple)):
        return any(_has_sym(y, d - 1) for y in list.__iter__(x)) if isinstance(x, list) else any(_has_sym(y, d - 1) for y in x)
    return getattr(type(x), '_vc_sym', False)

def libcall(name, real, *a, **k):
    if core._ctx is None:
        return real(*a, **k)
    f = LIB.get(name)
    if f is not None:
        r = f(real, *a, **k)
        if r is not NotImplemented:
            return r
    if any(_has_sym(x) for x in a) or any(_has_sym(x) for x in k.values()):
        raise Unsupported('%s on symbolic values' % name)
    return real(*a, **k)

def _lib(name):
    def d(f):
        LIB[name] = f
        return f
    return d
@_lib('math.ceil')
def _(real, x):
    return x.__ceil__() if isinstance(x, (SInt, SReal)) else NotImplemented
@_lib('math.floor')
def _(real, x):
    return x.__floor__() if isinstance(x, (SInt, SReal)) else NotImplemented
@_lib('copy.deepcopy')
def _(real, x, *a):
    if isinstance(x, (SInt, SBool, SStr, SReal)):
        return x
    return real(x, *a)
