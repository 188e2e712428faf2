"""C01: shape reconciliation (merge / compatible / equal / broadcast) agrees with the shapes it is given."""
from pyvc.contract import *
from pyvc.hooks import Loop

TRUSTED = ['CPython executing the instrumented source', 'pyvc path explorer, list model and instrumentation', 'z3 4.x / cvc5 1.1.2']
ASSUMPTIONS = ['python ints are mathematical integers (exact)', 'dimensions are ints or None (string dimension names are covered by the enumerated inputs only)',
               'broadcast inference with an input of unknown rank is outside the contract (legacy heuristic: the other shape is taken)']
EXPLANATION = ('every function is executed symbolically on shapes of arbitrary rank and arbitrary (possibly unknown) dimensions, loops cut at invariants; '
               'the same contracts are then discharged for every rank up to 4 with unrolled loops, and evaluated on the real functions over an enumerated domain')
BOUNDED_NOTE = 'contract_inputs: concrete evaluations of the same contracts on the uninstrumented functions (rank <= 3, dims in None,-1,0,1,2,3,name)'

DIM = OptInt(vals=(None, -1, 0, 1, 2, 3))
SHAPE = Opt(ListOf(DIM, maxlen=3, enum_maxlen=2))

def unk(d):
    """(unknown?, value) of a dimension: anything but a positive int is unknown"""
    isn, v = d
    return Or(isn, lambda: isinstance(v, str), lambda: v <= 0)
def dim(l, i): return raw_opt(l, i)
def same(p, q): return And(Iff(p[0], q[0]), Or(p[0], lambda: p[1] == q[1]))
def same_list(a, b):
    if a is None or b is None:
        return a is b is None
    return And(Len(a) == Len(b), lambda: ForAll(Len(a), lambda i: same(dim(a, i), dim(b, i))))

def merged(x, y, r):
    """r is the more specific of x and y"""
    return And(Implies(unk(x), lambda: same(r, y)), Implies(Not(unk(x)), lambda: same(r, x)))
def clash(x, y): return And(Not(unk(x)), lambda: And(Not(unk(y)), lambda: x[1] != y[1]))

def _implies(a, b): return Or(Not(a), b)
Implies = _implies

def post_unknown(a, r, old):
    d = old.dim
    yield 'no exception', r.exc is None
    yield 'unknown iff not a positive int', Iff(r.value, Or(d is None, lambda: isinstance(d, str), lambda: d <= 0))

def post_merge(a, r, old):
    s1, s2 = old.shape1, old.shape2
    if s1 is None or s2 is None:
        yield 'unknown rank is neutral', And(r.exc is None, lambda: same_list(r.value, s2 if s1 is None else s1))
        return
    n = Len(s1)
    ok = And(n == Len(s2), lambda: ForAll(n, lambda i: Not(clash(dim(s1, i), dim(s2, i)))))
    if r.exc is not None:
        yield 'fails only on contradictory shapes', And(isinstance(r.exc, ValueError), Not(ok))
    else:
        yield 'contradictory shapes are rejected', ok
        yield 'rank kept', Len(r.value) == n
        yield 'most specific dimension', Implies(ok, lambda: ForAll(n, lambda i: merged(dim(s1, i), dim(s2, i), dim(r.value, i))))
    yield 'arguments untouched', And(same_list(a.shape1, s1), lambda: same_list(a.shape2, s2))

def inv_merge(L):
    acc = L.the_acc()
    s1, s2 = L.now('shape1'), L.now('shape2')
    k = SInt(L.k)
    return And(Len(acc) == k, lambda: ForAll(k, lambda i: And(Not(clash(dim(s1, i), dim(s2, i))), merged(dim(s1, i), dim(s2, i), dim(acc, i)))))

def post_compat(a, r, old):
    s1, s2 = old.src, old.dest
    yield 'never raises', r.exc is None
    if s1 is None or s2 is None:
        yield 'unknown rank is compatible', r.value == True  # noqa
        return
    n = Len(s1)
    yield 'true iff no contradiction', Iff(r.value, And(n == Len(s2), lambda: ForAll(n, lambda i: Not(clash(dim(s1, i), dim(s2, i))))))

def post_equal(a, r, old):
    s1, s2 = old.src, old.dest
    yield 'never raises', r.exc is None
    if s1 is None or s2 is None:
        yield 'unknown rank equals only itself', Iff(r.value, s1 is None and s2 is None)
        return
    yield 'true iff identical', Iff(r.value, same_list(s1, s2))

def tf_merged(x, y, r):
    """nothing is recorded that one of the two shapes contradicts; what only one side knows is kept"""
    return And(Implies(x[0], lambda: same(r, y)), Implies(y[0], lambda: same(r, x)),
               Implies(And(Not(x[0]), Not(y[0])), lambda: Or(r[0], lambda: And(x[1] == y[1], r[1] == x[1]))))
def post_tfmerge(a, r, old):
    s1, s2 = old.shape1, old.shape2
    if s1 is None or s2 is None:
        yield 'unknown rank is neutral', And(r.exc is None, lambda: same_list(r.value, s2 if s1 is None else s1))
        return
    n = Len(s1)
    if r.exc is not None:
        yield 'fails only on different ranks', And(isinstance(r.exc, ValueError), n != Len(s2))
    else:
        yield 'different ranks are rejected', n == Len(s2)
        yield 'rank kept', Len(r.value) == n
        yield 'no contradicted dimension', Implies(n == Len(s2), lambda: ForAll(n, lambda i: tf_merged(dim(s1, i), dim(s2, i), dim(r.value, i))))
def inv_tfmerge(L):
    acc, s1, s2, k = L.the_acc(), L.now('shape1'), L.now('shape2'), SInt(L.k)
    return And(Len(acc) == k, lambda: ForAll(k, lambda i: tf_merged(dim(s1, i), dim(s2, i), dim(acc, i))))

# broadcasting; dimensions are None / -1 (unknown) or >= 0
def bunk(d): return Or(d[0], lambda: d[1] < 0)
def isv(d, v): return And(Not(bunk(d)), lambda: d[1] == v)
def bgood(x, y, z):
    """z is a sound (possibly unknown) broadcast of dimensions x and y"""
    known = And(Not(bunk(x)), Not(bunk(y)))
    eqz = lambda p: Or(bunk(z), lambda: same(z, p))
    return Or(And(isv(x, 1), lambda: Or(same(z, y), And(bunk(z), bunk(y)))),
              lambda: And(isv(y, 1), lambda: Or(same(z, x), And(bunk(z), bunk(x)))),
              lambda: And(known, x[1] == y[1], same(z, y)),
              lambda: And(bunk(x), bunk(y), bunk(z)),
              lambda: And(bunk(x), Not(bunk(y)), Not(isv(y, 1)), lambda: eqz(y)),
              lambda: And(bunk(y), Not(bunk(x)), Not(isv(x, 1)), lambda: eqz(x)))
def bclash(x, y):
    return And(Not(isv(x, 1)), Not(isv(y, 1)), Or(x[0], y[0], lambda: And(Not(bunk(x)), Not(bunk(y)), lambda: x[1] != y[1])))
def post_bcast(a, r, old):
    s, l = old.shape_0, old.shape_1
    if s is None or l is None:
        yield 'never raises', r.exc is None
        return
    if Len(s) > Len(l):
        s, l = l, s
    n, m = Len(s), Len(l)
    off = m - n
    yield 'never raises', r.exc is None
    if r.exc is not None:
        return
    if r.value is None:
        yield 'gives up only on a clash', Exists(n, lambda i: bclash(dim(s, i), dim(l, i + off)))
    else:
        yield 'rank is the larger rank', Len(r.value) == m
        yield 'leading dimensions come from the longer shape', Implies(Len(r.value) == m, lambda: ForAll(off, lambda i: same(dim(r.value, i), dim(l, i))))
        yield 'each dimension is the broadcast of the aligned dimensions', \
            Implies(Len(r.value) == m, lambda: ForAll(n, lambda i: bgood(dim(s, i), dim(l, i + off), dim(r.value, i + off))))
def inv_bcast(L):
    s, new, i = L.now('shape_0'), L.now('new_shape'), L.now('i')
    l = L.old('new_shape')
    n, m = Len(s), Len(l)
    off = m - n
    q = z3.Int('q!inv')
    Q = SInt(q)
    done = SBool(z3.ForAll([q], z3.Implies(z3.And(q > zi(i), q < zi(n)), tobool_z3(bgood(dim(s, Q), dim(l, Q + off), dim(new, Q + off))))))
    rest = SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= zi(i + off)), tobool_z3(same(dim(new, Q), dim(l, Q))))))
    return And(Len(new) == m, n <= m, i < n, i >= -1, done, rest)

def post_vague(a, r, old):
    yield 'never raises', r.exc is None
    yield 'same rank, all unknown', And(Len(r.value) == Len(old.shape), lambda: ForAll(Len(old.shape), lambda i: At(r.value, i) == -1))

def post_cirank(a, r, old):
    yield 'never raises', r.exc is None

def contracts():
    U = 'tf2onnx.utils:'
    S = 'tf2onnx.shape_inference:'
    anyd = lambda: Opt(ListOf(OptInt(vals=(None, -1, 0, 1, 2, 3, 'unk')), maxlen=3, enum_maxlen=2))
    return [
        Contract('unknown-dimension', U + 'is_unknown_dimension', dict(dim=OptInt(vals=(None, -2, -1, 0, 1, 2, 7, 'unk'))), post_unknown, covers=('returned',)),
        Contract('merge', U + 'merge_shapes', dict(shape1=anyd(), shape2=anyd()), post_merge, covers=('raised', 'returned'),
                 loops={(U + 'merge_shapes', 0): Loop(inv_merge, acc_kind=KOPT)}),
        Contract('compatible', U + 'are_shapes_compatible', dict(src=anyd(), dest=anyd()), post_compat, covers=('returned',),
                 loops={(U + 'merge_shapes', 0): Loop(inv_merge, acc_kind=KOPT)}),
        Contract('equal', U + 'are_shapes_equal', dict(src=anyd(), dest=anyd()), post_equal, covers=('returned',)),
        Contract('tf-merge', S + '_merge_shapes_for_tf', dict(shape1=anyd(), shape2=anyd()), post_tfmerge, covers=('raised', 'returned'),
                 loops={(S + '_merge_shapes_for_tf', 0): Loop(inv_tfmerge, acc_kind=KOPT)}),
        Contract('broadcast', S + 'broadcast_shape_inference', dict(shape_0=Opt(ListOf(OptInt(lo=-1, vals=(None, -1, 0, 1, 2, 3)), maxlen=3, enum_maxlen=2)),
                                                                    shape_1=Opt(ListOf(OptInt(lo=-1, vals=(None, -1, 0, 1, 2, 3)), maxlen=3, enum_maxlen=2))), post_bcast, covers=('returned',),
                 loops={(S + 'broadcast_shape_inference', 0): Loop(inv_bcast, variant=lambda L: L.now('i') + 1)}),
        Contract('vague', U + 'create_vague_shape_like', dict(shape=ListOf(Int(), maxlen=4)), post_vague, covers=('returned',)),
    ]
