"""C04: the graph's indices always agree with the graph."""
import itertools
import numpy as np
from pyvc.contract import *
from pyvc.z3load import z3
from pyvc.core import SInt, SBool, SStr, VList, Unsupported, ctx, zi as _zi, zs, STR, NODE, KSTR, I, B
from pyvc.hooks import Loop
from pyvc import graphsym as S

def zi(x): return x if z3.is_expr(x) else _zi(x)

STRUCTURAL = True        # the contracts speak of the graph's own tables: a counter-model names a table entry, and no replay exists
LEVEL = 'proof'
PROOF_SHARDS = 11
BOUNDED_SHARDS = 3
TRUSTED = ['CPython executing the instrumented methods of Graph', 'pyvc path explorer, list and table models and instrumentation', 'z3 4.x / cvc5 1.1.2']
ASSUMPTIONS = ['names are compared only for equality; a node keeps its name; distinct nodes of one graph have distinct names',
               'a method called by the method under proof is replaced by its own contract where that is stated (parent graph, find_output_consumers inside _unregister_input_name)',
               'Python exceptions raised by the assertions on argument types are outside the property']
EXPLANATION = ('each method of Graph that edits inputs or tables is executed on a node with any number of inputs and tables of any content, at an arbitrary tensor and an arbitrary other node: '
               'afterwards every input of the edited node has the node registered (no reader is ever lost), no entry of any other node changes (frame), and no entry appears that no input explains; '
               'these clauses together are inductive, so they hold after any sequence of edits.  Lookups are proved against the same tables')
BOUNDED_NOTE = ('edit_sequences: random sequences of graph edits over graphs with nested body graphs, run on the real Graph class and compared after every edit with a model that finds everything by scanning')
G = 'tf2onnx.graph:Graph.'

class Name(Dom):
    def sym(self, c, name, size): return SStr(c.fresh(STR, name))
    def enum(self): return ['a']
class Names(Dom):
    """list of names of any length (or of every length up to maxlen)"""
    def __init__(self, minlen=0, maxlen=3): self.minlen, self.maxlen = minlen, maxlen
    def sym(self, c, name, size):
        if size is None:
            n = c.fresh(I, 'len_' + name)
            c.assume(n >= self.minlen)
            return VList.symbolic(n, c.fresh(z3.ArraySort(I, STR), name), KSTR)
        n = OneOf(range(self.minlen, self.maxlen + 1)).sym(c, name, size)
        return VList([SStr(c.fresh(STR, '%s_%d' % (name, k))) for k in range(n)])
    def enum(self): return [[]]

W = {}            # the world of the current path: graph, node and entry state, for loop contracts and postconditions
def z(x): return zs(x)
def lookup(state, k, x):
    dom, mem = state
    return z3.And(dom[k], z3.Select(mem[k], x))
def in_list(l, k):
    """is name k (z3) in list l"""
    if l.s is None:
        return z3.Or(*[z(e) == k for e in list.__iter__(l)]) if list.__len__(l) else z3.BoolVal(False)
    q = z3.Int('q!il')
    n, a, _ = l.s
    return z3.Exists([q], z3.And(q >= 0, q < n, a[q] == k))
def all_in(l, f):
    if l.s is None:
        return z3.And(*[f(z(e)) for e in list.__iter__(l)]) if list.__len__(l) else z3.BoolVal(True)
    q = z3.Int('q!al')
    n, a, _ = l.s
    return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(a[q])), patterns=[a[q]])
def elem(l, i):
    if l.s is None:
        return z(list.__getitem__(l, i))
    return z3.Select(l.s[1], zi(i))
def sbool(e): return SBool(e)

def world(a, parent=False):
    """graph with arbitrary tables and one node; the tables know the node as reader of its inputs (invariant)"""
    g = S.mkgraph_sym(parent)
    node = S.mknode(a.n, a.inputs.copy(), graph=g)
    c = ctx()
    C = g._output_to_consumers
    c.assume(all_in(a.inputs, lambda t: C.eff(t, z(a.n))))
    W.clear()
    W.update(g=g, node=node, C0=C.copy_state(), in0=a.inputs.copy(), a=a)
    if g.parent_graph is not None:
        t = g.parent_graph._input_to_graph
        W['P0'] = (t.dom, t.has)
        # the parent knows which tensors this graph reads
        c.assume(all_in(a.inputs, lambda x: t.eff(x)))
    return g, node

def frame(a, extra_ok=None):
    """no entry of another node changes; `x` is an arbitrary other node, `k` an arbitrary tensor"""
    C = W['g']._output_to_consumers
    return SBool(z3.Implies(z(a.x) != z(a.n), C.eff(z(a.k), z(a.x)) == lookup(W['C0'], z(a.k), z(a.x))))
def parent_frame(a, gained=(), lost=()):
    """the parent still knows every tensor this graph reads, and learns exactly those it starts to read"""
    p = W['g'].parent_graph
    if p is None:
        return True
    t = p._input_to_graph
    k = z(a.k)
    d, h = W['P0']
    was = z3.And(d[k], h[k])
    return SBool(z3.And(z3.Implies(z3.And(was, *[k != x for x in lost]), t.eff(k)), z3.Implies(z3.And(t.eff(k), z3.Not(was)), z3.Or(*[k == x for x in gained], False))))
def registered(a):
    """the invariant for the edited node: it is registered for everything it reads now"""
    C = W['g']._output_to_consumers
    return SBool(all_in(W['node']._input, lambda t: C.eff(t, z(a.n))))
def known_to_parent(a):
    p = W['g'].parent_graph
    if p is None:
        return True
    return SBool(all_in(W['node']._input, lambda t: p._input_to_graph.eff(t)))
def no_junk(a, new):
    """an entry of the edited node that was not there before belongs to one of the new inputs"""
    C = W['g']._output_to_consumers
    k = z(a.k)
    return SBool(z3.Implies(z3.And(C.eff(k, z(a.n)), z3.Not(lookup(W['C0'], k, z(a.n)))), new(k)))
def same_list(l, m):
    if l.s is None and m.s is None:
        if list.__len__(l) != list.__len__(m):
            return False
        return SBool(z3.And(*[z(x) == z(y) for x, y in zip(list.__iter__(l), list.__iter__(m))]) if list.__len__(l) else z3.BoolVal(True))
    return SBool(core_list_eq(l, m))
def core_list_eq(l, m):
    from pyvc.core import list_eq_z
    return list_eq_z(l, m)

BASE = lambda **k: dict(dict(n=Name(), x=Name(), k=Name(), inputs=Names(), parent=OneOf([False, True])), **k)

# ---------------------------------------------------------------- registration
def run_register(f, a):
    g, node = world(a, a.parent)
    W['r'] = f(g, a.t, node, a.only) if a.only else f(g, a.t, node)
def post_register(a, r, old):
    yield 'never raises', r.exc is None
    C = W['g']._output_to_consumers
    k, x = z(a.k), z(a.x)
    yield 'exactly the entry (tensor, node) is added', SBool(C.eff(k, x) == z3.Or(lookup(W['C0'], k, x), z3.And(k == z(a.t), x == z(a.n), z3.BoolVal(not a.only))))
    p = W['g'].parent_graph
    if p is not None:
        d, h = W['P0']
        t = p._input_to_graph
        yield 'the parent learns that this graph reads the tensor, and nothing else', SBool(t.eff(k) == z3.Or(z3.And(d[k], h[k]), k == z(a.t)))
        yield 'the graphs further out are told', bool(p.calls) and p.calls[0][0] == 'reg' and p.calls[0][1] is a.t and p.calls[0][2] is W['node'] and bool(p.calls[0][3]) and len(p.calls) == 1

def run_unregister(f, a):
    g, node = world(a, a.parent)
    others = {'none': [], 'self': [node], 'other': [S.mknode(a.x, VList())], 'both': [node, S.mknode(a.x, VList())]}[a.readers]
    g.find_output_consumers = lambda t: VList(list(others)) if t is a.t else (_ for _ in ()).throw(Unsupported('consumers of another tensor'))
    ctx().assume(g._output_to_consumers.dom[z(a.t)])
    return f(g, a.t, node, a.only) if a.only else f(g, a.t, node)
def post_unregister(a, r, old):
    yield 'never raises', r.exc is None
    C = W['g']._output_to_consumers
    k, x = z(a.k), z(a.x)
    yield 'exactly the entry (tensor, node) goes away', SBool(C.eff(k, x) == z3.And(lookup(W['C0'], k, x), z3.Not(z3.And(k == z(a.t), x == z(a.n), z3.BoolVal(not a.only)))))
    p = W['g'].parent_graph
    if p is not None:
        d, h = W['P0']
        t = p._input_to_graph
        yield 'no other tensor is forgotten by the parent', SBool(z3.Implies(z3.And(d[k], h[k], k != z(a.t)), t.eff(k)))
        if a.readers in ('other', 'both'):
            yield 'while another node reads the tensor the parent does not forget it', SBool(t.eff(z(a.t)) == z3.And(d[z(a.t)], h[z(a.t)]))
            yield 'nor do the graphs further out', not p.calls
        yield 'the parent learns nothing new', SBool(z3.Implies(t.eff(k), z3.And(d[k], h[k])))

# ---------------------------------------------------------------- rewiring one node
def run_replace(f, a):
    g, node = world(a, a.parent)
    if a.index is None:
        return f(g, node, a.old, a.new)
    ctx().assume(z3.And(zi(a.index) >= 0, zi(a.index) < zi(Len(a.inputs))))
    return f(g, node, a.old, a.new, a.index)
def post_replace(a, r, old):
    before, now = W['in0'], W['node']._input
    o, w = z(a.old), z(a.new)
    if a.index is not None:
        hit = elem_at(before, a.index) == o
        yield 'refuses exactly when the input is another one', Iff(r.exc is not None, Not(SBool(hit)))
        if r.exc is not None:
            yield 'and then changes nothing', same_list(before, now)
            return
        yield 'reports the replacement', r.value is True
        want = lambda q: z3.If(q == zi(a.index), w, elem_at(before, SInt(q)))
    else:
        yield 'never raises', r.exc is None
        if r.exc is not None:
            return
        yield 'reports whether something was replaced', Iff(r.value, SBool(in_list(before, o)))
        want = lambda q: z3.If(elem_at(before, SInt(q)) == o, w, elem_at(before, SInt(q)))
    yield 'as many inputs as before', Len(before) == Len(now)
    yield 'every input is the one asked for', Implies(Len(before) == Len(now), lambda: ForAll(Len(before), lambda i: SBool(elem_at(now, i) == want(zi(i)))))
    yield 'registered for everything it reads', registered(a)
    yield 'known to the parent', known_to_parent(a)
    yield 'other nodes stay registered as they were', frame(a)
    yield 'nothing else is registered', no_junk(a, lambda k: k == w)
    C = W['g']._output_to_consumers
    yield 'not registered for the old input once it is gone', SBool(z3.Implies(z3.And(z3.Not(in_list(now, o)), o != w), z3.Not(C.eff(o, z(a.n)))))
    yield 'parent keeps what it knew', parent_frame(a, gained=[w])
def elem_at(l, i):
    if l.s is not None:
        return z3.Select(l.s[1], zi(i))
    if not isinstance(i, SInt):
        return z(list.__getitem__(l, i))
    els = [z(e) for e in list.__iter__(l)]
    if not els:
        return z(SStr(ctx().fresh(STR, 'none')))
    r = els[-1]
    for k in range(len(els) - 2, -1, -1):
        r = z3.If(zi(i) == k, els[k], r)
    return r
def inv_replace(L):
    now, before, o, w = W['node']._input, W['in0'], z(W['a'].old), z(W['a'].new)
    q = z3.Int('q!inv')
    n = zi(Len(before))
    N, O = (lambda j: elem_at(now, SInt(j))), (lambda j: elem_at(before, SInt(j)))
    done = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), N(q) == z3.If(O(q) == o, w, O(q))))
    rest = z3.ForAll([q], z3.Implies(z3.And(q >= zi(L.k), q < n), N(q) == O(q)))
    flag = L.the_scalar(lambda v: isinstance(v, (bool, SBool)))
    hit = z3.Exists([q], z3.And(q >= 0, q < zi(L.k), O(q) == o))
    return And(Len(now) == Len(before), SBool(done), SBool(rest), Iff(flag, SBool(hit)))

def run_replaces(f, a):
    g, node = world(a, a.parent)
    return f(g, node, a.news)
def post_replaces(a, r, old):
    yield 'never raises', r.exc is None
    if r.exc is not None:
        return
    now = W['node']._input
    yield 'the inputs are the new ones', same_list(now, old.news)
    yield 'registered for everything it reads', registered(a)
    yield 'known to the parent', known_to_parent(a)
    yield 'other nodes stay registered as they were', frame(a)
    yield 'nothing else is registered', no_junk(a, lambda k: in_list(old.news, k))
    C = W['g']._output_to_consumers
    k = z(a.k)
    yield 'not registered for an input it gave up', SBool(z3.Implies(z3.And(in_list(W['in0'], k), z3.Not(in_list(old.news, k))), z3.Not(C.eff(k, z(a.n)))))
    d, h = W.get('P0', (None, None))
    p = W['g'].parent_graph
    if p is not None:
        yield 'parent keeps what it knew', SBool(z3.Implies(z3.And(d[k], h[k]), p._input_to_graph.eff(k)))
def inv_rs_drop(L):
    """first loop: the entries of the inputs seen so far are gone, everything of other nodes is untouched"""
    C, C0, n = W['g']._output_to_consumers, W['C0'], z(W['a'].n)
    k, x, q = z3.Const('k!inv', STR), z3.Const('x!inv', STR), z3.Int('q!inv')
    l = W['in0']
    return And(SBool(z3.ForAll([k, x], z3.Implies(x != n, C.eff(k, x) == lookup(C0, k, x)))),
               SBool(z3.ForAll([k], z3.Implies(C.eff(k, n), lookup(C0, k, n)))),
               SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), z3.Not(C.eff(elem_at(l, SInt(q)), n))))))
def inv_rs_add(L):
    C, C0, n = W['g']._output_to_consumers, W['C0'], z(W['a'].n)
    k, x, q = z3.Const('k!inv', STR), z3.Const('x!inv', STR), z3.Int('q!inv')
    l, m = W['in0'], W['a'].news
    seen = lambda t: z3.Exists([q], z3.And(q >= 0, q < zi(L.k), elem_at(m, SInt(q)) == t))
    parts = [SBool(z3.ForAll([k, x], z3.Implies(x != n, C.eff(k, x) == lookup(C0, k, x)))),
             SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), C.eff(elem_at(m, SInt(q)), n)))),
             SBool(z3.ForAll([k], z3.Implies(C.eff(k, n), z3.Or(seen(k), z3.And(lookup(C0, k, n), z3.Not(in_list(l, k)))))))]
    p = W['g'].parent_graph
    if p is not None:
        d, h = W['P0']
        t = p._input_to_graph
        parts += [SBool(z3.ForAll([k], z3.Implies(z3.And(d[k], h[k]), t.eff(k)))),
                  SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), t.eff(elem_at(m, SInt(q))))))]
    return And(*parts)

def run_remove_input(f, a):
    g, node = world(a, a.parent)
    others = [S.mknode(a.x, VList())] if a.shared else []
    g.find_output_consumers = lambda t: VList(others)
    if a.index is None:
        return f(g, node, a.t)
    ctx().assume(z3.And(zi(a.index) >= 0, zi(a.index) < zi(Len(a.inputs))))
    ctx().assume(elem_at(a.inputs, a.index) == z(a.t))
    return f(g, node, a.t, a.index)
def post_remove_input(a, r, old):
    before, now = W['in0'], W['node']._input
    t = z(a.t)
    if a.index is None:
        if r.exc is not None:
            yield 'refuses only an input that is taken more than once', Exists(Len(before), lambda i: Exists(Len(before), lambda j: And(i < j, SBool(elem_at(before, i) == t), SBool(elem_at(before, j) == t))))
            return
        yield 'at most one input goes', Or(Len(now) == Len(before), Len(now) == Len(before) - 1)
        yield 'the tensor is gone', Not(SBool(in_list(now, t)))
        yield 'an input goes only if the node takes it', Iff(Len(now) == Len(before), Not(SBool(in_list(before, t))))
    else:
        yield 'never raises', r.exc is None
        if r.exc is not None:
            return
        yield 'one input goes', Len(now) == Len(before) - 1
        i0 = zi(a.index)
        yield 'exactly the one asked for', Implies(Len(now) == Len(before) - 1, lambda: ForAll(Len(now), lambda i: SBool(elem_at(now, i) == z3.If(zi(i) < i0, elem_at(before, i), elem_at(before, SInt(zi(i) + 1))))))
    yield 'registered for everything it still reads', registered(a)
    yield 'other nodes stay registered as they were', frame(a)
    yield 'nothing new is registered', no_junk(a, lambda k: z3.BoolVal(False))
    C = W['g']._output_to_consumers
    yield 'not registered for the removed input', SBool(z3.Implies(z3.Not(in_list(now, t)), z3.Not(z3.And(in_list(before, t), C.eff(t, z(a.n))))))
    if a.parent and a.shared:
        yield 'the parent keeps what another node reads', parent_frame(a)
    elif a.parent:
        yield 'the parent keeps every other tensor', parent_frame(a, lost=[t])

# ---------------------------------------------------------------- adding and removing nodes
def tables(g):
    g._nodes_by_name = S.SDict(S.KNODE, 'NBN')
    g._output_to_node_name = S.SDict(KSTR, 'O2N')
    g._output_shapes = S.SDict(S.KNODE, 'SH')
    g._dtypes = S.SDict(S.KNODE, 'DT')
def run_set_by_name(f, a):
    g, node = world(a, a.parent)
    g._output_to_consumers = S.SMap('C1')
    W['C0'] = g._output_to_consumers.copy_state()
    tables(g)
    node._output = a.outputs
    W['N0'], W['O0'] = g._nodes_by_name.copy_state(), g._output_to_node_name.copy_state()
    me = S.SNodeRef(z3.Const('me', NODE))
    W['me'] = me
    g._nodes_by_name.kind = type(S.KNODE)('node', NODE, S.SNodeRef, lambda v: me.z if v is node else S.KNODE.unwrap(v))
    return f(g, node)
def post_set_by_name(a, r, old):
    yield 'never raises', r.exc is None
    g, n = W['g'], z(a.n)
    N, O = g._nodes_by_name, g._output_to_node_name
    k = z(a.k)
    yield 'found by its name', SBool(z3.And(N.dom[n], N.val[n] == W['me'].z))
    yield 'other names keep their nodes', SBool(z3.Implies(k != n, z3.And(N.dom[k] == W['N0'][0][k], N.val[k] == W['N0'][1][k])))
    yield 'found by every output', SBool(all_in(old.outputs, lambda t: z3.And(O.dom[t], O.val[t] == n)))
    yield 'other tensors keep their producers', SBool(z3.Implies(z3.Not(in_list(old.outputs, k)), z3.And(O.dom[k] == W['O0'][0][k], O.val[k] == W['O0'][1][k])))
    yield 'registered for everything it reads', registered(a)
    yield 'known to the parent', known_to_parent(a)
    yield 'other nodes stay registered as they were', frame(a)
    yield 'nothing else is registered', no_junk(a, lambda k: in_list(W['in0'], k))
def inv_sbn_out(L):
    O, O0, n, l = W['g']._output_to_node_name, W['O0'], z(W['a'].n), W['a'].outputs
    k, q = z3.Const('k!inv', STR), z3.Int('q!inv')
    seen = lambda t: z3.Exists([q], z3.And(q >= 0, q < zi(L.k), elem_at(l, SInt(q)) == t))
    return And(SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), z3.And(O.dom[elem_at(l, SInt(q))], O.val[elem_at(l, SInt(q))] == n)))),
               SBool(z3.ForAll([k], z3.Implies(z3.Not(seen(k)), z3.And(O.dom[k] == O0[0][k], O.val[k] == O0[1][k])))))
def inv_sbn_in(L):
    C, C0, n, m = W['g']._output_to_consumers, W['C0'], z(W['a'].n), W['node']._input
    k, x, q = z3.Const('k!inv', STR), z3.Const('x!inv', STR), z3.Int('q!inv')
    seen = lambda t: z3.Exists([q], z3.And(q >= 0, q < zi(L.k), elem_at(m, SInt(q)) == t))
    parts = [SBool(z3.ForAll([k, x], z3.Implies(x != n, C.eff(k, x) == lookup(C0, k, x)))),
             SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), C.eff(elem_at(m, SInt(q)), n)))),
             SBool(z3.ForAll([k], z3.Implies(C.eff(k, n), z3.Or(seen(k), lookup(C0, k, n)))))]
    p = W['g'].parent_graph
    if p is not None:
        d, h = W['P0']
        t = p._input_to_graph
        parts += [SBool(z3.ForAll([k], z3.Implies(z3.And(d[k], h[k]), t.eff(k)))),
                  SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), t.eff(elem_at(m, SInt(q))))))]
    return And(*parts)

class Bodies(dict):
    """contained_graphs: the entry of the removed node, by identity of its name"""
    def __init__(self, name, bodies): self.n, self.b = name, bodies
    def pop(self, k, *d):
        if k is self.n or (isinstance(k, SStr) and bool(k == self.n)):
            b, self.b = self.b, None
            if b is None:
                if d: return d[0]
                raise KeyError(k)
            return b
        raise Unsupported('body graphs of another node')
    def __contains__(self, k): return self.b is not None
    def __getitem__(self, k):
        if self.b is None: raise KeyError(k)
        return self.b
    def get(self, k, d=None): return self.b if self.b is not None else d
    def __delitem__(self, k): self.b = None
def run_remove_node(f, a):
    g, node = world(a, a.parent)
    tables(g)
    c = ctx()
    me = S.SNodeRef(z3.Const('me', NODE))
    W['me'] = me
    wrap = lambda zz: node if c.fork(zz == me.z) else S.SNodeRef(zz)
    g._nodes_by_name.kind = type(S.KNODE)('node', NODE, wrap, lambda v: me.z if v is node else S.KNODE.unwrap(v))
    node._output = a.outputs.copy()
    N, O = g._nodes_by_name, g._output_to_node_name
    n = z(a.n)
    c.assume(z3.And(N.dom[n], N.val[n] == me.z))
    c.assume(all_in(a.outputs, lambda t: z3.And(O.dom[t], O.val[t] == n)))
    # outputs are pairwise different, an omitted output is ''
    if a.outputs.s is None:
        els = list(list.__iter__(a.outputs))
        for i in range(len(els)):
            for j in range(i):
                c.assume(z(els[i]) != z(els[j]))
    else:
        i, j = z3.Ints('i!do j!do')
        l, ar, _ = a.outputs.s
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < l), ar[i] != ar[j])))
    other = S.mknode(a.x, VList())
    W['other'] = other
    g._nodes = VList([other, node]) if a.setting[0] else VList([node, other])
    g.inputs = VList([node, other]) if a.setting[1] else VList([other])
    body, foreign = object(), object()
    g.contained_graphs = Bodies(a.n, {'body': body} if a.setting[2] else None)
    W['body'], W['foreign'] = body, foreign
    g._input_to_graph = {'t': {id(body): body, id(foreign): foreign}, 'u': {id(foreign): foreign}}
    W['N0'], W['O0'], W['S0'], W['D0'] = N.copy_state(), O.copy_state(), g._output_shapes.copy_state(), g._dtypes.copy_state()
    W['C0'] = g._output_to_consumers.copy_state()
    calls = W['unreg'] = []
    C = g._output_to_consumers
    def unreg(t, nd, only_graph=False):       # contract of _unregister_input_name (proved above)
        if nd is not node or only_graph:
            raise Unsupported('another node unregistered')
        c.prove('remove-node: the input is registered when it is unregistered', SBool(C.dom[z(t)]))
        from pyvc.core import log_write
        log_write(C)
        C.mem = z3.Store(C.mem, z(t), z3.Store(C.mem[z(t)], n, False))
    g._unregister_input_name = unreg
    return f(g, a.n)
def post_remove_node(a, r, old):
    yield 'never raises', r.exc is None
    if r.exc is not None:
        return
    g, n, k = W['g'], z(a.n), z(a.k)
    N, O = g._nodes_by_name, g._output_to_node_name
    e = z('')
    yield 'no longer found by its name', SBool(z3.Not(N.dom[n]))
    yield 'other names keep their nodes', SBool(z3.Implies(k != n, z3.And(N.dom[k] == W['N0'][0][k], N.val[k] == W['N0'][1][k])))
    gone = z3.And(in_list(old.outputs, k), k != e)
    yield 'no longer found by any output', SBool(z3.Implies(gone, z3.Not(O.dom[k])))
    yield 'its shapes and types are gone', SBool(z3.Implies(gone, z3.And(z3.Not(g._output_shapes.dom[k]), z3.Not(g._dtypes.dom[k]))))
    yield 'other tensors keep producer, shape and type', SBool(z3.Implies(z3.Not(in_list(old.outputs, k)), z3.And(
        *[z3.And(t.dom[k] == s[0][k], t.val[k] == s[1][k]) for t, s in ((O, W['O0']), (g._output_shapes, W['S0']), (g._dtypes, W['D0']))])))
    C = g._output_to_consumers
    yield 'not registered for any input any more', SBool(z3.Implies(z3.And(in_list(W['in0'], k), k != e), z3.Not(C.eff(k, n))))
    yield 'other nodes stay registered as they were', frame(a)
    yield 'only this node left the graph', len(g._nodes) == 1 and g._nodes[0] is W['other']
    yield 'graph inputs keep every other node', [x is W['other'] for x in g.inputs] == [True]
    yield 'its body graphs are gone', a.n not in g.contained_graphs
    ig = g._input_to_graph
    yield 'body graphs of other nodes are still known', id(W['foreign']) in ig.get('t', {}) and id(W['foreign']) in ig.get('u', {})
    if a.setting[2]:
        yield 'its body graphs are no longer consulted', id(W['body']) not in ig.get('t', {})
    yield 'detached', W['node'].graph is None
def inv_rn_out(L):
    g, l = W['g'], W['a'].outputs
    k, q = z3.Const('k!inv', STR), z3.Int('q!inv')
    e = z('')
    parts = []
    seen = lambda t: z3.Exists([q], z3.And(q >= 0, q < zi(L.k), elem_at(l, SInt(q)) == t))
    for t, s in ((g._output_to_node_name, W['O0']), (g._output_shapes, W['S0']), (g._dtypes, W['D0'])):
        parts += [SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k), elem_at(l, SInt(q)) != e), z3.Not(t.dom[elem_at(l, SInt(q))])))),
                  SBool(z3.ForAll([k], z3.Implies(z3.Not(seen(k)), t.dom[k] == s[0][k]))), SBool(t.val == s[1])]
    return And(*parts)
def inv_rn_in(L):
    C, C0, n, m = W['g']._output_to_consumers, W['C0'], z(W['a'].n), W['in0']
    k, x, q = z3.Const('k!inv', STR), z3.Const('x!inv', STR), z3.Int('q!inv')
    e = z('')
    return And(SBool(C.dom == C0[0]),
               SBool(z3.ForAll([k, x], z3.Implies(x != n, C.eff(k, x) == lookup(C0, k, x)))),
               SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k), elem_at(m, SInt(q)) != e), z3.Not(C.eff(elem_at(m, SInt(q)), n))))))

# ---------------------------------------------------------------- lookups
def run_consumers(f, a):
    g = S.mkgraph_sym()
    c = ctx()
    C = g._output_to_consumers
    NBN = S.SDict(S.KNODE, 'NBN')
    def by_name(x):                                   # contract of get_node_by_name
        zx = z(x)
        if c.fork(NBN.dom[zx]):
            return S.SNodeRef(NBN.val[zx])
        return None
    g.get_node_by_name = by_name
    x = z3.Const('x!nm', STR)
    c.assume(z3.ForAll([x], z3.Implies(NBN.dom[x], S.name_of(NBN.val[x]) == x), patterns=[NBN.val[x]]))
    sub = []
    class Child:
        def find_output_consumers(self, t):
            if t is not a.t: raise Unsupported('another tensor')
            l = VList.symbolic(c.fresh(I, 'len_sub'), c.fresh(z3.ArraySort(I, NODE), 'sub'), S.KNODE)
            c.assume(l.s[0] >= 0)
            sub.append(l.copy())
            return l
    kids = [Child() for _ in range(a.children)]
    class Table(dict):
        def __contains__(self, k): return bool(kids) and bool(k == a.t)
        def __getitem__(self, k): return {id(x): x for x in kids}
        def get(self, k, d=None): return self[k] if k in self else d
    g._input_to_graph = Table()
    W.clear()
    W.update(g=g, NBN=NBN, C0=C.copy_state(), sub=sub, a=a, C=C)
    return f(g, a.t)
def post_consumers(a, r, old):
    yield 'never raises', r.exc is None
    if r.exc is not None:
        return
    C, NBN, t, x = W['C'], W['NBN'], z(a.t), z(a.x)
    l = r.value
    nd = NBN.val[x]
    q = z3.Int('q!pc')
    found = lambda nz: in_nodes(l, nz)
    pos = getattr(C, 'last_pos', None)
    P = W.get('P')
    reader = z3.And(C.eff(t, x), NBN.dom[x], S.reads(nd, t))
    if l.s is not None and P is not None and pos is not None:
        lemma('ghost position of a reader', SBool(z3.Implies(reader, z3.And(P(pos(x)) >= 0, P(pos(x)) < zi(Len(l)), z3.Select(l.s[1], P(pos(x))) == nd))))
    yield 'every registered node that reads the tensor is found', SBool(z3.Implies(reader, found(nd)))
    subs = W['sub']
    yield 'every graph inside that reads it is asked once', len(subs) == a.children
    k = 0
    j = ctx().fresh(I, 'j')
    for i, s in enumerate(subs):
        if l.s is not None:
            at = zi(Len(l)) - sum(zi(Len(u)) for u in subs[i:]) + j
            lemma('ghost position of a consumer inside', SBool(z3.Implies(z3.And(j >= 0, j < zi(Len(s))), z3.And(at >= 0, at < zi(Len(l)), z3.Select(l.s[1], at) == z3.Select(s.s[1], j)))))
        yield 'the consumers inside are found', SBool(z3.Implies(z3.And(j >= 0, j < zi(Len(s))), in_nodes(l, z3.Select(s.s[1], j))))
    if not subs:
        yield 'nothing else is found', all_nodes(l, lambda nz: z3.And(S.reads(nz, t), C.eff(t, S.name_of(nz))))
def in_nodes(l, nz):
    if l.s is None:
        return z3.Or(*[e.z == nz for e in list.__iter__(l)], False)
    q = z3.Int('q!in')
    return z3.Exists([q], z3.And(q >= 0, q < l.s[0], z3.Select(l.s[1], q) == nz))
def all_nodes(l, f):
    if l.s is None:
        return SBool(z3.And(*[f(e.z) for e in list.__iter__(l)], True))
    q = z3.Int('q!an')
    return SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < l.s[0]), f(z3.Select(l.s[1], q)))))
def inv_consumers(L):
    """with P(i) = number of readers among the first i registered nodes: reader i stands at P(i)"""
    c = ctx()
    l = L.it.l if hasattr(L.it, 'l') else None
    if l is None:
        raise Unsupported('iteration not over the list of registered nodes')
    t = z(W['a'].t)
    ok = lambda i: z3.And(S.OptNode.is_some(z3.Select(l.s[1], i)), S.reads(S.OptNode.val(z3.Select(l.s[1], i)), t))
    if 'P' not in W:
        W['P'] = P = z3.Function('P!%d' % c.nfresh, I, I)
        i, j = z3.Ints('i!P j!P')
        c.assume(P(0) == 0)
        c.assume(z3.ForAll([i], z3.Implies(i >= 0, P(i + 1) == P(i) + z3.If(ok(i), 1, 0)), patterns=[P(i)]))
    P = W['P']
    acc = L.the_acc()
    C = W['C']
    q, p = z3.Int('q!inv'), z3.Int('p!inv')
    k = zi(L.k)
    kind_z = lambda j: z3.Select(acc.s[1], j) if acc.s is not None else None
    n = zi(Len(acc))
    parts = [SBool(n == P(k)), SBool(P(k) >= 0)]
    if acc.s is not None:
        parts += [SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k), z3.And(P(q) >= 0, P(q) <= P(k), P(q) + z3.If(ok(q), 1, 0) <= P(k))), patterns=[P(q)])),
                  SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k, ok(q)), kind_z(P(q)) == S.OptNode.val(z3.Select(l.s[1], q))), patterns=[P(q)])),
                  SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(S.reads(kind_z(q), t), C.eff(t, S.name_of(kind_z(q)))))))]
    return And(*parts)

def run_by_output(f, a):
    """chain of graphs, each of which may or may not produce the tensor"""
    made = []
    class Lvl:
        def __init__(self, k): self.k = k
        def get_node_by_output_in_current_graph(self, t):
            if t is not a.t: raise Unsupported('another tensor')
            return made[self.k]
        @property
        def parent_graph(self): return lv[self.k + 1] if self.k + 1 < len(lv) else None
    lv = [Lvl(k) for k in range(a.depth)]
    made += [S.mknode('n%d' % k, VList()) if a.prod >> k & 1 else None for k in range(a.depth)]
    W.clear(); W.update(made=made)
    return f(lv[0], a.t, a.up)
def post_by_output(a, r, old):
    yield 'never raises', r.exc is None
    made = W['made']
    want = next((m for m in (made if a.up else made[:1]) if m is not None), None)
    yield 'the nearest enclosing producer', r.value is want
def run_current(f, a):
    g = S.mkgraph_sym()
    tables(g)
    W.clear(); W.update(g=g)
    return f(g, a.t)
def post_current(a, r, old):
    yield 'never raises', r.exc is None
    g, t = W['g'], z(a.t)
    N, O = g._nodes_by_name, g._output_to_node_name
    # nodes have non-empty names
    has = z3.And(O.dom[t], O.val[t] != z(''), N.dom[O.val[t]])
    if r.value is None:
        yield 'nothing is found only if no node produces it', SBool(z3.Not(has))
    else:
        yield 'the node that produces it', SBool(z3.And(has, r.value.z == N.val[O.val[t]]))

# ---------------------------------------------------------------- rewiring all readers
def run_replace_all(f, a):
    """up to three nodes of up to two inputs each, names arbitrary (all equalities between them are explored)"""
    g = S.mkgraph_sym()
    c = ctx()
    C = g._output_to_consumers
    nodes = []
    for k in range(a.count):
        n = SStr(c.fresh(STR, 'n%d' % k))
        ins = [a.ins0, a.ins1, a.ins2][k].copy()
        outs = VList([SStr(c.fresh(STR, 'out%d' % k))])
        nodes.append(S.mknode(n, ins, outs, g))
    for i in range(len(nodes)):
        for j in range(i):
            c.assume(z(nodes[i].name) != z(nodes[j].name))
        c.assume(z3.Not(z(nodes[i]._output[0]) == z(a.new)))
    for nd in nodes:
        c.assume(all_in(nd._input, lambda t: C.eff(t, z(nd.name))))
    sub = []
    class Child:
        def replace_all_inputs(self, o, w, ops=None): sub.append((o, w, ops))
        def get_nodes(self): return 'its nodes'
    kid = Child()
    class Table(dict):
        def __contains__(self, k): return bool(a.child) and bool(k == a.old)
        def __getitem__(self, k): return {id(kid): kid}
        def get(self, k, d=None): return self[k] if k in self else d
    g._input_to_graph = Table()
    g._nodes = VList(nodes)
    some = [nd for k, nd in enumerate(nodes) if a.some >> k & 1]
    W.clear()
    W.update(g=g, nodes=nodes, before=[nd._input.copy() for nd in nodes], C0=C.copy_state(), a=a, sub=sub, some=some)
    if a.mode == 'list':
        return f(g, a.old, a.new, VList(some))
    # the registered readers: their enumeration is any permutation-free list that contains every node registered
    g.get_node_by_name = lambda x: next((nd for nd in nodes if x is nd.name), None)
    class Row:
        def _vc_tolist(self): return VList([nd.name for nd in nodes if bool(SBool(C.eff(z(a.old), z(nd.name))))])
        def __iter__(self): return iter(self._vc_tolist())
        def __contains__(self, x): return S.SSetRef(C, z(a.old)).__contains__(x)
        def remove(self, x): S.SSetRef(C, z(a.old)).remove(x)
        def discard(self, x): S.SSetRef(C, z(a.old)).discard(x)
        def add(self, x): S.SSetRef(C, z(a.old)).add(x)
        def _vc_iter(self): return None
    gi = C.__class__.__getitem__
    class C2(S.SMap):
        def __init__(self): pass
        def __getitem__(self, k):
            r = S.SMap.__getitem__(self, k)
            return Row() if k is a.old else r
    C.__class__ = C2
    return f(g, a.old, a.new)
def post_replace_all(a, r, old):
    yield 'never raises', r.exc is None
    if r.exc is not None:
        return
    o, w = z(a.old), z(a.new)
    C = W['g']._output_to_consumers
    for k, (nd, b) in enumerate(zip(W['nodes'], W['before'])):
        now = nd._input
        yield 'as many inputs as before', Len(now) == Len(b)
        touched = a.mode == 'all' or nd in W['some']
        for i in range(Len(b)):
            e = z(list.__getitem__(b, i))
            want = z3.If(e == o, w, e) if touched else e
            yield 'input %d of node %d' % (i, k), SBool(z(list.__getitem__(now, i)) == want)
        yield 'registered for everything it reads', SBool(all_in(now, lambda t: C.eff(t, z(nd.name))))
    x, kk = z(a.x), z(a.k)
    yield 'no entry of a node that was not rewired changes', SBool(z3.Implies(z3.And(*[z3.Or(z(nd.name) != x, z3.Not(in_list(b, o))) for nd, b in zip(W['nodes'], W['before'])]),
                                                                              C.eff(kk, x) == lookup(W['C0'], kk, x)))
    if a.child:
        same_name = SBool(o == w)
        yield 'readers inside body graphs are rewired too', Or(same_name, len(W['sub']) == 1 and W['sub'][0][0] is a.old and W['sub'][0][1] is a.new)
        if W['sub']:
            yield 'all of them', W['sub'][0][2] is None if a.mode == 'all' else W['sub'][0][2] is None or W['sub'][0][2] == 'its nodes'

def contracts():
    out = []
    def con(name, fn, params, post, call, loops=None, modes=('unbounded', 'sized'), pre=None, limit=200):
        c = Contract(name, G + fn, params, post, pre, modes=modes, loops={(G + fn, k): l for k, l in (loops or {}).items()}, covers=('returned',), call=call, timeout=20000)
        c.no_concrete, c.limit = True, limit
        out.append(c)
    node_in = lambda L: [W['node']._input]
    con('register', '_register_input_name', BASE(t=Name(), only=OneOf([False, True])), post_register, run_register, modes=('unbounded',))
    con('unregister', '_unregister_input_name', BASE(t=Name(), only=OneOf([False, True]), readers=OneOf(['none', 'self', 'other', 'both'])), post_unregister, run_unregister, modes=('unbounded',))
    con('replace-input', 'replace_input', BASE(old=Name(), new=Name(), index=Const(None)), post_replace, run_replace, loops={0: Loop(inv_replace, modifies=node_in)})
    con('replace-input-at', 'replace_input', BASE(old=Name(), new=Name(), index=Int()), post_replace, run_replace)
    C = lambda L: [W['g']._output_to_consumers]
    CP = lambda L: [W['g']._output_to_consumers] + ([W['g'].parent_graph._input_to_graph] if W['g'].parent_graph is not None else [])
    con('replace-inputs', 'replace_inputs', BASE(news=Names()), post_replaces, run_replaces, loops={0: Loop(inv_rs_drop, modifies=C), 1: Loop(inv_rs_add, modifies=CP)})
    con('remove-input', 'remove_input', BASE(t=Name(), index=Const(None), shared=OneOf([False, True])), post_remove_input, run_remove_input, loops={0: Loop(inv_remove_input)})
    con('remove-input-at', 'remove_input', BASE(t=Name(), index=Int(), shared=OneOf([False, True])), post_remove_input, run_remove_input)
    con('set-by-name', 'set_node_by_name', BASE(outputs=Names()), post_set_by_name, run_set_by_name,
        loops={0: Loop(inv_sbn_out, modifies=lambda L: [W['g']._output_to_node_name]), 1: Loop(inv_sbn_in, modifies=CP)})
    con('remove-node', 'remove_node', BASE(parent=Const(False), inputs=Names(0, 2), outputs=Names(0, 2), setting=OneOf([(False, False, False), (True, True, True), (False, True, False), (True, False, True)])), post_remove_node, run_remove_node,
        loops={2: Loop(inv_rn_out, modifies=lambda L: [W['g']._output_to_node_name, W['g']._output_shapes, W['g']._dtypes]), 3: Loop(inv_rn_in, modifies=C)})
    con('consumers', 'find_output_consumers', dict(t=Name(), x=Name(), k=Name(), children=OneOf([0, 1, 2])), post_consumers, run_consumers, loops={0: Loop(inv_consumers, acc_kind=S.KNODE)}, modes=('unbounded',))
    con('producer', 'get_node_by_output', dict(t=Name(), depth=OneOf([1, 2, 3, 4]), prod=OneOf(range(16)), up=OneOf([False, True])), post_by_output, run_by_output, modes=('sized',))
    con('producer-here', 'get_node_by_output_in_current_graph', dict(t=Name()), post_current, run_current, modes=('unbounded',))
    L2 = lambda: Names(0, 2)
    for mode in ('list', 'all'):
        con('replace-all-' + mode, 'replace_all_inputs', dict(old=Name(), new=Name(), x=Name(), k=Name(), ins0=L2(), ins1=Names(0, 1), ins2=Const(VList()), count=OneOf([1, 2]), some=OneOf([0, 1, 2, 3] if mode == 'list' else [0]),
                                                             mode=Const(mode), child=OneOf([False, True])), post_replace_all, run_replace_all, modes=('sized',))
    return out
def inv_remove_input(L):
    # nothing has happened in the iterations before the tensor is met, and none of them met it
    now, before, t = W['node']._input, W['in0'], z(W['a'].t)
    q = z3.Int('q!inv')
    return SBool(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(L.k)), elem_at(before, SInt(q)) != t)))

def replay(cn, args):
    return None

def bounded(tier, seed, shard, nshards, R):
    from props import C04net
    C04net.run(R, seed, shard, nshards, 16000 if tier == 'quick' else 400000)
