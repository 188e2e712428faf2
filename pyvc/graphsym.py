"""Symbolic doubles of the graph's index tables (dictionaries keyed by tensor and node names) and of nodes, for
contracts on the real methods of tf2onnx.graph.Graph.  Tables and input lists have any size."""
from .z3load import z3
from . import core, hooks
from .core import SInt, SBool, SStr, VList, Unsupported, ctx, zi, zs, STR, NODE, B, I, KSTR, Kind, log_write, tobool_z3

ARR_B = z3.ArraySort(STR, B)
ARR_S = z3.ArraySort(STR, STR)
MEM = z3.ArraySort(STR, ARR_B)
def zname(x):
    z = zs(x)
    if z is None:
        raise Unsupported('not a name: %r' % (x,))
    return z

class SMap:
    """name -> set of names"""
    def __init__(self, hint='C'):
        c = ctx()
        self.hint = hint
        self.dom, self.mem = c.fresh(ARR_B, hint + '_dom'), c.fresh(MEM, hint + '_mem')
    def eff(self, k, x):
        return z3.And(self.dom[k], z3.Select(self.mem[k], x))
    def copy_state(self):
        return (self.dom, self.mem)
    _vc_snapshot = copy_state
    def _vc_havoc(self):
        c = ctx()
        self.dom, self.mem = c.fresh(ARR_B, self.hint + '_dom'), c.fresh(MEM, self.hint + '_mem')
    def __contains__(self, k):
        z = zs(k)
        return z is not None and ctx().fork(self.dom[z])
    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return SSetRef(self, zname(k))
    def get(self, k, d=None):
        return SSetRef(self, zname(k)) if k in self else d
    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return SSetRef(self, zname(k))
    def __setitem__(self, k, v):
        log_write(self)
        z = zname(k)
        if isinstance(v, SSetRef):
            row = v.m.mem[v.k]
        elif isinstance(v, (set, list)):
            row = z3.K(STR, z3.BoolVal(False))
            for e in v:
                row = z3.Store(row, zname(e), True)
        else:
            raise Unsupported('value of a table')
        self.dom, self.mem = z3.Store(self.dom, z, True), z3.Store(self.mem, z, row)
    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        log_write(self)
        self.dom = z3.Store(self.dom, zname(k), False)
    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        log_write(self)
        r = SSetRef(self, zname(k))
        self.dom = z3.Store(self.dom, zname(k), False)
        return r
    def __iter__(self): raise Unsupported('iteration over a table')
    keys = values = items = __len__ = __bool__ = __iter__

class SSetRef:
    def __init__(self, m, k):
        self.m, self.k = m, k
    def row(self): return self.m.mem[self.k]
    def _put(self, x, v):
        log_write(self.m)
        self.m.mem = z3.Store(self.m.mem, self.k, z3.Store(self.row(), zname(x), v))
    def __contains__(self, x):
        z = zs(x)
        return z is not None and ctx().fork(z3.Select(self.row(), z))
    def add(self, x): self._put(x, True)
    def discard(self, x): self._put(x, False)
    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self._put(x, False)
    def _vc_tolist(self):
        """some enumeration of the set"""
        c = ctx()
        n, arr = c.fresh(I, 'card'), c.fresh(z3.ArraySort(I, STR), 'enum')
        pos = z3.Function('pos!%d' % c.nfresh, STR, I)
        j, x = z3.Int('j!en'), z3.Const('x!en', STR)
        row = self.row()
        c.assume(n >= 0)
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(row, arr[j]), pos(arr[j]) == j)), patterns=[arr[j]]))
        c.assume(z3.ForAll([x], z3.Implies(z3.Select(row, x), z3.And(pos(x) >= 0, pos(x) < n, arr[pos(x)] == x)), patterns=[pos(x)]))
        r = VList.symbolic(n, arr, KSTR)
        r_pos[id(arr)] = pos
        c.inputs.setdefault('_pos', None)
        self.m.last_pos = pos
        return r
    def _vc_iter(self):
        return hooks.SListIter(self._vc_tolist())
    def __iter__(self): raise Unsupported('iteration over a symbolic set')
    def __len__(self): raise Unsupported('len of a symbolic set')
    def copy(self): return self._vc_tolist()
    def __bool__(self):
        x = z3.Const('x!ne', STR)
        return ctx().fork(z3.Exists([x], z3.Select(self.row(), x)))
r_pos = {}

class SDict:
    """name -> value of a kind"""
    def __init__(self, kind, hint='D'):
        self.kind, self.hint = kind, hint
        c = ctx()
        self.dom, self.val = c.fresh(ARR_B, hint + '_dom'), c.fresh(z3.ArraySort(STR, kind.sort), hint + '_val')
    def copy_state(self): return (self.dom, self.val)
    _vc_snapshot = copy_state
    def _vc_havoc(self):
        c = ctx()
        self.dom, self.val = c.fresh(ARR_B, self.hint + '_dom'), c.fresh(z3.ArraySort(STR, self.kind.sort), self.hint + '_val')
    def __contains__(self, k):
        z = zs(k)
        return z is not None and ctx().fork(self.dom[z])
    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.kind.wrap(self.val[zname(k)])
    def get(self, k, d=None):
        return self.kind.wrap(self.val[zname(k)]) if k in self else d
    def __setitem__(self, k, v):
        log_write(self)
        self.dom, self.val = z3.Store(self.dom, zname(k), True), z3.Store(self.val, zname(k), self.kind.unwrap(v))
    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        log_write(self)
        self.dom = z3.Store(self.dom, zname(k), False)
    def pop(self, k, *d):
        if k not in self:
            if d:
                return d[0]
            raise KeyError(k)
        r = self.kind.wrap(self.val[zname(k)])
        log_write(self)
        self.dom = z3.Store(self.dom, zname(k), False)
        return r
    def __iter__(self): raise Unsupported('iteration over a table')
    keys = values = items = __len__ = __bool__ = __iter__

# -------------------------------------------------------------------- nodes as opaque references into a heap
class SNodeRef:
    """reference to some node; what it reads and what it is called live in uninterpreted functions"""
    def __init__(self, z): self.z = z
    @property
    def name(self): return SStr(name_of(self.z))
    @property
    def input(self): return SReads(self.z)
    def __eq__(self, o): return SBool(self.z == o.z) if isinstance(o, SNodeRef) else False
    def __ne__(self, o): return SBool(self.z != o.z) if isinstance(o, SNodeRef) else True
    __hash__ = None
name_of = z3.Function('name_of', NODE, STR)
reads = z3.Function('reads', NODE, STR, B)
class SReads:
    def __init__(self, z): self.z = z
    def __contains__(self, t):
        z = zs(t)
        return z is not None and ctx().fork(reads(self.z, z))
    def __iter__(self): raise Unsupported('iteration over the inputs of an opaque node')
    def __getitem__(self, i): raise Unsupported('input of an opaque node')
KNODE = Kind('node', NODE, SNodeRef, lambda v: v.z if isinstance(v, SNodeRef) else (_ for _ in ()).throw(Unsupported('not a node')))
SNodeRef._vc_kind = KNODE
OptNode = z3.Datatype('OptNode')
OptNode.declare('none')
OptNode.declare('some', ('val', NODE))
OptNode = OptNode.create()
def _w(z):
    if ctx().fork(OptNode.is_none(z)):
        return None
    return SNodeRef(OptNode.val(z))
def _u(v):
    return OptNode.none if v is None else OptNode.some(KNODE.unwrap(v))
KOPTNODE = Kind('opt-node', OptNode, _w, _u)
KNODE.opt = KOPTNODE

# -------------------------------------------------------------------- a parent graph, seen from one child
class ParentTable:
    """_input_to_graph of the parent, of which only the entries of one child matter"""
    def __init__(self, child):
        c = ctx()
        self.child = child
        self.dom, self.has = c.fresh(ARR_B, 'P_dom'), c.fresh(ARR_B, 'P_has')
    def _vc_snapshot(self): return (self.dom, self.has)
    def _vc_havoc(self):
        c = ctx()
        self.dom, self.has = c.fresh(ARR_B, 'P_dom'), c.fresh(ARR_B, 'P_has')
    def __contains__(self, k): return ctx().fork(self.dom[zname(k)])
    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return ParentRow(self, zname(k))
    def get(self, k, d=None): return ParentRow(self, zname(k)) if k in self else d
    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return ParentRow(self, zname(k))
    def __setitem__(self, k, v):
        if not isinstance(v, dict):
            raise Unsupported('row of the parent table')
        log_write(self)
        z = zname(k)
        self.dom, self.has = z3.Store(self.dom, z, True), z3.Store(self.has, z, any(o is self.child for o in v.values()))
    def __iter__(self): raise Unsupported('iteration over a table')
    def eff(self, k): return z3.And(self.dom[k], self.has[k])
class ParentRow:
    def __init__(self, t, k): self.t, self.k = t, k
    def _key(self, i):
        if i != id(self.t.child):
            raise Unsupported('entry of another child')
    def __contains__(self, i):
        self._key(i)
        return ctx().fork(self.t.has[self.k])
    def __setitem__(self, i, g):
        self._key(i)
        log_write(self.t)
        self.t.has = z3.Store(self.t.has, self.k, g is self.t.child)
    def __getitem__(self, i):
        if i not in self: raise KeyError(i)
        return self.t.child
    def __delitem__(self, i):
        if i not in self: raise KeyError(i)
        log_write(self.t)
        self.t.has = z3.Store(self.t.has, self.k, False)
    def pop(self, i, *d):
        if i not in self:
            if d: return d[0]
            raise KeyError(i)
        del self[i]
        return self.t.child
    def __iter__(self): raise Unsupported('iteration over a row')
class CallLog:
    """ghost record of the calls made to a contract stub"""
    def __init__(self): self.__dict__['l'] = ()
    def append(self, x): self.__dict__['l'] += (x,)
    def __getitem__(self, i): return self.l[i]
    def __len__(self): return len(self.l)
class Parent:
    """the parent graph, its own methods replaced by their contracts"""
    parent_graph = None
    def __init__(self, child):
        self._input_to_graph = ParentTable(child)
        self.calls = CallLog()
    def _register_input_name(self, name, node, only_graph=False):
        self.calls.append(('reg', name, node, only_graph))
    def _unregister_input_name(self, name, node, only_graph=False):
        self.calls.append(('unreg', name, node, only_graph))

class Op:
    def __init__(self, name, t='Foo'): self.name, self.op_type, self.domain = name, t, ''

def mknode(name, inputs, outputs=None, graph=None):
    from tf2onnx.graph import Node
    n = Node.__new__(Node)
    n._op, n._input, n._output, n.graph, n._attr, n._skip_conversion = Op(name), inputs, outputs if outputs is not None else VList(), graph, {}, True
    return n

def mkgraph_sym(parent=None):
    from tf2onnx.graph import Graph
    g = Graph.__new__(Graph)
    g._output_to_consumers = SMap('C')
    g._input_to_graph = {}
    g.contained_graphs = {}
    g.parent_graph = Parent(g) if parent else None
    g.graph_name = 'g'
    g.inputs, g.outputs, g._nodes = VList(), VList(), VList()
    return g
