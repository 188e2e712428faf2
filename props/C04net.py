"""Bounded net for C04: random sequences of graph edits on nested graphs, compared after every edit with an
independent book-keeping model that stores nothing but each graph's nodes and finds everything by scanning them."""
import numpy as np

class MN:
    def __init__(self, name, op, ins, outs):
        self.name, self.op, self.ins, self.outs, self.bodies = name, op, list(ins), list(outs), {}
class MG:
    def __init__(self, parent=None):
        self.nodes, self.parent, self.shapes, self.dtypes, self.outputs = {}, parent, {}, {}, []
        self.inputs = []
    def producer(self, t, up=True):
        g = self
        while g is not None:
            for n in g.nodes.values():
                if t in n.outs:
                    return n
            if not up:
                return None
            g = g.parent
        return None
    def owner(self, t):
        g = self
        while g is not None:
            for n in g.nodes.values():
                if t in n.outs:
                    return g
            g = g.parent
        return None
    def consumers(self, t):
        r = []
        for n in self.nodes.values():
            if t in n.ins:
                r.append(n.name)
            for b in n.bodies.values():
                r += b.consumers(t)
        return r
    def graphs(self):
        yield self
        for n in list(self.nodes.values()):
            for b in n.bodies.values():
                yield from b.graphs()
    def visible(self):
        """tensors a node of this graph may read"""
        r, g = [], self
        while g is not None:
            for n in g.nodes.values():
                r += n.outs
            g = g.parent
        return r
    def users_below(self, n):
        """ancestor-or-self relation: does node n (transitively) depend on ... computed by scanning"""
    def deep_inputs(self, n):
        r = set(n.ins)
        for b in n.bodies.values():
            for m in b.nodes.values():
                r |= b.deep_inputs(m)
        return r

def depends(mg, name, on):
    """does node `name` of mg transitively read an output of node `on` (both in mg)"""
    seen, todo = set(), [name]
    while todo:
        x = todo.pop()
        if x == on:
            return True
        if x in seen:
            continue
        seen.add(x)
        for t in mg.deep_inputs(mg.nodes[x]):
            p = mg.producer(t, False)
            if p is not None:
                todo.append(p.name)
    return False

class Run:
    def __init__(self, rng):
        from tf2onnx.graph import Graph
        self.rng, self.log, self.k = rng, [], 0
        self.Graph = Graph
        self.root = Graph([], output_shapes={}, dtypes={}, opset=13, output_names=[])
        self.mroot = MG()
        self.real = {self.mroot: self.root}
        self.gone = []                       # (model graph, tensor) removed
    def pick(self, l):
        return l[self.rng.randint(len(l))]
    def fresh(self, p='n'):
        self.k += 1
        return '%s%d' % (p, self.k)
    def say(self, s):
        self.log.append(s)
    # ---------------------------------------------------------------- comparisons
    def check(self):
        tensors = set()
        for mg in self.mroot.graphs():
            for n in mg.nodes.values():
                tensors |= set(n.ins) | set(n.outs)
        tensors |= {t for _, t in self.gone}
        tensors.discard('')
        for mg in self.mroot.graphs():
            g = self.real[mg]
            who = 'graph of depth %d' % (0 if mg.parent is None else 1 if mg.parent.parent is None else 2)
            have = {n.name: n for n in g.get_nodes()}
            if sorted(have) != sorted(mg.nodes) or len(g.get_nodes()) != len(mg.nodes):
                return '%s holds nodes %s, expected %s' % (who, sorted(n.name for n in g.get_nodes()), sorted(mg.nodes))
            for nm, m in mg.nodes.items():
                n = have[nm]
                if g.get_node_by_name(nm) is not n:
                    return '%s: get_node_by_name(%s) does not find the node' % (who, nm)
                if list(n.input) != m.ins or list(n.output) != m.outs or n.type != m.op:
                    return '%s: node %s is %s %s -> %s, expected %s %s -> %s' % (who, nm, n.type, list(n.input), list(n.output), m.op, m.ins, m.outs)
                if n.graph is not g:
                    return '%s: node %s belongs to another graph' % (who, nm)
                ins = n.inputs
                for t, p in zip(m.ins, ins):
                    q = mg.producer(t)
                    if (p.name if p is not None else None) != (q.name if q is not None else None):
                        return '%s: input %s of node %s resolves to %s' % (who, t, nm, p)
                bodies = n.get_body_graphs() or {}
                if sorted(bodies) != sorted(m.bodies) or any(bodies[a] is not self.real[b] for a, b in m.bodies.items()):
                    return '%s: body graphs of %s are %s' % (who, nm, sorted(bodies))
            if sorted(n.name for n in g.inputs) != sorted(mg.inputs):
                return '%s: graph inputs %s, expected %s' % (who, [n.name for n in g.inputs], mg.inputs)
            if list(g.outputs) != mg.outputs:
                return '%s: graph outputs %s, expected %s' % (who, g.outputs, mg.outputs)
            for t in tensors:
                for up in (True, False):
                    p, q = g.get_node_by_output(t, search_in_parent_graphs=up), mg.producer(t, up)
                    if (p.name if p else None) != (q.name if q else None):
                        return '%s: the producer of %s is %s, found %s' % (who, t, q.name if q else None, p.name if p else None)
                if mg.owner(t) is None and not any(t == b for _, b in self.gone):
                    continue           # belongs to a graph further in
                c, d = sorted(n.name for n in g.find_output_consumers(t)), sorted(mg.consumers(t))
                if c != d:
                    return '%s: the consumers of %s are %s, found %s' % (who, t, d, c)
                o = mg.owner(t)
                if g.get_dtype(t) != (o.dtypes.get(t) if o else None):
                    return '%s: dtype of %s is %s, expected %s' % (who, t, g.get_dtype(t), o.dtypes.get(t) if o else None)
                if g.get_shape(t) != (o.shapes.get(t) if o else None):
                    return '%s: shape of %s is %s, expected %s' % (who, t, g.get_shape(t), o.shapes.get(t) if o else None)
        return None
    # ---------------------------------------------------------------- edits
    def graph(self):
        return self.pick(list(self.mroot.graphs()))
    def note(self, mg, name, op, ins, outs, shapes, dtypes):
        m = MN(name, op, ins, outs)
        mg.nodes[name] = m
        for o, s, d in zip(outs, shapes, dtypes):
            mg.shapes[o] = s; mg.dtypes[o] = d
        return m
    def shp(self):
        return [int(x) for x in self.rng.randint(1, 5, self.rng.randint(0, 3))]
    def readable(self, mg):
        """what a new node of mg may read without making a cycle"""
        r, g, child = [], mg, None
        while g is not None:
            holder = next((n for n in g.nodes.values() if child in n.bodies.values()), None) if child is not None else None
            for n in g.nodes.values():
                if holder is None or not depends(g, n.name, holder.name):
                    r += n.outs
            child, g = g, g.parent
        return r
    def e_make(self):
        mg = self.graph()
        vis = self.readable(mg)
        ins = [self.pick(vis) for _ in range(self.rng.randint(0, 4))] if vis else []
        if ins and self.rng.rand() < .15:
            ins = ins + ['']
        no = 1 + (self.rng.rand() < .25)
        nm = self.fresh()
        outs = [nm + ':%d' % i for i in range(no)]
        sh, dt = [self.shp() for _ in outs], [self.pick([1, 6, 7]) for _ in outs]
        bodies = {}
        if self.rng.rand() < .3 and (mg.parent is None or mg.parent.parent is None):
            bodies = {a: None for a in (['body'] if self.rng.rand() < .6 else ['then_branch', 'else_branch'])}
        op = 'Foo' if not bodies else 'Loop' if len(bodies) == 1 else 'If'
        g = self.real[mg]
        br = {}
        for a in bodies:
            b = g.create_new_graph_with_same_config()
            mb = MG(mg)
            self.real[mb] = b
            early = self.rng.rand() < .5
            if early:
                b.parent_graph = g
            # a body built before it is attached
            for _ in range(self.rng.randint(0, 3)):
                vis2 = vis + [t for n in mb.nodes.values() for t in n.outs]
                bi = [self.pick(vis2) for _ in range(self.rng.randint(0, 3))] if vis2 else []
                bn = self.fresh()
                b.make_node('Bar', bi, outputs=[bn + ':0'], name=bn, shapes=[[2]], dtypes=[1])
                self.note(mb, bn, 'Bar', bi, [bn + ':0'], [[2]], [1])
            br[a] = b
            bodies[a] = mb
        self.say('make %s %s <- %s bodies %s' % (nm, outs, ins, {a: {n.name: n.ins for n in b.nodes.values()} for a, b in bodies.items()}))
        late = bodies and self.rng.rand() < .3
        n = g.make_node(op, list(ins), outputs=list(outs), name=nm, shapes=[list(s) for s in sh], dtypes=list(dt), branches={} if late else br)
        m = self.note(mg, nm, op, ins, outs, sh, dt)
        for a, b in bodies.items():
            if late:
                n.set_body_graph_as_attr(a, br[a])
            m.bodies[a] = b
    def e_const(self):
        mg = self.graph()
        nm = self.fresh('c')
        v = np.zeros(self.shp(), np.float32)
        self.real[mg].make_const(nm, v)
        self.say('const ' + nm)
        self.note(mg, nm, 'Const', [], [nm], [list(v.shape)], [1])
    def e_input(self):
        mg = self.graph()
        nm = self.fresh('x')
        self.say('input ' + nm)
        n0 = set(n.name for n in self.real[mg].get_nodes())
        self.real[mg].add_graph_input(nm, 1, [3])
        new = [n.name for n in self.real[mg].get_nodes() if n.name not in n0]
        if len(new) != 1:
            return 'add_graph_input added nodes %s' % new
        self.note(mg, new[0], 'Placeholder', [], [nm], [[3]], [1])
        mg.inputs.append(new[0])
    def somenode(self, need_input=True, mg=None):
        mg = mg or self.graph()
        l = [n for n in mg.nodes.values() if (n.ins and any(n.ins)) or not need_input]
        return (mg, self.pick(l)) if l else (mg, None)
    def safe_new(self, mg, m):
        """tensors node m of mg may be rewired to without making a cycle"""
        r, out = [], set(self.readable(mg))
        for t in mg.visible():
            p = mg.producer(t, False)
            if p is None:
                if t in out:
                    r.append(t)
            elif not depends(mg, p.name, m.name):
                r.append(t)
        return r
    def e_replace_input(self):
        mg, m = self.somenode()
        if m is None: return
        i = self.pick([k for k, t in enumerate(m.ins) if t])
        new = self.safe_new(mg, m)
        if not new: return
        new = self.pick(new)
        old = m.ins[i]
        g = self.real[mg]
        if self.rng.rand() < .5:
            self.say('replace_input %s %s -> %s index %d' % (m.name, old, new, i))
            g.replace_input(g.get_node_by_name(m.name), old, new, i)
            m.ins[i] = new
        else:
            self.say('replace_input %s %s -> %s' % (m.name, old, new))
            g.replace_input(g.get_node_by_name(m.name), old, new)
            m.ins = [new if t == old else t for t in m.ins]
    def e_replace_inputs(self):
        mg, m = self.somenode(False)
        if m is None: return
        new = self.safe_new(mg, m)
        if not new: return
        l = [self.pick(new) for _ in range(self.rng.randint(0, 4))]
        g = self.real[mg]
        self.say('replace_inputs %s %s -> %s' % (m.name, m.ins, l))
        g.replace_inputs(g.get_node_by_name(m.name), list(l))
        m.ins = l
    def e_remove_input(self):
        mg, m = self.somenode()
        if m is None: return
        i = self.pick([k for k, t in enumerate(m.ins) if t])
        g = self.real[mg]
        if m.ins.count(m.ins[i]) == 1 and self.rng.rand() < .5:
            self.say('remove_input %s %s' % (m.name, m.ins[i]))
            g.remove_input(g.get_node_by_name(m.name), m.ins[i])
        else:
            self.say('remove_input %s %s index %d' % (m.name, m.ins[i], i))
            g.remove_input(g.get_node_by_name(m.name), m.ins[i], i)
        del m.ins[i]
    def rewire(self, mg, old, new, skip=()):
        for n in mg.nodes.values():
            if n.name not in skip:
                n.ins = [new if t == old else t for t in n.ins]
            for b in n.bodies.values():
                self.rewire(b, old, new)
    def e_replace_all(self):
        mg = self.graph()
        own = [t for n in mg.nodes.values() for t in n.outs]
        vis = mg.visible()
        if not vis: return
        old = self.pick(own if own and self.rng.rand() < .7 else vis)
        # the readers of old must not feed new
        readers = [n.name for n in mg.nodes.values() if old in mg.deep_inputs(n)]
        ok, out = [], set(self.readable(mg))
        for t in vis:
            p = mg.producer(t, False)
            if p is None:
                ok += [t] if t in out else []
            elif not any(depends(mg, p.name, r) for r in readers):
                ok.append(t)
        if not ok: return
        new = self.pick(ok)
        g = self.real[mg]
        if self.rng.rand() < .6:
            self.say('replace_all_inputs %s -> %s' % (old, new))
            g.replace_all_inputs(old, new)
        else:
            self.say('replace_all_inputs %s -> %s ops=all' % (old, new))
            g.replace_all_inputs(old, new, ops=g.get_nodes())
        self.rewire(mg, old, new)
    def e_replace_some(self):
        mg = self.graph()
        own = [t for n in mg.nodes.values() for t in n.outs]
        if not own: return
        old = self.pick(own)
        readers = [n for n in mg.nodes.values() if old in n.ins]
        if any(old in mg.deep_inputs(n) and old not in n.ins for n in mg.nodes.values()) or any(b.consumers(old) for n in readers for b in n.bodies.values()):
            return
        some = [n for n in readers if self.rng.rand() < .5]
        ok = [t for t in own if not any(depends(mg, mg.producer(t, False).name, r.name) for r in some)]
        if not ok: return
        new = self.pick(ok)
        g = self.real[mg]
        self.say('replace_all_inputs %s -> %s ops=%s' % (old, new, [n.name for n in some]))
        g.replace_all_inputs(old, new, ops=[g.get_node_by_name(n.name) for n in some])
        if old != new:
            for n in some:
                n.ins = [new if t == old else t for t in n.ins]
    def e_insert_on_input(self):
        mg, m = self.somenode()
        if m is None: return
        i = self.pick([k for k, t in enumerate(m.ins) if t])
        g = self.real[mg]
        old = m.ins[i]
        nm = self.fresh('i')
        if self.rng.rand() < .5:
            self.say('insert_new_node_on_input %s input %d' % (m.name, i))
            n = g.insert_new_node_on_input(g.get_node_by_name(m.name), 'Cast', old, name=nm, input_index=i, to=1)
            k = i
        else:
            self.say('insert_new_node_on_input %s input %s' % (m.name, old))
            n = g.insert_new_node_on_input(g.get_node_by_name(m.name), 'Cast', old, name=nm, to=1)
            k = m.ins.index(old)
        out = list(n.output)
        m.ins[k] = out[0]
        self.note(mg, nm, 'Cast', [old], out, [g.get_shape(out[0])], [g.get_dtype(out[0])])
    def e_insert_on_output(self):
        mg = self.graph()
        own = [t for n in mg.nodes.values() for t in n.outs]
        if not own: return
        old = self.pick(own)
        g = self.real[mg]
        # insert_node_on_output reads the consumers recorded for the graph itself
        if not any(old in n.ins for n in mg.nodes.values()): return
        nm = self.fresh('o')
        self.say('insert_new_node_on_output %s' % old)
        n = g.insert_new_node_on_output('Cast', old, name=nm, to=1)
        out = list(n.output)
        self.note(mg, nm, 'Cast', [old], out, [g.get_shape(out[0])], [g.get_dtype(out[0])])
        self.rewire(mg, old, out[0], skip=(nm,))
    def drop(self, mg, m):
        del mg.nodes[m.name]
        for t in m.outs:
            mg.shapes.pop(t, None); mg.dtypes.pop(t, None)
            self.gone.append((mg, t))
        if m.name in mg.inputs:
            mg.inputs.remove(m.name)
    def e_remove(self):
        mg = self.graph()
        l = [n for n in mg.nodes.values() if not any(mg.consumers(t) for t in n.outs) and not any(t in mg.outputs for t in n.outs) and '' not in n.ins]
        if not l: return
        m = self.pick(l)
        self.say('remove_node ' + m.name)
        self.real[mg].remove_node(m.name)
        self.drop(mg, m)
    def e_recreate(self):
        """the idiom of the handlers: remove a node, make another one with the same outputs"""
        mg = self.graph()
        l = [n for n in mg.nodes.values() if n.name not in mg.inputs and not n.bodies]
        if not l: return
        m = self.pick(l)
        g = self.real[mg]
        sh, dt = [g.get_shape(t) for t in m.outs], [g.get_dtype(t) for t in m.outs]
        if self.rng.rand() < .3:
            sh = [None] * len(m.outs)          # the new node knows nothing of the old one's shapes or types
        if self.rng.rand() < .3:
            dt = [None] * len(m.outs)
        if any(x is None for x in sh):
            sh = [None] * len(m.outs)
        if any(x is None for x in dt):
            dt = [None] * len(m.outs)
        nm = m.name if self.rng.rand() < .5 else self.fresh()
        ins = [t for t in m.ins if self.rng.rand() < .8]
        self.say('remove_node %s, make_node %s <- %s' % (m.name, nm, ins))
        g.remove_node(m.name)
        del mg.nodes[m.name]
        kw = {}
        if sh[0] is not None:
            kw['shapes'] = sh
        if dt[0] is not None:
            kw['dtypes'] = dt
        g.make_node('Baz', list(ins), outputs=list(m.outs), name=nm, infer_shape_dtype=False, **kw)
        self.note(mg, nm, 'Baz', ins, m.outs, sh, dt)
    def e_safe(self):
        mg = self.graph()
        names = [n for n in mg.nodes if self.rng.rand() < .4]
        g = self.real[mg]
        ns = [g.get_node_by_name(n) for n in names]
        def free(n, among, ignore=()):
            return all(c in among for t in mg.nodes[n].outs if t not in ignore for c in mg.consumers(t))
        want = sorted(n for n in names if free(n, names))
        got = sorted(n.name for n in g.safe_to_remove_nodes(ns))
        if want != got:
            return 'safe_to_remove_nodes(%s) is %s, expected %s' % (names, got, want)
        ign = [t for n in names for t in mg.nodes[n].outs if self.rng.rand() < .3]
        for ig in (None, ign):
            w = all(free(n, names, ig or ()) for n in names)
            if bool(g.is_safe_to_remove_nodes(ns, ig)) != w:
                return 'is_safe_to_remove_nodes(%s, %s) is %s' % (names, ig, not w)
    def e_output(self):
        mg = self.graph()
        own = [t for n in mg.nodes.values() for t in n.outs if mg.shapes.get(t) is not None and mg.dtypes.get(t) is not None and t not in mg.outputs]
        if not own: return
        t = self.pick(own)
        self.say('add_graph_output ' + t)
        self.real[mg].add_graph_output(t)
        mg.outputs.append(t)
    def e_delete_unused(self):
        if self.rng.rand() < .6 or not self.mroot.outputs: return
        self.say('delete_unused_nodes(%s)' % self.mroot.outputs)
        self.root.delete_unused_nodes(self.root.outputs)
        self.prune(self.mroot)
    def prune(self, mg):
        if not mg.outputs: return
        keep, todo = set(), [t for t in mg.outputs] + [t for n in mg.inputs for t in mg.nodes[n].outs]
        while todo:
            p = mg.producer(todo.pop(), False)
            if p is None or p.name in keep: continue
            keep.add(p.name)
            todo += sorted(mg.deep_inputs(p))
        for n in list(mg.nodes.values()):
            if n.name not in keep:
                self.drop(mg, n)
        for n in mg.nodes.values():
            for b in n.bodies.values():
                self.prune(b)
    def e_sort(self):
        mg = self.graph()
        g = self.real[mg]
        if '' in [t for n in mg.nodes.values() for t in n.ins] and False: return
        self.say('topological_sort')
        g.topological_sort(g.get_nodes())
        pos = {n.name: i for i, n in enumerate(g.get_nodes())}
        for n in mg.nodes.values():
            for t in mg.deep_inputs(n):
                p = mg.producer(t, False)
                if p is not None and p.name != n.name and pos.get(p.name, -1) > pos.get(n.name, -1):
                    return 'after topological_sort %s stands before %s, which it reads' % (n.name, p.name)
    def e_copy(self):
        mg = self.graph()
        vis = mg.visible()
        if not vis: return
        a, b = self.pick(vis), self.pick(vis)
        g = self.real[mg]
        self.say('copy_shape/copy_dtype %s -> %s' % (a, b))
        sa, da = mg.owner(a).shapes.get(a), mg.owner(a).dtypes.get(a)
        g.copy_dtype(a, b)
        mg.owner(b).dtypes[b] = da
        if sa is not None:
            g.copy_shape(a, b)
            mg.owner(b).shapes[b] = list(sa)
    def e_rename_tensors(self):
        mg = self.graph()
        own = [t for n in mg.nodes.values() for t in n.outs if not any(b.consumers(t) for m in mg.nodes.values() for b in m.bodies.values())]
        if not own: return
        d = {t: self.fresh('t') for t in own if self.rng.rand() < .3}
        self.say('rename_tensors %s' % d)
        self.real[mg].rename_tensors(dict(d))
        for n in mg.nodes.values():
            n.ins, n.outs = [d.get(t, t) for t in n.ins], [d.get(t, t) for t in n.outs]
        for tab in (mg.shapes, mg.dtypes):
            for a, b in d.items():
                if a in tab: tab[b] = tab.pop(a)
        mg.outputs[:] = [d.get(t, t) for t in mg.outputs]
        self.gone += [(mg, t) for t in d]
    def e_change_name(self):
        mg = self.graph()
        l = [n for n in mg.nodes.values() if n.name not in mg.inputs and not n.bodies]
        if not l: return
        m = self.pick(l)
        nm = self.fresh('r')
        g = self.real[mg]
        sh, dt = [g.get_shape(t) for t in m.outs], [g.get_dtype(t) for t in m.outs]
        if any(s is None for s in sh) or any(d is None for d in dt): return
        self.say('change_node_name %s -> %s' % (m.name, nm))
        g.change_node_name(g.get_node_by_name(m.name), nm)
        old = list(m.outs)
        self.drop(mg, m)
        new = [nm + ':%d' % i for i in range(len(old))]
        self.note(mg, nm, m.op, m.ins, new, sh, dt)
        for a, b in zip(old, new):
            self.rewire(mg, a, b)
            mg.outputs[:] = [b if t == a else t for t in mg.outputs]
    EDITS = [('make', 10), ('const', 2), ('input', 1), ('replace_input', 5), ('replace_inputs', 3), ('remove_input', 3), ('replace_all', 5), ('replace_some', 2),
             ('insert_on_input', 3), ('insert_on_output', 3), ('remove', 4), ('recreate', 3), ('safe', 2), ('output', 2), ('delete_unused', 1), ('sort', 2), ('copy', 1),
             ('rename_tensors', 1), ('change_name', 1)]
    def go(self, steps):
        names = [n for n, w in self.EDITS for _ in range(w)]
        for _ in range(steps):
            e = names[self.rng.randint(len(names))]
            try:
                r = getattr(self, 'e_' + e)()
                r = r or self.check()
            except Exception as ex:
                import traceback
                return e, 'raises %s: %s @ %s' % (type(ex).__name__, str(ex)[:200], traceback.format_exc()[-500:])
            if r:
                return e, r
        return None

def run(R, seed, shard, nshards, n, steps=40):
    import time
    for k in range(n):
        if k % nshards != shard or time.time() > R.deadline or R.full():
            continue
        s = seed * 1000003 + k
        r = Run(np.random.RandomState(s % (2 ** 32)))
        ln = 3 + k % steps
        bad = r.go(ln)
        R.count('edit_sequences')
        R.count('edits', len(r.log))
        if bad:
            e, txt = bad
            R.violation('net:edits:%s:%s' % (e, ' '.join(w for w in txt.split()[:6] if not any(ch.isdigit() for ch in w))), 'after [%s]: %s' % ('; '.join(r.log[-12:]), txt), seed=s, steps=ln)
    R.flush()
