"""Mechanical extraction: every tf2onnx module is loaded from /repo's current source through the AST
transformation below and executed by CPython.  What it changes (and nothing else):
  * for/while loops get a hook that (only when the iterable or a sidecar loop contract is symbolic) cuts the loop
    at its invariant; comprehensions and generator expressions are routed through a hook that maps symbolic lists;
  * list/dict/set displays build the verifier's list/dict/set subclasses;
  * calls to the builtins in SHADOW go to versions that accept symbolic arguments and otherwise call the builtin;
  * numpy calls  np.f(...)  go through a dispatcher that is the real numpy unless an argument is symbolic;
  * attribute assignment is logged (frame check); `"..." % x` tolerates symbolic x;
  * a bare `except:` does not catch the verifier's own control-flow exceptions (it becomes `except Exception:`).
Type annotations are dropped; everything else is the code that runs.
"""
import ast, sys, os, importlib.abc, importlib.util, importlib.machinery

REPO = os.environ.get('VERIF_REPO', '/repo')
SHADOW = {'len', 'isinstance', 'range', 'enumerate', 'zip', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'int', 'float',
          'list', 'tuple', 'set', 'dict', 'abs', 'map', 'filter', 'reversed', 'bool', 'round', 'str', 'type', 'iter', 'next',
          'hasattr', 'frozenset'}
SKIP = ('tf2onnx.tflite.',)
LOOP_INDEX = {}      # 'module:qualname' -> [description of loop k]
FUNC_LINES = {}

MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'discard', 'sort', 'reverse', 'setdefault', 'popitem'}

def assigned_names(body, extra_targets=()):
    """names (re)bound in a list of statements, not descending into nested functions/classes/comprehensions"""
    out = []
    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            tgt(ast.Name(id=n.name))
        visit_AsyncFunctionDef = visit_FunctionDef
        def visit_ClassDef(self, n):
            tgt(ast.Name(id=n.name))
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)
        def visit_AugAssign(self, n):
            tgt(n.target); self.generic_visit(n)
        def visit_AnnAssign(self, n):
            tgt(n.target); self.generic_visit(n)
        def visit_For(self, n):
            tgt(n.target); self.generic_visit(n)
        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)
        def visit_NamedExpr(self, n):
            tgt(n.target); self.generic_visit(n)
        def visit_ExceptHandler(self, n):
            self.generic_visit(n)
    for t in extra_targets:
        tgt(t)
    for s in body:
        V().visit(s)
    return out

def mutated_names(body):
    out = []
    for s in body:
        for n in ast.walk(s):
            nm = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(n.func.value, ast.Name):
                nm = n.func.value.id
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                nm = n.value.id
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                nm = n.target.id
            if nm and nm not in out:
                out.append(nm)
    return out

class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []          # (kind, name)
        self.cnt = 0
        self.loopno = {}
        self.locals = []
    # -- helpers
    def key(self):
        return self.mod + ':' + '.'.join(n for _, n in self.stack)
    def infunc(self):
        return any(k == 'f' for k, _ in self.stack)
    def inclass_direct(self):
        return self.stack and self.stack[-1][0] == 'c'
    def vc(self, fn, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name(id='_vc', ctx=ast.Load()), attr=fn, ctx=ast.Load()),
                        args=list(args), keywords=[])
    def const(self, v):
        return ast.Constant(value=v)
    # -- scopes
    def _func(self, n):
        self.stack.append(('f', n.name))
        k = self.key()
        FUNC_LINES.setdefault(k, (n.lineno, n.end_lineno))
        bound = set(a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs)
        bound |= set(assigned_names(n.body))
        self.locals.append(bound)
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        # defaults and decorators are evaluated in the enclosing scope and left alone
        n.body = self._stmts(n.body)
        self.locals.pop()
        self.stack.pop()
        return n
    visit_FunctionDef = _func
    def visit_ClassDef(self, n):
        self.stack.append(('c', n.name))
        n.body = self._stmts(n.body)
        self.stack.pop()
        return n
    def visit_Lambda(self, n):
        self.locals.append(set(a.arg for a in n.args.args))
        n.body = self.visit(n.body)
        self.locals.pop()
        return n
    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out
    # -- statements
    def visit_AnnAssign(self, n):
        if n.value is None:
            return n if not self.infunc() else ast.copy_location(ast.Pass(), n)
        if not self.infunc():
            return n
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))
    def visit_Assign(self, n):
        if self.infunc() and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
            t = n.targets[0]
            v = self.visit(n.value)
            r = ast.Expr(value=self.vc('setattr_', self.visit(t.value), self.const(self._mangle(t.attr)), v))
            return ast.fix_missing_locations(ast.copy_location(r, n))
        self.generic_visit(n)
        return n
    def _mangle(self, a):
        if a.startswith('__') and not a.endswith('__'):
            for k, nm in reversed(self.stack):
                if k == 'c':
                    return '_' + nm.lstrip('_') + a
        return a
    def _loop_id(self):
        k = self.key()
        self.loopno[k] = self.loopno.get(k, -1) + 1
        return k, self.loopno[k]
    def _havocs(self, tok, names, n):
        if not names:
            return []
        body = []
        for nm in names:
            body.append(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())],
                                   value=ast.Call(func=ast.Attribute(value=ast.Name(id=tok, ctx=ast.Load()), attr='havoc', ctx=ast.Load()),
                                                  args=[self.const(nm), ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[])], keywords=[])))
        body.append(ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tok, ctx=ast.Load()), attr='entered', ctx=ast.Load()),
                                            args=[ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[])], keywords=[])))
        return [ast.If(test=ast.Attribute(value=ast.Name(id=tok, ctx=ast.Load()), attr='cut', ctx=ast.Load()), body=body, orelse=[])]
    def _has_yield(self, body):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s))
    def visit_For(self, n):
        if not self.infunc():
            self.generic_visit(n)
            return n
        k, i = self._loop_id()
        names = assigned_names(n.body, [n.target])
        muts = mutated_names(n.body)
        LOOP_INDEX.setdefault(k, []).append(dict(kind='for', line=n.lineno, assigned=names, mutated=muts))
        self.cnt += 1
        tok = '_vc_t%d' % self.cnt
        it = self.visit(n.iter)
        beg = ast.Assign(targets=[ast.Name(id=tok, ctx=ast.Store())],
                         value=self.vc('for_begin', self.const(k), self.const(i), it,
                                       ast.Tuple(elts=[self.const(x) for x in names], ctx=ast.Load()),
                                       ast.Tuple(elts=[self.const(x) for x in muts], ctx=ast.Load()),
                                       ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[])))
        tgt = self.visit(n.target)
        nonl = self._declared(names)
        new = ast.For(target=tgt, iter=ast.Name(id=tok, ctx=ast.Load()), body=self._stmts(n.body), orelse=self._stmts(n.orelse))
        hv = self._havocs(tok, names, n) or self._havocs_empty(tok)
        out = [beg] + hv + [new]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out
    def _havocs_empty(self, tok):
        return []
    def _declared(self, names):
        return names
    def visit_While(self, n):
        if not self.infunc():
            self.generic_visit(n)
            return n
        k, i = self._loop_id()
        names = assigned_names(n.body)
        muts = mutated_names(n.body)
        LOOP_INDEX.setdefault(k, []).append(dict(kind='while', line=n.lineno, assigned=names, mutated=muts))
        self.cnt += 1
        tok = '_vc_t%d' % self.cnt
        beg = ast.Assign(targets=[ast.Name(id=tok, ctx=ast.Store())],
                         value=self.vc('while_begin', self.const(k), self.const(i),
                                       ast.Tuple(elts=[self.const(x) for x in names], ctx=ast.Load()),
                                       ast.Tuple(elts=[self.const(x) for x in muts], ctx=ast.Load()),
                                       ast.Call(func=ast.Name(id='locals', ctx=ast.Load()), args=[], keywords=[])))
        test = self.visit(n.test)
        step = ast.Call(func=ast.Attribute(value=ast.Name(id=tok, ctx=ast.Load()), attr='step', ctx=ast.Load()), args=[], keywords=[])
        new = ast.While(test=ast.BoolOp(op=ast.And(), values=[step, test]), body=self._stmts(n.body), orelse=self._stmts(n.orelse))
        out = [beg] + self._havocs(tok, names, n) + [new]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return out
    def visit_Try(self, n):
        self.generic_visit(n)
        for h in n.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException'):
                h.type = ast.copy_location(ast.Name(id='Exception', ctx=ast.Load()), h)
        return n
    # -- expressions
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and self.infunc():
            return ast.copy_location(ast.fix_missing_locations(self.vc('mod_', n.left, n.right)), n)
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc():
            return ast.fix_missing_locations(ast.copy_location(self.vc('vlist', n), n))
        return n
    def visit_Dict(self, n):
        self.generic_visit(n)
        if self.infunc():
            return ast.fix_missing_locations(ast.copy_location(self.vc('vdict', n), n))
        return n
    def visit_Set(self, n):
        self.generic_visit(n)
        if self.infunc():
            return ast.fix_missing_locations(ast.copy_location(self.vc('vset', ast.List(elts=n.elts, ctx=ast.Load())), n))
        return n
    def _is_local(self, name):
        return any(name in l for l in self.locals)
    def visit_Call(self, n):
        f = n.func
        if self.infunc() and isinstance(f, ast.Name) and f.id in SHADOW and not self._is_local(f.id):
            if f.id == 'type' and len(n.args) != 1:
                self.generic_visit(n)
                return n
            n.args = [self.visit(a) for a in n.args]
            for k in n.keywords:
                k.value = self.visit(k.value)
            n.func = ast.copy_location(ast.Attribute(value=ast.Name(id='_vc', ctx=ast.Load()), attr='b_' + f.id, ctx=ast.Load()), f)
            return ast.fix_missing_locations(n)
        if self.infunc() and isinstance(f, ast.Attribute):
            p = f
            path = []
            while isinstance(p, ast.Attribute):
                path.append(p.attr)
                p = p.value
            if isinstance(p, ast.Name) and p.id in ('np', 'math', 'numpy_helper', 'copy', 'itertools') and not self._is_local(p.id):
                self.generic_visit(n)
                n.args = [ast.Constant(value=p.id + '.' + '.'.join(reversed(path))), n.func] + n.args
                n.func = ast.Attribute(value=ast.Name(id='_vc', ctx=ast.Load()), attr='libcall', ctx=ast.Load())
                return ast.fix_missing_locations(ast.copy_location(n, f))
        self.generic_visit(n)
        return n
    def _flat(self, t):
        """target -> (lambda arg names, structure)"""
        if isinstance(t, ast.Name):
            return [t.id], ast.Constant(value=0)
        if isinstance(t, (ast.Tuple, ast.List)):
            names, st = [], []
            for e in t.elts:
                a, b = self._flat(e)
                if a is None:
                    return None, None
                names += a
                st.append(b)
            return names, ast.Tuple(elts=st, ctx=ast.Load())
        return None, None
    def _comp(self, n, hook, elt):
        g = n.generators[0]
        if not self.infunc() or len(n.generators) != 1 or g.is_async or self.inclass_direct() or \
           any(isinstance(x, (ast.Yield, ast.Await, ast.NamedExpr)) for x in ast.walk(n)):
            return None
        names, st = self._flat(g.target)
        if names is None or len(set(names)) != len(names):
            return None
        it = self.visit(g.iter)
        self.locals.append(set(names))
        ifs = [self.visit(c) for c in g.ifs]
        e = self.visit(elt)
        self.locals.pop()
        mk = lambda body: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        cond = ast.Constant(value=None)
        if ifs:
            cond = mk(ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs))
        r = self.vc(hook, it, st, mk(e), cond)
        return ast.fix_missing_locations(ast.copy_location(r, n))
    def visit_ListComp(self, n):
        r = self._comp(n, 'listcomp', n.elt)
        if r is not None:
            return r
        self.generic_visit(n)
        return ast.fix_missing_locations(ast.copy_location(self.vc('vlist', n), n)) if self.infunc() else n
    def visit_GeneratorExp(self, n):
        r = self._comp(n, 'genexp', n.elt)
        if r is not None:
            return r
        self.generic_visit(n)
        return n
    def visit_SetComp(self, n):
        r = self._comp(n, 'setcomp', n.elt)
        if r is not None:
            return r
        self.generic_visit(n)
        return n
    def visit_DictComp(self, n):
        r = self._comp(n, 'dictcomp', ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()))
        if r is not None:
            return r
        self.generic_visit(n)
        return n

class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        if not any((fullname + '.').startswith(s) for s in SKIP):
            tree = Tr(fullname).visit(tree)
            ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)
    def exec_module(self, module):
        from . import hooks
        module.__dict__['_vc'] = hooks
        super().exec_module(module)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'tf2onnx' and not fullname.startswith('tf2onnx.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None

def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
