"""Loads /repo's current source: modules, import bindings, classes, functions."""

import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')

ALIASES = {
    'theano.tensor': 'tensor',
    'theano.tensor.nnet': 'tensor.nnet',
    'np': 'numpy',
}


class Func(object):
    def __init__(self, module, cls, node):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name
        decs = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in node.decorator_list]
        self.static = 'staticmethod' in decs
        self.classmethod = 'classmethod' in decs
        self.abstract = any('abstract' in d for d in decs)
        self.decorators = decs

    @property
    def qualname(self):
        return (self.cls.qualname + '.' if self.cls else '') + self.name

    @property
    def key(self):
        return self.module.name + ':' + self.qualname

    @property
    def where(self):
        return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qualname)

    def params(self):
        a = self.node.args
        return [p.arg for p in getattr(a, 'posonlyargs', []) + a.args]


class Class(object):
    def __init__(self, module, node, outer=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.outer = outer
        self.methods = {}
        self.consts = {}
        self.inner = {}
        for item in node.body:
            if isinstance(item, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[item.name] = Func(module, self, item)
            elif isinstance(item, ast.ClassDef):
                self.inner[item.name] = Class(module, item, self)
            elif isinstance(item, ast.Assign) and len(item.targets) == 1 and isinstance(item.targets[0], ast.Name):
                self.consts[item.targets[0].id] = item.value

    @property
    def qualname(self):
        return (self.outer.qualname + '.' if self.outer else '') + self.name

    @property
    def key(self):
        return self.module.name + ':' + self.qualname

    def __repr__(self):
        return '<class %s>' % self.qualname


class Module(object):
    def __init__(self, project, name, relpath, text):
        self.project = project
        self.name = name
        self.relpath = relpath
        self.text = text
        self.tree = ast.parse(text, relpath)
        self.imports = {}
        self.star = []
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.is_pkg = relpath.endswith('__init__.py')
        self._scan(self.tree.body)
        self._frame()

    def _frame(self):
        """What importing or running the module executes, as a function."""
        body = [n for n in self.tree.body
                if not isinstance(n, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Try))
                and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
        node = ast.FunctionDef(name='<module>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=body or [ast.Pass()], decorator_list=[], lineno=1, col_offset=0)
        self.funcs['<module>'] = Func(self, None, ast.fix_missing_locations(node))

    def _scan(self, body):
        for node in body:
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    parts = self.name.split('.')
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (node.level - 1)]
                    base = '.'.join(parts + ([base] if base else []))
                for a in node.names:
                    if a.name == '*':
                        self.star.append(base)
                    else:
                        self.imports[a.asname or a.name] = base + '.' + a.name
            elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[node.name] = Func(self, None, node)
            elif isinstance(node, ast.ClassDef):
                self.classes[node.name] = Class(self, node)
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = node.value
            elif isinstance(node, (ast.Try, ast.If, ast.With)):
                self._scan(node.body)
                for h in getattr(node, 'handlers', []):
                    self._scan(h.body)
                self._scan(getattr(node, 'orelse', []) or [])


class Project(object):
    def __init__(self, root=None, overrides=None):
        self.overrides = overrides or {}
        self.root = root or REPO
        self.modules = {}
        self.errors = []
        self.common_nodes = frozenset()
        self.files = 0
        for top in ('theanolm', 'wordclasses'):
            for d, dirs, files in os.walk(os.path.join(self.root, top)):
                dirs[:] = [x for x in sorted(dirs) if x != '__pycache__']
                for f in sorted(files):
                    if f.endswith('.py'):
                        path = os.path.join(d, f)
                        rel = os.path.relpath(path, self.root)
                        name = rel[:-3].replace('/', '.')
                        if name.endswith('.__init__'):
                            name = name[:-9]
                        self._load(name, rel, path)
        for script in ('theanolm', 'wctool'):
            path = os.path.join(self.root, 'bin', script)
            if os.path.exists(path):
                self._load('bin.' + script, 'bin/' + script, path)

    def _load(self, name, rel, path):
        if name in self.overrides:
            text = self.overrides[name]
        else:
            with open(path, encoding='utf-8') as f:
                text = f.read()
        self.modules[name] = Module(self, name, rel, text)
        self.files += 1

    # ---- resolution -------------------------------------------------------

    def resolve_dotted(self, dotted, seen=None):
        """Follows re-exports to the defining place. Returns ('func', Func),
        ('class', Class), ('module', Module), ('const', Module, node) or
        ('ext', dotted)."""
        seen = seen or set()
        if dotted in seen:
            return ('ext', dotted)
        seen.add(dotted)
        if dotted in self.modules:
            return ('module', self.modules[dotted])
        if '.' in dotted:
            mod, _, name = dotted.rpartition('.')
            r = self.resolve_dotted(mod, seen)
            if r[0] == 'module':
                return self.lookup(r[1], name, seen) or ('ext', dotted)
            if r[0] == 'class':
                c = r[1]
                if name in c.inner:
                    return ('class', c.inner[name])
                m = self.method(c, name)
                if m:
                    return ('func', m)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + name)
        return ('ext', dotted)

    def lookup(self, module, name, seen=None):
        if name in module.funcs:
            return ('func', module.funcs[name])
        if name in module.classes:
            return ('class', module.classes[name])
        if name in module.imports:
            target = module.imports[name]
            if module.is_pkg and target == module.name + '.' + name and target in self.modules:
                return ('module', self.modules[target])
            return self.resolve_dotted(target, seen)
        if name in module.consts:
            return ('const', module, name)
        for base in module.star:
            r = self.resolve_dotted(base, seen)
            if r[0] == 'module':
                x = self.lookup(r[1], name, seen)
                if x and not (x[0] == 'ext'):
                    return x
        sub = module.name + '.' + name
        if sub in self.modules:
            return ('module', self.modules[sub])
        return None

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            c = self.class_from_expr(cls.module, b)
            if c is not None:
                for x in self.mro(c):
                    if x not in out:
                        out.append(x)
        return out

    def class_from_expr(self, module, expr):
        parts = []
        e = expr
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        r = self.lookup(module, e.id)
        for p in reversed(parts):
            if r is None:
                return None
            if r[0] == 'module':
                r = self.lookup(r[1], p)
            elif r[0] == 'class':
                r = ('class', r[1].inner[p]) if p in r[1].inner else None
            else:
                return None
        return r[1] if r and r[0] == 'class' else None

    def method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def overridden(self, cls, name):
        """Whether a subclass of cls has its own method of this name."""
        cache = self.__dict__.setdefault('_overridden', {})
        k = (id(cls), name)
        if k not in cache:
            cache[k] = any(c is not cls and name in c.methods and cls in self.mro(c) for c in self.all_classes())
        return cache[k]

    def all_classes(self):
        def rec(c):
            yield c
            for i in c.inner.values():
                for x in rec(i):
                    yield x
        for m in self.modules.values():
            for c in m.classes.values():
                for x in rec(c):
                    yield x

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
        for c in self.all_classes():
            for f in c.methods.values():
                yield f

    def subclasses(self, cls):
        return [c for c in self.all_classes() if cls in self.mro(c)]

    def find_class(self, dotted):
        """'theanolm.training.stoppers.BasicStopper' or bare name, tolerant of
        moves between modules."""
        mod, _, name = dotted.rpartition('.')
        if mod in self.modules and name in self.modules[mod].classes:
            return self.modules[mod].classes[name]
        if mod:
            r = self.resolve_dotted(dotted)
            if r[0] == 'class':
                return r[1]
        cands = [c for c in self.all_classes() if c.qualname == name or c.name == name]
        if mod.startswith('wordclasses'):
            cands = [c for c in cands if c.module.name.startswith('wordclasses')] or cands
        if len(cands) == 1:
            return cands[0]
        return None

    def find_func(self, spec):
        """'module:Class.method' or 'module:function'."""
        mod, _, qn = spec.partition(':')
        parts = qn.split('.')
        if len(parts) > 1:
            c = self.find_class(mod + '.' + parts[0])
            for p in parts[1:-1]:
                if c is None:
                    return None
                c = c.inner.get(p)
            if c is None:
                return None
            return self.method(c, parts[-1])
        m = self.modules.get(mod)
        if m and parts[0] in m.funcs:
            return m.funcs[parts[0]]
        if m:
            r = self.lookup(m, parts[0])
            if r and r[0] == 'func':
                return r[1]
        cands = [f for f in self.all_funcs() if f.cls is None and f.name == parts[0]]
        return cands[0] if len(cands) == 1 else None

    # ---- modification sets -----------------------------------------------

    def mod_attrs(self, func, cls=None, _seen=None):
        """Attributes of self that a method may assign, transitively through
        calls to methods of self."""
        cls = cls or func.cls
        other = self._contract(func, cls)
        if other is not None and _seen is None:
            return self.contract.mod_attrs(*other)
        seen = _seen if _seen is not None else set()
        key = (id(func.node), id(cls))
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        ps = func.params()
        if not ps or func.static:
            return out
        me = ps[0]

        def base_self_attr(t):
            # self.X, self.X[...], self.X.Y = ...
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                    return t.attr
                t = t.value
            return None

        for n in ast.walk(func.node):
            targets = []
            if isinstance(n, ast.Assign):
                targets = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                targets = [n.target]
            elif isinstance(n, ast.Delete):
                targets = n.targets
            elif isinstance(n, ast.For):
                targets = [n.target]
            flat = []
            for t in targets:
                if isinstance(t, (ast.Tuple, ast.List)):
                    flat.extend(t.elts)
                else:
                    flat.append(t)
            for t in flat:
                a = base_self_attr(t)
                if a:
                    out.add(a)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                f = n.func
                if isinstance(f.value, ast.Name) and f.value.id == me and cls is not None:
                    m = self.method(cls, f.attr)
                    if m is not None:
                        out |= self.mod_attrs(m, cls, seen)
                elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and func.cls is not None:
                    mro = self.mro(cls) if cls else []
                    if func.cls in mro:
                        for c in mro[mro.index(func.cls) + 1:]:
                            if f.attr in c.methods:
                                out |= self.mod_attrs(c.methods[f.attr], cls, seen)
                                break
                else:
                    a = base_self_attr(f.value) if isinstance(f.value, (ast.Attribute, ast.Subscript)) else None
                    if a and f.attr in MUTATORS:
                        out.add(a)
        return out

    def read_attrs(self, func, cls=None):
        """Attributes of self that a method may read, transitively."""
        cls = cls or func.cls
        other = self._contract(func, cls)
        if other is not None:
            return self.contract.read_attrs(*other)
        key = (id(func.node), id(cls))
        cache = self.__dict__.setdefault('_reads', {})
        if key in cache:
            return cache[key]
        out, seen, todo = set(), set(), [func]
        while todo:
            f = todo.pop()
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            ps = f.params()
            if not ps or f.static:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0]:
                    m = self.method(cls, n.attr) if cls else None
                    if m is not None:
                        todo.append(m)
                    elif isinstance(n.ctx, ast.Load):
                        out.add(n.attr)
                    elif True:
                        pass
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute) and \
                        isinstance(n.target.value, ast.Name) and n.target.value.id == ps[0]:
                    out.add(n.target.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) \
                        and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and f.cls and cls:
                    mro = self.mro(cls)
                    if f.cls in mro:
                        for c in mro[mro.index(f.cls) + 1:]:
                            if n.func.attr in c.methods:
                                todo.append(c.methods[n.func.attr])
                                break
        cache[key] = out
        return out

    def deep_attrs(self, func, cls=None):
        """Attributes X of self whose object a method may change by calling a
        mutating method of it or by storing its attributes, transitively
        through methods of self."""
        cls = cls or func.cls
        other = self._contract(func, cls)
        if other is not None:
            return self.contract.deep_attrs(*other)
        key = (id(func.node), id(cls))
        cache = self.__dict__.setdefault('_deep', {})
        if key in cache:
            return cache[key]
        cache[key] = set()
        muts = self.mutating_method_names()
        out, seen, todo = set(), set(), [func]
        while todo:
            f = todo.pop()
            if id(f.node) in seen:
                continue
            seen.add(id(f.node))
            ps = f.params()
            if not ps or f.static:
                continue
            me = ps[0]
            alias = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    a = self_attr(n.value, me)
                    if a:
                        alias[n.targets[0].id] = a
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    g = n.func
                    if isinstance(g.value, ast.Name) and g.value.id == me:
                        m = self.method(cls, g.attr) if cls else None
                        if m is not None:
                            todo.append(m)
                    elif isinstance(g.value, ast.Call) and isinstance(g.value.func, ast.Name) and \
                            g.value.func.id == 'super' and f.cls and cls:
                        mro = self.mro(cls)
                        if f.cls in mro:
                            for c in mro[mro.index(f.cls) + 1:]:
                                if g.attr in c.methods:
                                    todo.append(c.methods[g.attr])
                                    break
                    elif g.attr in muts:
                        a = alias.get(g.value.id) if isinstance(g.value, ast.Name) else self_attr(g.value, me)
                        if a:
                            out.add(a)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name):
                        a = alias.get(n.value.id) if n.value.id != me else None
                    else:
                        a = self_attr(n.value, me)
                    if a:
                        out.add(a)
        cache[key] = out
        return out

    # A function that is compared with its specification on its own is seen by
    # its callers through the footprint of the specification, on both sides.
    contract = None
    contract_funcs = {}
    contract_classes = {}

    def _contract(self, func, cls):
        if self.contract is None:
            return None
        f = self.contract_funcs.get(id(func.node))
        c = self.contract_classes.get(cls.key) if cls is not None else None
        if f is None or (cls is not None and c is None):
            return None
        return f, c

    def reads_of_name(self, name):
        """Attributes of the receiver that methods of this name may read."""
        if self.contract is not None and name in self.contract.method_names():
            return self.contract.reads_of_name(name)
        cache = self.__dict__.setdefault('_readnames', {})
        if name not in cache:
            cache[name] = set()
            for c in self.all_classes():
                if name in c.methods:
                    cache[name] |= self.read_attrs(c.methods[name], c)
        return cache[name]

    def method_names(self):
        if not hasattr(self, '_mnames'):
            self._mnames = {m for c in self.all_classes() for m in c.methods}
        return self._mnames

    def mutating_method_names(self):
        if not hasattr(self, '_mutnames'):
            out = set()
            for c in self.all_classes():
                for m in c.methods.values():
                    if m.name.startswith('__'):
                        continue
                    if self.mod_attrs(m, c):
                        out.add(m.name)
            if self.contract is not None:
                known = {m.name for c in self.contract.all_classes() for m in c.methods.values()}
                out = {x for x in out if x not in known} | self.contract.mutating_method_names()
            self._mutnames = out
        return self._mutnames


def self_attr(t, me):
    """X of an expression self.X, self.X[...], self.X.Y"""
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
            return t.attr
        t = t.value
    return None


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'remove', 'clear', 'sort', 'reverse',
            'setdefault', 'discard', 'popitem', 'seek', 'resize'}
