"""Structural rules applied directly to the code under analysis.

Each rule looks only at the current source (not at the specification), states
an obligation that every construct of a kind has to meet, and reports the
construct that does not meet it.  Where a rule cannot resolve something it
stays silent about it.
"""

import ast
import builtins


class Found(object):
    def __init__(self):
        self.checked = 0
        self.found = []       # (identity, message)

    def report(self, ident, msg):
        if ident not in [i for i, m in self.found]:
            self.found.append((ident, msg))


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def at(module, node):
    return '%s:%d' % (module.relpath, getattr(node, 'lineno', 0))


# ------------------------------------------------------------------- names

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__class__', '__package__', '__spec__'}


class Scope(object):
    def __init__(self, node, parent, kind):
        self.node = node
        self.parent = parent
        self.kind = kind
        self.bound = set()
        self.uses = []
        self.globals = set()


def bind_target(scope, t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            scope.bound.add(n.id)


class Names(ast.NodeVisitor):
    def __init__(self):
        self.scopes = []
        self.cur = None

    def push(self, node, kind):
        s = Scope(node, self.cur, kind)
        self.scopes.append(s)
        self.cur = s
        return s

    def pop(self):
        self.cur = self.cur.parent

    def visit_Module(self, n):
        self.push(n, 'module')
        self.generic_visit(n)
        self.pop()

    def func(self, n):
        if not isinstance(n, ast.Lambda):
            self.cur.bound.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        s = self.push(n, 'function')
        a = n.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x is not None]:
            s.bound.add(p.arg)
        for b in (n.body if isinstance(n.body, list) else [n.body]):
            self.visit(b)
        self.pop()

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = func

    def visit_ClassDef(self, n):
        self.cur.bound.add(n.name)
        for x in n.bases + [k.value for k in n.keywords] + n.decorator_list:
            self.visit(x)
        self.push(n, 'class')
        for b in n.body:
            self.visit(b)
        self.pop()

    def comp(self, n):
        self.visit(n.generators[0].iter)
        s = self.push(n, 'function')
        for i, g in enumerate(n.generators):
            if i:
                self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        for f in ('elt', 'key', 'value'):
            if hasattr(n, f):
                self.visit(getattr(n, f))
        self.pop()

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.cur.uses.append(n)
        else:
            s = self.cur
            s.bound.add(n.id)

    def visit_NamedExpr(self, n):
        s = self.cur
        while isinstance(s.node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            s = s.parent
        s.bound.add(n.target.id)
        self.visit(n.value)

    def visit_Global(self, n):
        self.cur.globals |= set(n.names)

    visit_Nonlocal = visit_Global

    def visit_ExceptHandler(self, n):
        if n.name:
            self.cur.bound.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.cur.bound.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.cur.bound.add(a.asname or a.name)

    def visit_MatchAs(self, n):
        if n.name:
            self.cur.bound.add(n.name)
        self.generic_visit(n)


def star_names(code, module):
    """Names that 'from x import *' brings in, or None if unknown."""
    out = set()
    for base in module.star:
        m = code.modules.get(base)
        if m is None:
            return None
        out |= {n for n in list(m.funcs) + list(m.classes) + list(m.imports) + list(m.consts) if not n.startswith('_')}
        sub = star_names(code, m)
        if sub is None:
            return None
        out |= sub
    return out


@rule
def names(code, spec, comparer):
    """Every name that is read is bound somewhere in an enclosing scope or imported from where it exists."""
    r = Found()
    for m in code.modules.values():
        v = Names()
        v.visit(m.tree)
        stars = star_names(code, m)
        for s in v.scopes:
            for u in s.uses:
                r.checked += 1
                p, ok = s, False
                while p is not None:
                    if u.id in p.bound and (p is s or p.kind != 'class'):
                        ok = True
                        break
                    if u.id in p.globals:
                        ok = True
                        break
                    p = p.parent
                if ok or u.id in BUILTINS or stars is None or u.id in stars:
                    continue
                r.report('%s %s' % (m.name, u.id), '%s: name %s is not defined' % (at(m, u), u.id))
        # what is imported from the project exists
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and not n.level and n.module in code.modules:
                for a in n.names:
                    r.checked += 1
                    if a.name != '*' and not exists(code, code.modules[n.module], a.name):
                        r.report('%s import %s' % (m.name, a.name), '%s: %s does not define %s' % (at(m, n), n.module, a.name))
    for m in code.modules.values():
        for f in functions_in(m.tree):
            for name, node in unbound_locals(f):
                r.report('%s %s unbound' % (m.name, name), '%s: local variable %s of %s is read where it can never have been assigned' % (
                    at(m, node), name, f.name))
    return r


def exists(code, module, name):
    if name in module.funcs or name in module.classes or name in module.imports or name in module.consts:
        return True
    if module.name + '.' + name in code.modules:
        return True
    for n in ast.walk(module.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
            return True
    for b in module.star:
        if b not in code.modules or exists(code, code.modules[b], name):
            return True
    return False


def functions_in(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield n


def unbound_locals(f):
    """Locals that are read although every assignment comes later in
    straight-line code (not inside a loop that could come back)."""
    assigned, reads = {}, {}
    params = {p.arg for p in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
    skip = set()

    def visit(n, loops):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                assigned.setdefault(n.name, []).append((n.lineno, loops))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        skip.add(x.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            skip.update(n.names)
        if isinstance(n, ast.Name):
            pos = (n.lineno, n.col_offset)
            if isinstance(n.ctx, ast.Load):
                reads.setdefault(n.id, []).append((n, loops))
            else:
                assigned.setdefault(n.id, []).append((n.lineno, loops))
        if isinstance(n, ast.ExceptHandler) and n.name:
            assigned.setdefault(n.name, []).append((n.lineno, loops))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                assigned.setdefault((a.asname or a.name).split('.')[0], []).append((n.lineno, loops))
        inner = loops + (n,) if isinstance(n, (ast.For, ast.While)) else loops
        for c in ast.iter_child_nodes(n):
            visit(c, inner)
    for b in f.body:
        visit(b, ())
    out = []
    for name, rs in reads.items():
        if name in params or name in skip or name not in assigned:
            continue
        for node, loops in rs:
            ok = False
            for line, al in assigned[name]:
                if line <= node.lineno or any(l in al for l in loops):
                    ok = True
                    break
            if not ok:
                out.append((name, node))
    return out


# -------------------------------------------------------------- attributes


def class_members(code, cls):
    """Everything an instance of cls may have, or None if unknown."""
    out = set()
    for c in code.mro(cls):
        for b in c.node.bases:
            if code.class_from_expr(c.module, b) is None and ast.unparse(b) not in ('object', 'ABC', 'abc.ABC'):
                return None
        out |= set(c.methods) | set(c.consts) | set(c.inner)
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
        for f in c.methods.values():
            if f.name in ('__getattr__', '__getattribute__'):
                return None
            ps = f.params()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                    return None
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    return None
    return out


OBJECT = set(dir(object)) | {'__dict__', '__name__'}


@rule
def attributes(code, spec, comparer):
    """Every attribute read from self exists in the class, and every member read from a project module exists there."""
    r = Found()
    members = {id(c): class_members(code, c) for c in code.all_classes()}
    stored = {}
    for m in code.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                stored.setdefault(n.attr, []).append(n)
    for c in code.all_classes():
        mem = members[id(c)]
        if mem is None:
            continue
        # what any subclass defines may be used by a base class (abstract members)
        for s in code.subclasses(c):
            sm = members[id(s)]
            if sm is None:
                mem = None
                break
            mem = mem | sm
        if mem is None:
            continue
        for f in c.methods.values():
            ps = f.params()
            if not ps or f.static or f.classmethod:
                continue
            guarded = {n.args[1].value for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
                       and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == ps[0] and isinstance(n.ctx, ast.Load):
                    r.checked += 1
                    if n.attr not in mem and n.attr not in OBJECT and n.attr not in guarded and not outside(stored, n.attr, c):
                        r.report('%s self.%s' % (c.key, n.attr), '%s: %s has no attribute %s' % (at(c.module, n), c.qualname, n.attr))
    for m in code.modules.values():
        v = Names()
        v.visit(m.tree)
        local = {}
        for s in v.scopes:
            if s.kind == 'function':
                for b in s.bound:
                    local.setdefault(b, []).append(s)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                t = m.imports.get(n.value.id)
                if t in code.modules and n.value.id not in local:
                    r.checked += 1
                    if not exists(code, code.modules[t], n.attr):
                        r.report('%s %s.%s' % (m.name, n.value.id, n.attr), '%s: module %s has no member %s' % (at(m, n), t, n.attr))
    return r


def outside(stored, attr, cls):
    """Assigned from outside the class (obj.attr = ...)."""
    return attr in stored


# -------------------------------------------------------------------- calls


@rule
def calls(code, spec, comparer):
    """Every call of a project function, method of self or constructor passes arguments its signature accepts."""
    r = Found()

    def check(m, call, f, skip, what):
        a = f.node.args
        if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
            return
        r.checked += 1
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        given = pos[:len(call.args)]
        if len(call.args) > len(pos) and not a.vararg:
            r.report('%s calls %s' % (m.name, what), '%s: %s takes %d arguments, %d given' % (at(m, call), what, len(pos), len(call.args)))
            return
        kw = {k.arg for k in call.keywords}
        kwonly = {p.arg for p in a.kwonlyargs}
        for k in kw:
            if k in given:
                r.report('%s calls %s' % (m.name, what), '%s: %s gets %s twice' % (at(m, call), what, k))
            elif k not in pos and k not in kwonly and not a.kwarg:
                r.report('%s calls %s' % (m.name, what), '%s: %s has no parameter %s' % (at(m, call), what, k))
        missing = [p for p in need if p not in given and p not in kw]
        missing += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and p.arg not in kw]
        if missing:
            r.report('%s calls %s' % (m.name, what), '%s: %s is called without %s' % (at(m, call), what, ', '.join(missing)))

    def init(c):
        return code.method(c, '__init__')

    for f in code.all_funcs():
        m = f.module
        ps = f.params()
        nested = {}
        for n in ast.walk(f.node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node and not isinstance(n, ast.Lambda):
                nested[n.name] = n
        bound = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(ps) | set(nested)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            g = n.func
            if isinstance(g, ast.Name) and g.id not in bound:
                t = code.lookup(m, g.id)
                if t is None:
                    continue
                if t[0] == 'func' and not t[1].decorators:
                    check(m, n, t[1], 0, g.id)
                elif t[0] == 'class':
                    i = init(t[1])
                    if i is not None and all(code.class_from_expr(c.module, b) is not None or ast.unparse(b) in ('object',)
                                             for c in code.mro(t[1]) for b in c.node.bases):
                        check(m, n, i, 1, g.id)
            elif isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and f.cls is not None and ps and g.value.id == ps[0] and not f.static and not f.classmethod:
                h = code.method(f.cls, g.attr)
                if h is not None and not code.overridden(f.cls, g.attr) and 'property' not in h.decorators:
                    stored = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == g.attr for c in code.mro(f.cls) for x in ast.walk(c.node))
                    if not stored and not (set(h.decorators) - {'staticmethod', 'classmethod', 'abstractmethod'}):
                        check(m, n, h, 0 if h.static else 1, 'self.' + g.attr)
    return r


# ------------------------------------------------------------------ options


def option_dests(func):
    """{dest: node} of the add_argument calls of a function; None if some
    option cannot be resolved."""
    out = {}
    for n in ast.walk(func):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            dest = None
            for k in n.keywords:
                if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                    dest = k.value.value
                elif k.arg is None:
                    return None
                elif k.arg == 'action' and isinstance(k.value, ast.Constant) and k.value.value in ('help', 'version'):
                    dest = ''
            if dest is None:
                flags = []
                for a in n.args:
                    if not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
                        return None
                    flags.append(a.value)
                if not flags:
                    return None
                long = [x for x in flags if x.startswith('--')]
                dest = (long[0][2:] if long else flags[0].lstrip('-')).replace('-', '_')
            if dest:
                out[dest] = n
    return out


COMMANDS = [('theanolm.commands.train', 'add_arguments'), ('theanolm.commands.score', 'add_arguments'),
            ('theanolm.commands.decode', 'add_arguments'), ('theanolm.commands.sample', 'add_arguments'),
            ('wordclasses.wctool', 'main')]


@rule
def options_used(code, spec, comparer):
    """Every option value that is read has an option that sets it, and every option is read."""
    r = Found()
    for mod, fn in COMMANDS:
        m = code.modules.get(mod)
        if m is None or fn not in m.funcs:
            continue
        dests = {}
        bad = False
        for f in functions_in(m.tree):
            d = option_dests(f)
            if d is None:
                bad = True
            else:
                dests.update(d)
        if bad or not dests:
            continue
        # helpers of other modules that get the parser make the set incomplete
        names_ = {'args'}
        reads = {}
        escapes = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id in ('vars', 'getattr') and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == 'args':
                    escapes = True
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in ('parser', 'argument_group'):
                        t = code.lookup(m, n.func.id) if isinstance(n.func, ast.Name) else None
                        if not (t and t[0] == 'func' and t[1].module is m):
                            escapes = True
                    if isinstance(a, ast.Name) and a.id == 'args':
                        t = code.lookup(m, n.func.id) if isinstance(n.func, ast.Name) else None
                        if not (t and t[0] == 'func' and t[1].module is m):
                            escapes = True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'args' and isinstance(n.ctx, ast.Load):
                reads.setdefault(n.attr, n)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'args' and isinstance(n.ctx, ast.Store):
                dests.setdefault(n.attr, n)
        if escapes or not reads:
            continue
        for k, n in reads.items():
            r.checked += 1
            if k not in dests:
                r.report('%s reads %s' % (mod, k), '%s: args.%s is read, but no option sets it' % (at(m, n), k))
        for k, n in dests.items():
            r.checked += 1
            if k not in reads:
                r.report('%s ignores %s' % (mod, k), '%s: the value of option %s is never used' % (at(m, n), k))
    return r


def const_str(node):
    return node.value if isinstance(node, ast.Constant) and isinstance(node.value, str) else None


@rule
def option_keys(code, spec, comparer):
    """Every training and optimization option that is read by key is set by the train command, and every one set is read."""
    r = Found()
    m = code.modules.get('theanolm.commands.train')
    if m is None:
        return r
    written = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1:
            t = n.targets[0]
            if isinstance(t, ast.Name) and t.id.endswith('_options') and isinstance(n.value, ast.Dict):
                ks = [const_str(k) if k is not None else None for k in n.value.keys]
                if None in ks:
                    return r
                written.setdefault(t.id, {}).update({k: n for k in ks})
            elif isinstance(t, ast.Name) and t.id.endswith('_options'):
                if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'dict':
                    if n.value.args or any(k.arg is None for k in n.value.keywords):
                        return r
                    written.setdefault(t.id, {}).update({k.arg: n for k in n.value.keywords})
                else:
                    return r
            elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id.endswith('_options'):
                k = const_str(t.slice)
                if k is None:
                    return r
                written.setdefault(t.value.id, {})[k] = n
    if set(written) != {'training_options', 'optimization_options'}:
        return r
    reads = {}
    for k, mm in code.modules.items():
        if not k.startswith('theanolm.training') and mm is not m:
            continue
        for n in ast.walk(mm.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                b = n.value
                nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else ''
                if nm in written or nm == '_options':
                    c = const_str(n.slice)
                    if c is None:
                        return r
                    reads.setdefault(c, (mm, n))
    both = set(written['training_options']) | set(written['optimization_options'])
    for k, (mm, n) in reads.items():
        r.checked += 1
        if k not in both:
            r.report('reads ' + k, '%s: option %s is read, but the train command does not set it' % (at(mm, n), k))
    return r


# -------------------------------------------------------------- saved state


def keys_of(func, consts):
    """String keys a function uses on groups and attributes of a state:
    (stored, read, ok)"""
    stored, read, ok = {}, {}, True
    for n in ast.walk(func):
        if isinstance(n, ast.Subscript):
            k = const_str(n.slice)
            if k is None and isinstance(n.slice, ast.Name) and n.slice.id in consts:
                k = const_str(consts[n.slice.id])
            if k is not None:
                (stored if isinstance(n.ctx, ast.Store) else read).setdefault(k, n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args:
            k = const_str(n.args[0])
            if k is None:
                continue
            if n.func.attr in ('require_group', 'create_group', 'create_dataset', 'require_dataset'):
                stored.setdefault(k, n)
            elif n.func.attr == 'get':
                read.setdefault(k, n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            pass
    return stored, read


PAIRS = [('theanolm.training.trainer', 'Trainer', ['get_state', '_set_candidate_state'], ['_reset_state', 'initialize']),
         ('theanolm.training.basicoptimizer', 'BasicOptimizer', ['get_state'], ['set_state']),
         ('theanolm.parsing.shufflingbatchiterator', 'ShufflingBatchIterator', ['get_state'], ['set_state']),
         ('theanolm.vocabulary.vocabulary', 'Vocabulary', ['get_state'], ['from_state'])]


@rule
def state_keys(code, spec, comparer):
    """Every key that is saved in a model file is read back when it is loaded, and every key read is saved."""
    r = Found()
    for mod, cname, ws, rs in PAIRS:
        m = code.modules.get(mod)
        if m is None or cname not in m.classes:
            continue
        c = m.classes[cname]

        def gather(starts):
            """The functions and the methods of the class they call."""
            out, todo = [], [c.methods[x] for x in starts if x in c.methods]
            while todo:
                f = todo.pop()
                if f in out:
                    continue
                out.append(f)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Call):
                        nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
                        g = c.methods.get(nm) or m.funcs.get(nm)
                        if g is not None and (nm.startswith('_') and not nm.startswith('__')):
                            todo.append(g)
            return out
        W, R = {}, {}
        for f in gather(ws):
            W.update(keys_of(f.node, m.consts)[0])
        for f in gather(rs):
            R.update(keys_of(f.node, m.consts)[1])
        if not W or not R:
            continue
        dyn = any(isinstance(n, ast.Subscript) and isinstance(n.slice, (ast.Name, ast.Attribute)) and isinstance(n.value, (ast.Attribute, ast.Name))
                  and (getattr(n.value, 'attr', '') == 'attrs' or getattr(n.value, 'id', '').startswith(('state', 'h5')))
                  for f in gather(ws) + gather(rs) for n in ast.walk(f.node))
        if dyn:
            continue
        for k, n in W.items():
            r.checked += 1
            if k not in R:
                r.report('%s saves %s' % (cname, k), '%s: %s saves %s, but does not read it back' % (at(m, n), cname, k))
        for k, n in R.items():
            r.checked += 1
            if k not in W:
                r.report('%s reads %s' % (cname, k), '%s: %s reads %s, which is not saved' % (at(m, n), cname, k))
    return r


# ----------------------------------------------------------- compiled graphs


@rule
def training_flag(code, spec, comparer):
    """A compiled network function runs in training mode exactly when it has parameter updates."""
    r = Found()
    for m in code.modules.values():
        if not m.name.startswith('theanolm'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func) in ('theano.function', 'function'):
                kw = {k.arg: k.value for k in n.keywords}
                g = kw.get('givens')
                if None in kw or not isinstance(g, (ast.List, ast.Tuple)):
                    continue
                for e in g.elts:
                    if isinstance(e, ast.Tuple) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Attribute) and e.elts[0].attr == 'is_training':
                        vals = [x.value for x in ast.walk(e.elts[1]) if isinstance(x, ast.Constant)]
                        if len(vals) != 1:
                            continue
                        r.checked += 1
                        if bool(vals[0]) != ('updates' in kw):
                            r.report('%s is_training' % m.name, '%s: compiled with is_training = %r %s parameter updates' % (
                                at(m, e), vals[0], 'with' if 'updates' in kw else 'without'))
    return r


@rule
def param_paths(code, spec, comparer):
    """Every parameter a layer uses is created under the same name by its constructor."""
    r = Found()
    base = code.find_class('theanolm.network.basiclayer.BasicLayer')
    if base is None:
        return r
    for c in code.all_classes():
        if base not in code.mro(c) or c is base:
            continue
        created, used, ok = set(), {}, True
        for k in code.mro(c):
            if k is base:
                continue
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self'):
                        continue
                    a = n.func.attr
                    if a in ('_init_weight', '_init_bias'):
                        s = const_str(n.args[0]) if n.args else None
                        if s is None:
                            ok = False
                        created.add(s)
                    elif a in ('_get_param', '_param_path'):
                        s = const_str(n.args[0]) if n.args else None
                        if s is None:
                            ok = False
                        used.setdefault(s, (k.module, n))
                    elif a in ('_tensor_preact', '_tensor_conv1d'):
                        s = const_str(n.args[1]) if len(n.args) > 1 else None
                        if s is None:
                            ok = False
                            continue
                        used.setdefault(s + '/W', (k.module, n))
                        if not any(kk.arg == 'use_bias' for kk in n.keywords) and len(n.args) < 3:
                            used.setdefault(s + '/b', (k.module, n))
        if not ok or not created:
            continue
        for s, (m, n) in used.items():
            r.checked += 1
            if s not in created:
                r.report('%s %s' % (c.qualname, s), '%s: layer %s uses parameter %s, which it does not create' % (at(m, n), c.qualname, s))
    return r


# --------------------------------------------------------------- compression


@rule
def gz_mmap(code, spec, comparer):
    """No file that may be compressed is read through its file descriptor."""
    r = Found()
    for m in code.modules.values():
        aware = any(isinstance(n, ast.Attribute) and n.attr in ('GzipFile', 'decompress') or isinstance(n, ast.Name) and n.id == 'GzipFile' or
                    isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith('.gz') and len(n.value) < 6
                    for n in ast.walk(m.tree))
        for f in [x for x in code.all_funcs() if x.module is m]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and ast.unparse(n.func) in ('mmap.mmap', 'mmap'):
                    r.checked += 1
                    if not aware and n.args and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'fileno'
                                                    for x in ast.walk(n.args[0])):
                        r.report('%s mmap' % f.key, '%s: the raw bytes of the file are mapped, also if they are compressed' % at(m, n))
    return r


# ---------------------------------------------------------- optional modules

# Submodules that the package itself imports only in some configurations
# (theano/__init__.py imports gpuarray only if a GPU device is configured).
OPTIONAL_MODULES = {'theano.gpuarray'}


def catches_attribute_error(handler):
    if handler.type is None:
        return True
    types = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
    return any(isinstance(t, ast.Name) and t.id in ('AttributeError', 'Exception', 'BaseException') for t in types)


def unprotected(node, wanted):
    """The nodes of a function body for which wanted() holds and that are not
    in a try statement that catches AttributeError."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)) and n is not node:
            return
        if isinstance(n, ast.Try) and any(catches_attribute_error(h) for h in n.handlers):
            for part in (n.handlers, n.orelse, n.finalbody):
                for x in part:
                    visit(x)
            return
        if wanted(n):
            out.append(n)
            return
        for x in ast.iter_child_nodes(n):
            visit(x)
    visit(node)
    return out


@rule
def optional_modules(code, spec, comparer):
    """A submodule that only some configurations have is used only where its absence is handled."""
    r = Found()
    for mod in sorted(OPTIONAL_MODULES):
        package, sub = mod.rsplit('.', 1)
        # an import of it anywhere, or a test of its presence, makes it available or handled
        for m in code.modules.values():
            here = [n for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and ast.unparse(n) == mod]
            if not here:
                continue
            if any(isinstance(n, ast.Import) and any(a.name == mod or a.name.startswith(mod + '.') for a in n.names) or
                   isinstance(n, ast.ImportFrom) and n.module and (n.module == mod or n.module.startswith(mod + '.')) or
                   isinstance(n, ast.Constant) and n.value in (sub, mod)
                   for n in ast.walk(m.tree)):
                continue
            inside = set()
            for f in functions_in(m.tree):
                inside.update(id(n) for n in ast.walk(f))
                r.checked += 1
                bad = unprotected(f, lambda n: isinstance(n, ast.Attribute) and ast.unparse(n) == mod)
                if not bad:
                    continue
                # a function that is called only from protected places may fail
                todo, seen, exposed = [f.name], set(), None
                while todo and exposed is None:
                    name = todo.pop()
                    if name in seen:
                        continue
                    seen.add(name)
                    calls_, callers = 0, []
                    for mm in code.modules.values():
                        for g in list(functions_in(mm.tree)) + [mm.tree]:
                            for c in unprotected(g, lambda n: isinstance(n, ast.Call) and
                                                 (n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, 'attr', None)) == name):
                                callers.append(g)
                    for g in callers:
                        if isinstance(g, ast.Module) or g.name in ('train', 'score', 'decode', 'sample', 'version', 'main'):
                            exposed = g
                        else:
                            todo.append(g.name)
                if exposed is not None:
                    r.report('%s %s' % (f.name, mod), '%s: %s uses %s, which does not exist unless a GPU is configured, and nothing handles its absence' % (
                        at(m, bad[0]), f.name, mod))
    return r
