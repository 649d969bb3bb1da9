"""Which functions of the project have effects a caller can observe.

A call is *observable* if it stores into an object it did not create, raises,
calls something observable, or calls an external routine known to change its
receiver.  Everything else is a pure computation, and only its value matters.
"""

import ast

IMPURE = {'readline', 'readlines', 'pop', 'next', 'uniform', 'multinomial', 'choice', 'randint', 'shuffle', 'sample',
          'popleft', 'popitem', 'write', 'writelines', 'seek', 'set_value', 'flush', 'close', 'truncate', 'create_dataset',
          'create_group', 'add_argument', 'set_defaults', 'setrecursionlimit', 'exit', 'seed', 'append', 'extend',
          'insert', 'add', 'update', 'remove', 'clear', 'sort', 'reverse', 'discard', 'setdefault', 'fill', 'resize',
          'rand', 'randn', 'random', 'default_updates', 'unlink', 'rename', 'replace_'}
IGNORED_ROOTS = {'logging', 'print', 'warnings', 'gc', 'time'}


def local_fresh(func_node):
    """Local names that only ever hold objects the function created."""
    params = {a.arg for a in func_node.args.args + func_node.args.kwonlyargs}
    if func_node.args.vararg:
        params.add(func_node.args.vararg.arg)
    if func_node.args.kwarg:
        params.add(func_node.args.kwarg.arg)
    fresh, stale = set(), set(params)
    for n in ast.walk(func_node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                names = [t] if isinstance(t, ast.Name) else [x for x in getattr(t, 'elts', []) if isinstance(x, ast.Name)]
                for x in names:
                    if isinstance(n.value, (ast.Attribute, ast.Name, ast.Subscript)):
                        stale.add(x.id)
                    else:
                        fresh.add(x.id)
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    stale.add(x.id)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            for x in ast.walk(n.optional_vars):
                if isinstance(x, ast.Name):
                    stale.add(x.id)
    return fresh - stale


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    if isinstance(e, ast.Call):
        return root_name(e.func)
    return e.id if isinstance(e, ast.Name) else None


class Effects(object):
    def __init__(self, project, contract=None):
        self.project = project
        # functions of these names are judged by their specification
        self.contract = contract
        self.by_name = {}
        for f in project.all_funcs():
            self.by_name.setdefault(f.name, []).append(f)
        # what a call may do beyond computing its value: store (2), raise (1)
        self.eff = {id(f.node): 0 for f in project.all_funcs()}
        if contract is not None:
            for n in contract.by_name:
                self.by_name.setdefault(n, [])
        for level in (2, 1):
            changed = True
            while changed:
                changed = False
                for f in project.all_funcs():
                    if self.eff[id(f.node)] < level and self._scan(f, level):
                        self.eff[id(f.node)] = level
                        changed = True

    def stores(self, name):
        if self.contract is not None and name in self.contract.by_name:
            return self.contract.stores(name)
        fs = self.by_name.get(name)
        return name in IMPURE or bool(fs) and any(self.eff[id(f.node)] == 2 for f in fs)

    def name_effectful(self, name):
        if self.contract is not None and name in self.contract.by_name:
            return self.contract.name_effectful(name)
        fs = self.by_name.get(name)
        if fs is None:
            return name in IMPURE
        return any(self.eff[id(f.node)] for f in fs) or name in IMPURE

    def _scan(self, f, level):
        fresh = local_fresh(f.node)
        ctor = f.name == '__init__'
        me = f.params()[0] if f.params() and f.cls is not None else None
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))
        if gen:
            return True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Raise) and level == 1:
                return True
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = root_name(n)
                if r in fresh:
                    continue
                if ctor and r == me:
                    continue
                return True
            if isinstance(n, ast.Call):
                r = root_name(n.func)
                if r in IGNORED_ROOTS:
                    continue
                name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if isinstance(n.func, ast.Attribute) and r in fresh and name not in self.by_name:
                    continue
                if ctor and isinstance(n.func, ast.Attribute) and name not in self.by_name and r == me:
                    continue
                if name in self.by_name or name in IMPURE:
                    if self.stores(name) or (level == 1 and self.name_effectful(name)):
                        return True
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                r = root_name(n.value.func)
                name = n.value.func.attr if isinstance(n.value.func, ast.Attribute) else getattr(n.value.func, 'id', '')
                if r in IGNORED_ROOTS or r in fresh or name in self.by_name or (ctor and r in (me, 'super')):
                    continue
                return True
        return False
